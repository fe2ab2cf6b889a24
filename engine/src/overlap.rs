//! One reader against very many writers: the reader is suspended before each of its memory accesses in turn, another
//! thread then stores again and again, and after every store the reader is resumed and runs to its end. It must report a
//! value that the object held. Version counters that come round too early are found here. Counters that would come round
//! only after billions of stores are followed by their constant step (see `shortcuts`).
use crate::asm::CpuModel;
use crate::cfgs::*;
use crate::check::*;
use crate::interp::*;
use crate::ir::mask;
use crate::plan::*;
use crate::sc::*;
use crate::scen::G;
use crate::spec::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
struct Mem<'a> {
    w: &'a World,
    first: HashMap<u64, u8>,
    now: BTreeMap<u64, u8>,
}
impl Mem<'_> {
    fn byte(&self, x: u64) -> u8 {
        let p = &self.w.prog;
        self.now.get(&x).or(self.first.get(&x)).copied().unwrap_or_else(|| if x >= p.gbase && x < p.gend { p.image.get((x - p.gbase) as usize).copied().unwrap_or(0) } else { 0x5A })
    }
    fn rd(&self, a: u64, n: u32) -> u128 {
        let b: Vec<u8> = (a..a + n as u64).map(|x| self.byte(x)).collect();
        self.w.value(&b)
    }
    fn wr(&mut self, a: u64, n: u32, v: u128) {
        for (i, b) in self.w.bytes(v, n).iter().enumerate() {
            self.now.insert(a + i as u64, *b);
        }
    }
    /// the crate's own words that have been written
    fn statics(&self) -> BTreeMap<u64, u8> {
        let p = &self.w.prog;
        self.now.iter().filter(|(a, _)| **a >= p.gbase && **a < p.gend).map(|(a, b)| (*a, *b)).collect()
    }
}
#[derive(Clone)]
struct T1 {
    th: Thread,
    req: Option<Req>,
    sys: u64,
    resv: bool,
    res: Vec<(u32, u128, u128)>,
}
enum End {
    Done,
    /// used up its steps
    More,
}
type R<X> = Result<X, (Why, String)>;
fn settle(c: &Ctx, t: &mut T1) -> R<()> {
    t.req = match c.advance(&mut t.th) {
        Status::Req(r) => Some(r),
        Status::Done => None,
        Status::Bad(w, m) => return Err((w, m)),
    };
    Ok(())
}
fn start(c: &Ctx) -> R<T1> {
    let mut t = T1 { th: c.thread(0), req: None, sys: 0, resv: false, res: vec![] };
    settle(c, &mut t)?;
    Ok(t)
}
fn go(c: &Ctx, t: &mut T1, m: &mut Mem, max: usize, steps: &mut u64) -> R<End> {
    for _ in 0..max {
        let Some(r) = t.req.clone() else { return Ok(End::Done) };
        *steps += 1;
        let (mut v, mut ok) = (0u128, true);
        match r.k {
            K::Call(_) | K::Choice(_) | K::Pause | K::Fence => {}
            K::Ret(_) => t.res.push((r.addr as u32, r.val, r.cmp)),
            K::Load => v = m.rd(r.addr, r.size),
            K::Ll => {
                v = m.rd(r.addr, r.size);
                t.resv = true;
            }
            K::Store => m.wr(r.addr, r.size, r.val),
            K::Rmw(_) | K::Cas { .. } => {
                v = m.rd(r.addr, r.size);
                match apply_rmw(&r, v) {
                    Ok((new, k)) => {
                        ok = k;
                        if let Some(x) = new {
                            m.wr(r.addr, r.size, x);
                        }
                    }
                    Err(Stop::Bad(w, s)) => return Err((w, s)),
                    Err(_) => return Err((Why::Unsupported, "rmw".into())),
                }
            }
            K::Sc => {
                ok = t.resv;
                t.resv = false;
                if ok {
                    m.wr(r.addr, r.size, r.val);
                }
            }
            K::SysR(_) => v = t.sys as u128,
            K::SysW(_) => {
                v = t.sys as u128;
                t.sys = (t.sys & !(r.cmp as u64)) | (r.val as u64 & r.cmp as u64);
            }
        }
        c.answer(&mut t.th, v, ok);
        settle(c, t)?;
    }
    Ok(if t.req.is_none() { End::Done } else { End::More })
}
const SOLO: usize = 4000;

struct Case<'a> {
    l: &'a Loaded,
    e: Entry,
    addr: u64,
    /// the values written in turn; the object starts with the first
    vals: Vec<u128>,
    store: Vec<Ctx>,
}
impl<'a> Case<'a> {
    fn new(l: &'a Loaded, ty: &str) -> Option<Case<'a>> {
        let e = l.e(ty, "store")?.clone();
        let g = G::new(l);
        let addr = g.addr();
        // values differ in every 16-bit part; seven of them, so that no power of two of stores repeats a value
        let vals: Vec<u128> = (0..7u128).map(|i| mask(0x0001_0001_0001_0001_0001_0001_0001_0001u128 * (0x1111 * (i + 1)), e.bits)).collect();
        let objs = [g.obj(&e, addr, vals[0])];
        let store = vals.iter().map(|v| l.world.ctx(0, &steps_of(&[g.op(&e, 0, (*v, 0), (4, 0))], &l.world, &objs))).collect();
        Some(Case { l, e, addr, vals, store })
    }
    fn mem(&self, statics: &BTreeMap<u64, u8>) -> Mem<'_> {
        let mut m = Mem { w: &self.l.world, first: HashMap::new(), now: BTreeMap::new() };
        for (i, b) in m.w.bytes(self.vals[0], self.e.bits / 8).iter().enumerate() {
            m.first.insert(self.addr + i as u64, *b);
        }
        m.first.extend(statics.iter().map(|(a, b)| (*a, *b)));
        m
    }
    fn store(&self, i: u64, m: &mut Mem, steps: &mut u64) -> R<bool> {
        let c = &self.store[(i % 7) as usize];
        let mut t = start(c)?;
        Ok(matches!(go(c, &mut t, m, SOLO, steps)?, End::Done))
    }
    fn resume(&self, c: &Ctx, t: &T1, m: &Mem, n: u64, cas: bool, steps: &mut u64, how: &str) -> R<()> {
        let (mut t, mut m) = (t.clone(), m.clone());
        if !matches!(go(c, &mut t, &mut m, SOLO, steps)?, End::Done) {
            return Err((Why::Ub, format!("suspended, then resumed after {n} stores{how}, does not finish although nobody else runs")));
        }
        let (_, v, _) = *t.res.first().ok_or((Why::Unsupported, "no result".to_string()))?;
        let v = mask(v, self.e.bits);
        if !self.vals.contains(&v) {
            return Err((Why::Ub, format!("suspended and resumed after {n} stores{how}, {} {v:#x}, which the object never held", if cas { "fails with" } else { "reports" })));
        }
        let left = m.rd(self.addr, self.e.bits / 8);
        if left != self.vals[(n % 7) as usize] {
            return Err((Why::Ub, format!("suspended and resumed after {n} stores{how}, leaves {left:#x} instead of the last value stored")));
        }
        Ok(())
    }
}
/// Words that each store advances by the same step and that come back to an earlier value after fewer than 2^33 stores:
/// (the word at that value, the word one store before it comes back to it, stores between)
fn shortcuts(k: &Case, steps: &mut u64) -> R<Vec<(BTreeMap<u64, u8>, BTreeMap<u64, u8>, u64)>> {
    let w = &k.l.world;
    let ps = w.prog.layout.ptr_bits / 8;
    let bits = ps * 8;
    let mut m = k.mem(&BTreeMap::new());
    k.store(1, &mut m, steps)?;
    let words: std::collections::BTreeSet<u64> = m.statics().keys().map(|a| a & !(ps as u64 - 1)).collect();
    let mut out = vec![];
    for a in words {
        let set = |v: u128| -> BTreeMap<u64, u8> { w.bytes(mask(v, bits), ps).iter().enumerate().map(|(i, b)| (a + i as u64, *b)).collect() };
        // contents of the statics after a store that found `v` in this word
        let next = |v: u128, steps: &mut u64| -> R<(u128, BTreeMap<u64, u8>)> {
            let mut m = k.mem(&set(v));
            if !k.store(1, &mut m, steps)? {
                return Ok((v, BTreeMap::new()));
            }
            Ok((m.rd(a, ps), m.statics()))
        };
        let z = k.mem(&BTreeMap::new()).rd(a, ps);
        let d = mask(next(z, steps)?.0.wrapping_sub(z), bits);
        if d == 0 || d > 64 || !d.is_power_of_two() || z % d != 0 {
            continue;
        }
        // a counter: every store advances it
        let mut m = k.mem(&BTreeMap::new());
        let mut counts = true;
        for i in 1..=6u64 {
            counts &= k.store(i, &mut m, steps)? && m.rd(a, ps) == mask(z + i as u128 * d, bits);
        }
        if !counts {
            continue;
        }
        let zero = k.mem(&BTreeMap::new());
        for p in 3..=bits.min(33) {
            let x = (1u128 << p) - d + z % (1u128 << p);
            let y = next(x, steps)?.0;
            if y >= x || (x - y) % d != 0 {
                continue;
            }
            // the counter really passes from y to x, and nothing else changes on the way
            let mut passes = true;
            let mut probe = vec![y, y + d, x - d, x - 2 * d, y + (x - y) / 2 / d * d];
            probe.extend((2..p).map(|q| (1u128 << q) - d).filter(|v| *v > y && *v < x));
            for v in probe.into_iter().filter(|v| *v >= y && *v < x) {
                let (to, after) = next(v, steps)?;
                passes &= to == v + d && after.iter().all(|(b, v)| (*b >= a && *b < a + ps as u64) || *v == zero.byte(*b));
            }
            if passes {
                out.push((set(y), set(x), ((x - y) / d) as u64));
                break;
            }
        }
    }
    Ok(out)
}
fn run_one(l: &Loaded, ty: &str, op: &str, n: u64, steps: &mut u64) -> R<()> {
    let Some(k) = Case::new(l, ty) else { return Ok(()) };
    let Some(e) = l.e(ty, op) else { return Ok(()) };
    let g = G::new(l);
    let objs = [g.obj(e, k.addr, k.vals[0])];
    let cas = op != "load";
    let ab = if cas { (mask(0x5A5A_5A5A_5A5A_5A5A_5A5A_5A5A_5A5A_5A5A, e.bits), 0) } else { (0, 0) };
    let c = l.world.ctx(0, &steps_of(&[g.op(e, 0, ab, if cas { (4, 4) } else { (4, 0) })], &l.world, &objs));
    // the reader before each of its accesses
    let stops = |st: &BTreeMap<u64, u8>, steps: &mut u64| -> R<Vec<(T1, Mem)>> {
        let mut v = vec![];
        let mut t = start(&c)?;
        let mut m = k.mem(st);
        while t.req.is_some() && v.len() < 64 {
            let r = t.req.clone().unwrap();
            if !matches!(r.k, K::Call(_) | K::Ret(_)) {
                v.push((t.clone(), m.clone()));
            }
            go(&c, &mut t, &mut m, 1, steps)?;
        }
        Ok(v)
    };
    'stop: for (t, m) in stops(&BTreeMap::new(), steps)? {
        let mut m = m;
        for i in 1..=n {
            // a store that waits for the reader ends this: the reader holds the lock
            if !k.store(i, &mut m, steps)? {
                continue 'stop;
            }
            k.resume(&c, &t, &m, i, cas, steps, "")?;
            if late() {
                return Err((Why::Unsupported, TIME.into()));
            }
        }
    }
    for (from, to, cnt) in shortcuts(&k, steps)? {
        for (t, m) in stops(&from, steps)? {
            let mut m = m;
            if m.statics().values().any(|_| true) {
                continue; // the reader has changed the lock itself
            }
            m.now.extend(to.iter().map(|(a, b)| (*a, *b)));
            let obj: Vec<u8> = l.world.bytes(k.vals[(cnt % 7) as usize], e.bits / 8);
            for (i, b) in obj.iter().enumerate() {
                m.now.insert(k.addr + i as u64, *b);
            }
            if k.store(cnt + 1, &mut m, steps)? {
                k.resume(&c, &t, &m, cnt + 1, cas, steps, &format!(" (all but the last of them followed by the constant step of the counter at {:#x}, from {:x?} to {:x?})", from.keys().next().unwrap(), from.values().collect::<Vec<_>>(), to.values().collect::<Vec<_>>()))?;
            }
        }
    }
    Ok(())
}
/// `stuck`: report readers that do not finish (and nothing else), or wrong values (and nothing else)
pub fn run(loaded: &[Loaded], a: &Args, deadline: Instant, tally: &Mutex<Tally>, stuck: bool) {
    let mut jobs: Vec<(usize, CpuModel, String, &'static str)> = vec![];
    for (li, l) in loaded.iter().enumerate() {
        let mut n = 0;
        for c in (l.cfg.cpus)() {
            if class(l.cfg, &c, 128) != Class::Lock || n >= if a.thorough { 9 } else { 1 } {
                continue;
            }
            n += 1;
            let f = l.fork(&c);
            for ty in types_of_class(&f, Class::Lock) {
                if ty.starts_with('u') {
                    for op in ["load", "cas"] {
                        jobs.push((li, c.clone(), ty.clone(), op));
                    }
                }
            }
        }
    }
    let next = AtomicUsize::new(0);
    let n: u64 = if a.thorough { 140_000 } else { 1_100 };
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let j = next.fetch_add(1, SeqCst);
                let Some((li, c, ty, op)) = jobs.get(j) else { break };
                let l = loaded[*li].fork(c);
                let name = format!("{op} {ty} against up to {n} stores");
                if let Some((u, s)) = &a.only {
                    if *u != l.world.name || *s != name {
                        continue;
                    }
                }
                if Instant::now() > deadline {
                    tally.lock().unwrap().skipped += 1;
                    continue;
                }
                set_until(Some((Instant::now() + Duration::from_secs(if a.thorough { 900 } else { 40 })).min(deadline)));
                let mut steps = 0;
                let r = run_one(&l, ty, op, n, &mut steps);
                set_until(None);
                let mut t = tally.lock().unwrap();
                t.scenarios += 1;
                t.states += steps;
                t.transitions += steps;
                let p = t.per.entry(l.world.name.clone()).or_default();
                p.0 += 1;
                p.1 += steps;
                *t.extra.entry("steps_of_readers_against_many_writers".into()).or_default() += steps;
                match r {
                    Ok(()) => {}
                    Err((Why::Unsupported, m)) => t.inconclusive.entry(m).or_insert((0, format!("{}: {name}", l.world.name))).0 += 1,
                    Err((_, m)) => {
                        if m.contains("does not finish") == stuck {
                            t.found.push(Found { unit: l.world.name.clone(), scen: name, why: if stuck { "stuck" } else { "result" }.into(), msg: format!("{ty} {op}: {m}"), trace: vec![], describe: vec![] });
                        }
                    }
                }
            });
        }
    });
}
