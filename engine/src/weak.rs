//! Weak memory: all candidate executions of small client programs.
//!
//! Each thread's compiled code is run for every sequence of values its reads could return (taken from the finite set of
//! values the calls can produce), which gives its traces of memory events with dependencies. Every choice of one trace
//! per thread, of the write each read reads from, and of the order of the writes to each object is then judged by the
//! memory model of the target (or of the language, where the code consists of language-level atomics only). The outcomes
//! that survive must all be outcomes the language memory model allows for the program of calls.
use crate::asm::{self, Arch};
use crate::auto::*;
use crate::interp::*;
use crate::ir::*;
use crate::lin::OpInfo;
use crate::sc::*;
use crate::spec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Model {
    Rc11,
    Tso,
    A64,
    Rv,
    Ppc,
}

const NOLOC: u8 = 255;
const F_A: u32 = 1;
const F_L: u32 = 2;
const F_Q: u32 = 4;
/// the compiler may move it among other reads
const F_RO: u32 = 8;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ev {
    loc: u8,
    /// bytes of the object that are accessed
    lo: u8,
    n: u8,
    rd: bool,
    wr: bool,
    rv: u128,
    wv: u128,
    fence: u32,
    flags: u32,
    ord: Ord_,
    /// the load this (conditional) store is paired with
    pair: u8,
    amo: bool,
    ad: u64,
    dd: u64,
    cd: u64,
    /// the call that made it
    call: u8,
}
impl Ev {
    fn new() -> Ev {
        Ev { loc: NOLOC, lo: 0, n: 0, rd: false, wr: false, rv: 0, wv: 0, fence: 0, flags: 0, ord: Ord_::Na, pair: 255, amo: false, ad: 0, dd: 0, cd: 0, call: 0 }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Trace {
    pub evs: Vec<Ev>,
    pub res: Vec<Res>,
}
pub const OWN_STATE: &str = "code keeps state of its own";
pub type Outs = BTreeSet<(Vec<Vec<Res>>, Vec<u128>)>;

/// bytes lo..lo+n of the object of `size` bytes holding `v`
fn part(v: u128, size: u32, lo: u32, n: u32, be: bool) -> u128 {
    let sh = if be { size - lo - n } else { lo } * 8;
    mask(v >> sh, n * 8)
}

/// All values object `k` can hold: the calls on it applied in any order, each at most once; of one thread only the
/// first few, if asked.
fn domain(s: &Scen, k: usize, limit: Option<(usize, u32)>) -> Result<Vec<u128>, String> {
    let mut ops: Vec<&OpInfo> = vec![];
    for (t, th) in s.threads.iter().enumerate() {
        for (i, a) in th.iter().enumerate() {
            if let Act::Op(x) = a {
                if x.obj == k && x.e.t != T::None && !matches!(limit, Some((lt, n)) if lt == t && i as u32 >= n) {
                    ops.push(x);
                }
            }
        }
    }
    let init = s.objs[k].init;
    let mut seen: BTreeSet<(u64, u128)> = [(0, init)].into_iter().collect();
    let mut todo = vec![(0u64, init)];
    while let Some((used, v)) = todo.pop() {
        for (i, x) in ops.iter().enumerate() {
            if used >> i & 1 == 0 {
                for (n, _) in spec(&x.e, v, x.a, x.b)? {
                    if seen.insert((used | 1 << i, n)) {
                        todo.push((used | 1 << i, n));
                    }
                }
            }
        }
    }
    Ok(seen.into_iter().map(|x| x.1).collect::<BTreeSet<_>>().into_iter().collect())
}
fn domains(s: &Scen) -> Result<Vec<Vec<u128>>, String> {
    (0..s.objs.len()).map(|k| domain(s, k, None)).collect()
}
fn ord_of(o: u32) -> Ord_ {
    match o {
        0 => Ord_::Rlx,
        1 => Ord_::Rel,
        2 => Ord_::Acq,
        3 => Ord_::AcqRel,
        _ => Ord_::Sc,
    }
}
/// Traces of the program of calls itself.
fn abstract_traces(s: &Scen, dom: &[Vec<u128>]) -> Result<Vec<Vec<Trace>>, String> {
    let mut all = vec![];
    for th in &s.threads {
        let mut ts = vec![Trace { evs: vec![], res: vec![] }];
        for a in th {
            let Act::Op(x) = a else { return Err("plain access".into()) };
            let mut nt = vec![];
            for t in &ts {
                if x.e.t == T::None {
                    let mut t2 = t.clone();
                    if x.e.op == "fence" {
                        t2.evs.push(Ev { fence: asm::FK_FULL, ord: ord_of(x.o1), ..Ev::new() });
                    }
                    t2.res.push(Res { flag: 1, val: None, val2: None });
                    nt.push(t2);
                    continue;
                }
                let size = (x.e.bits / 8) as u8;
                let base = Ev { loc: x.obj as u8, n: size, ord: ord_of(x.o1), ..Ev::new() };
                if x.e.op == "store" {
                    let mut t2 = t.clone();
                    for (n, r) in spec(&x.e, 0, x.a, x.b)? {
                        t2.evs.push(Ev { wr: true, wv: n, ..base.clone() });
                        t2.res.push(r);
                    }
                    nt.push(t2);
                    continue;
                }
                for v in &dom[x.obj] {
                    for (n, r) in spec(&x.e, *v, x.a, x.b)? {
                        let mut t2 = t.clone();
                        let mut e = Ev { rd: true, rv: *v, ..base.clone() };
                        match kind(&x.e.op) {
                            Kind::Load => {}
                            Kind::Cas | Kind::Update if r.flag == 0 => e.ord = ord_of(x.o2),
                            _ => {
                                e.wr = true;
                                e.wv = n;
                            }
                        }
                        t2.evs.push(e);
                        t2.res.push(r);
                        nt.push(t2);
                    }
                }
            }
            ts = nt;
        }
        all.push(ts);
    }
    Ok(all)
}

pub struct Cx<'a> {
    w: &'a World,
    s: &'a Scen,
    dom: Vec<Vec<u128>>,
    warm: BTreeMap<u64, u8>,
    model: Model,
    lse: bool,
    /// value-changing calls per object and thread
    writers: Vec<Vec<u32>>,
    pub saw_asm: bool,
    pub ntraces: u64,
    max_fail: u32,
    vals: HashMap<(usize, usize, u32), Vec<u128>>,
}
#[derive(Clone)]
struct Walk {
    node: u32,
    evs: Vec<Ev>,
    res: Vec<Res>,
    /// answer index -> event
    a2e: Vec<u8>,
    /// what each half of each object was last known to hold, and how often it has changed
    last: Vec<[Option<u128>; 2]>,
    changes: Vec<[u32; 2]>,
    /// own calls that have returned; whether the present one has written
    done: u32,
    mark: usize,
    wrote: bool,
    /// open reservation: event, address, object value
    resv: Option<(u8, u64, u32, u128)>,
    /// other half of a pair load still to be answered
    fails: u32,
}
enum Bad {
    V(String, String),
    Inc(String),
}

impl<'a> Cx<'a> {
    fn be(&self) -> bool {
        self.w.prog.layout.big_endian
    }
    fn global(&self, addr: u64, n: u32) -> u128 {
        let p = &self.w.prog;
        let b: Vec<u8> = (addr..addr + n as u64).map(|x| self.warm.get(&x).copied().unwrap_or_else(|| p.image.get((x - p.gbase) as usize).copied().unwrap_or(0))).collect();
        self.w.value(&b)
    }
    /// object and position of an access; the access may be wider than the object
    fn find(&self, addr: u64, size: u32) -> Option<(usize, i64)> {
        for (k, o) in self.s.objs.iter().enumerate() {
            let osz = (o.e.bits / 8) as u64;
            if addr < o.addr + osz && o.addr < addr + size as u64 {
                return Some((k, addr as i64 - o.addr as i64));
            }
        }
        None
    }
    /// what an access at offset `d` of `size` bytes reads when the object holds `v`
    fn view(&self, k: usize, d: i64, size: u32, v: u128) -> u128 {
        let osz = self.s.objs[k].e.bits / 8;
        let ob = self.w.bytes(v, osz);
        let b: Vec<u8> = (0..size as i64)
            .map(|i| {
                let j = d + i;
                if j >= 0 && j < osz as i64 { ob[j as usize] } else { 0x5A }
            })
            .collect();
        self.w.value(&b)
    }
    /// the object's value after a write of `v`; None if the write covers only a part of it
    fn unview(&self, k: usize, d: i64, size: u32, v: u128) -> Option<u128> {
        let osz = self.s.objs[k].e.bits / 8;
        if d > 0 || d + (size as i64) < osz as i64 {
            return None;
        }
        let b = self.w.bytes(v, size);
        Some(self.w.value(&b[(-d) as usize..(-d) as usize + osz as usize]))
    }
    fn fence(&self, w: &mut Walk, k: u32, ord: Ord_, cd: u64) {
        w.evs.push(Ev { fence: k, ord, cd, ..Ev::new() });
    }
    fn lower_pre(&self, w: &mut Walk, r: &Req, ord: Ord_, store: bool, rmw: bool) -> u32 {
        let _ = rmw;
        if r.asm || ord == Ord_::Na {
            return 0;
        }
        let (acq, rel, sc) = (matches!(ord, Ord_::Acq | Ord_::AcqRel | Ord_::Sc), matches!(ord, Ord_::Rel | Ord_::AcqRel | Ord_::Sc), ord == Ord_::Sc);
        match self.model {
            Model::A64 => {
                let mut f = 0;
                if store || rmw {
                    if rel {
                        f |= F_L;
                    }
                }
                if !store {
                    if acq {
                        f |= if rmw || sc { F_A } else { F_Q };
                    }
                }
                return f;
            }
            Model::Rv => {
                if rmw {
                    return (if acq { F_A } else { 0 }) | if rel { F_L } else { 0 };
                }
                if store && rel {
                    self.fence(w, asm::FK_PS | 3 << 4 | 2, ord, 0);
                }
                if !store && sc {
                    self.fence(w, asm::FK_FULL, ord, 0);
                }
            }
            Model::Ppc => {
                if sc {
                    self.fence(w, asm::FK_FULL, ord, 0);
                } else if rel && (store || rmw) {
                    self.fence(w, asm::FK_LW, ord, 0);
                }
            }
            _ => {}
        }
        0
    }
    fn lower_post(&self, w: &mut Walk, r: &Req, ord: Ord_, store: bool, rmw: bool, ev: u8) {
        if r.asm || ord == Ord_::Na {
            return;
        }
        let (acq, sc) = (matches!(ord, Ord_::Acq | Ord_::AcqRel | Ord_::Sc), ord == Ord_::Sc);
        match self.model {
            Model::Tso if store && sc => self.fence(w, asm::FK_FULL, ord, 0),
            Model::Rv if !store && !rmw && acq => self.fence(w, asm::FK_PS | 1 << 4 | 3, ord, 0),
            Model::Ppc if acq && rmw => self.fence(w, asm::FK_LW, ord, 0),
            Model::Ppc if acq && !store => self.fence(w, asm::FK_ISYNC, ord, 1 << ev),
            _ => {}
        }
    }
    /// the thread's own write
    fn own(&self, w: &mut Walk, k: usize, v: u128) {
        let osz = self.s.objs[k].e.bits / 8;
        let be = self.be();
        w.wrote = true;
        w.last[k] = if osz < 2 { [Some(v), Some(0)] } else { [Some(part(v, osz, 0, osz / 2, be)), Some(part(v, osz, osz / 2, osz / 2, be))] };
    }
    /// Notes that bytes lo..lo+n of `v` have been seen; false if others cannot have made so many changes.
    fn saw(&self, w: &mut Walk, t: usize, k: usize, v: u128, lo: u32, n: u32) -> bool {
        let osz = self.s.objs[k].e.bits / 8;
        let be = self.be();
        for h in 0..2u32 {
            let (a, b) = if osz < 2 { (0, 1 - h) } else { (h * osz / 2, osz / 2) };
            if b == 0 || a < lo || a + b > lo + n {
                continue;
            }
            let x = part(v, osz, a, b, be);
            if w.last[k][h as usize].map(|y| x != y).unwrap_or(false) {
                w.changes[k][h as usize] += 1;
                if w.changes[k][h as usize] > self.writers[k][t] {
                    return false;
                }
            }
            w.last[k][h as usize] = Some(x);
        }
        true
    }
    /// All values object `k` can hold while thread `t` has made its first `own` calls at most.
    fn values(&mut self, t: usize, k: usize, own: u32) -> Vec<u128> {
        if let Some(v) = self.vals.get(&(t, k, own)) {
            return v.clone();
        }
        let v = domain(self.s, k, Some((t, own))).unwrap_or_else(|_| self.dom[k].clone());
        self.vals.insert((t, k, own), v.clone());
        v
    }
    fn map_dep(&self, w: &Walk, d: u64) -> u64 {
        let mut m = 0;
        for i in 0..64 {
            if d >> i & 1 == 1 {
                if let Some(e) = w.a2e.get(i) {
                    if *e != 255 {
                        m |= 1u64 << e;
                    }
                }
            }
        }
        m
    }
    fn go(&mut self, auto: &mut Auto, t: usize, acts: &[Act], w: Walk, out: &mut Vec<Trace>) -> Result<(), Bad> {
        let mut w = w;
        loop {
            if late() {
                return Err(Bad::Inc(TIME.into()));
            }
            if out.len() > 20_000 {
                return Err(Bad::Inc("too many traces".into()));
            }
            if w.evs.len() > 44 || w.a2e.len() > 60 {
                // retried too often: outside the bound
                return Ok(());
            }
            let r = match auto.st(w.node) {
                NSt::Done => {
                    self.ntraces += 1;
                    out.push(Trace { evs: w.evs, res: w.res });
                    return Ok(());
                }
                NSt::Bad(Why::Unsupported, m) => return Err(Bad::Inc(m.clone())),
                NSt::Bad(k, m) => return Err(Bad::V(format!("{k:?}").to_lowercase(), format!("T{t}: {m}"))),
                NSt::Req(r) => r.clone(),
            };
            let step = |w: &mut Walk, auto: &mut Auto, v: u128, ok: bool, ev: u8| {
                w.node = auto.next(w.node, v, ok);
                w.a2e.push(ev);
            };
            if r.is_mem() && !matches!(r.k, K::Sc) {
                let p = &self.w.prog;
                if r.addr >= p.gbase && r.addr + r.size as u64 <= p.gend {
                    let old = self.global(r.addr, r.size);
                    match apply_rmw(&r, old) {
                        _ if matches!(r.k, K::Load) => step(&mut w, auto, old, true, 255),
                        Ok((Some(n), ok)) if n == old => step(&mut w, auto, old, ok, 255),
                        Ok((None, ok)) => step(&mut w, auto, old, ok, 255),
                        _ => return Err(Bad::Inc(if std::env::var_os("PAMC_DBG").is_some() { format!("state at {:#x} {:?} old {old:#x} new {:#x}", r.addr, r.k, r.val) } else { OWN_STATE.into() })),
                    }
                    continue;
                }
            }
            let (ad, dd, cd) = (self.map_dep(&w, r.adep), self.map_dep(&w, r.vdep), self.map_dep(&w, r.ctrl));
            if r.asm && (r.is_mem() || r.k == K::Fence) {
                self.saw_asm = true;
            }
            match r.k {
                K::Call(_) | K::Pause => step(&mut w, auto, 0, true, 255),
                K::Choice(_) => step(&mut w, auto, 0, true, 255),
                K::Ret(ix) => {
                    let Act::Op(o) = &acts[ix as usize] else { return Err(Bad::Inc("plain access".into())) };
                    w.res.push(observed(&o.e, r.addr as u32, r.val, r.cmp));
                    let c = w.done as u8;
                    let at = w.mark;
                    w.evs[at..].iter_mut().for_each(|e| e.call = c);
                    w.mark = w.evs.len();
                    w.done += 1;
                    w.wrote = false;
                    step(&mut w, auto, 0, true, 255);
                }
                K::SysR(_) | K::SysW(_) => return Err(Bad::Inc("interrupt state".into())),
                K::Fence => {
                    if !r.single {
                        if r.asm {
                            if r.hw != 0 {
                                let o = if r.hw == asm::FK_FULL { Ord_::Sc } else { Ord_::AcqRel };
                                self.fence(&mut w, r.hw, o, cd);
                            }
                        } else {
                            let k = match (self.model, r.ord) {
                                (Model::Tso, Ord_::Sc) => asm::FK_FULL,
                                (Model::Tso, _) => 0,
                                (Model::A64, Ord_::Acq) => asm::FK_LD,
                                (Model::A64, _) => asm::FK_FULL,
                                (Model::Rv, Ord_::Acq) => asm::FK_PS | 1 << 4 | 3,
                                (Model::Rv, Ord_::Rel) => asm::FK_PS | 3 << 4 | 2,
                                (Model::Rv, Ord_::AcqRel) => asm::FK_LW,
                                (Model::Rv, _) => asm::FK_FULL,
                                (Model::Ppc, Ord_::Sc) => asm::FK_FULL,
                                (Model::Ppc, _) => asm::FK_LW,
                                (Model::Rc11, _) => asm::FK_FULL,
                            };
                            if k != 0 {
                                self.fence(&mut w, k, r.ord, 0);
                            }
                        }
                    }
                    step(&mut w, auto, 0, true, 255);
                }
                K::Sc => {
                    // fails
                    if w.fails < self.max_fail || w.resv.is_none() {
                        let mut w2 = w.clone();
                        w2.fails += 1;
                        w2.resv = None;
                        if w2.fails <= self.max_fail + 2 {
                            step(&mut w2, auto, 0, false, 255);
                            self.go(auto, t, acts, w2, out)?;
                        }
                    }
                    let Some((ev, la, ls, _)) = w.resv else { return Ok(()) };
                    if r.addr < la || r.addr + r.size as u64 > la + ls as u64 {
                        return Err(Bad::Inc("store-conditional outside the reservation".into()));
                    }
                    let Some((k, d)) = self.find(r.addr, r.size) else { return Err(Bad::Inc("store-conditional outside the object".into())) };
                    let Some(nv) = self.unview(k, d, r.size, r.val) else { return Err(Bad::Inc("partial store".into())) };
                    let mut f = 0;
                    if r.hw & HW_REL != 0 {
                        f |= F_L;
                    }
                    if r.hw & HW_ACQ != 0 {
                        f |= F_A;
                    }
                    let osz = (self.s.objs[k].e.bits / 8) as u8;
                    w.evs.push(Ev { loc: k as u8, n: osz, wr: true, wv: nv, flags: f, pair: ev, ad, dd, cd, ..Ev::new() });
                    w.resv = None;
                    self.own(&mut w, k, nv);
                    // A branch on the success of a conditional store: on Power it orders as one on the load it is paired
                    // with (the lock acquisition idiom of the architecture book); elsewhere it orders nothing.
                    let i = if self.model == Model::Ppc { ev } else { 255 };
                    step(&mut w, auto, 0, true, i);
                }
                K::Load if r.hw & HW_EXCL != 0 && w.resv.is_some() && self.find(r.addr, r.size).is_some() => {
                    // second half of an exclusive pair load
                    let (ev, la, ls, v) = w.resv.unwrap();
                    let (k, d) = self.find(r.addr, r.size).unwrap();
                    let x = self.view(k, d, r.size, v);
                    let osz = self.s.objs[k].e.bits / 8;
                    w.evs[ev as usize].lo = 0;
                    w.evs[ev as usize].n = osz as u8;
                    w.evs[ev as usize].rv = v;
                    w.resv = Some((ev, la.min(r.addr), ls.max(osz), v));
                    step(&mut w, auto, x, true, ev);
                }
                K::Load | K::Ll | K::Store | K::Rmw(_) | K::Cas { .. } => {
                    let Some((k, d)) = self.find(r.addr, r.size) else { return Err(Bad::Inc(format!("access outside the objects at {:#x}", r.addr))) };
                    let osz = self.s.objs[k].e.bits / 8;
                    let (lo, hi) = (d.max(0) as u32, ((d + r.size as i64).min(osz as i64)) as u32);
                    let n = hi - lo;
                    let be = self.be();
                    let hwf = (if r.hw & HW_ACQ != 0 { F_A } else { 0 }) | (if r.hw & HW_REL != 0 { F_L } else { 0 }) | if r.hw & HW_ACQPC != 0 { F_Q } else { 0 };
                    let hwf = if r.hw & HW_RO != 0 { F_RO } else { hwf };
                    if r.k == K::Store {
                        let Some(nv) = self.unview(k, d, r.size, r.val) else { return Err(Bad::Inc("partial store".into())) };
                        let f = self.lower_pre(&mut w, &r, r.ord, true, false);
                        w.evs.push(Ev { loc: k as u8, n: osz as u8, wr: true, wv: nv, flags: f | if r.asm { hwf } else { 0 }, ord: r.ord, ad, dd, cd, ..Ev::new() });
                        let i = (w.evs.len() - 1) as u8;
                        self.lower_post(&mut w, &r, r.ord, true, false, i);
                        self.own(&mut w, k, nv);
                        w.resv = None;
                        step(&mut w, auto, 0, true, i);
                        continue;
                    }
                    let dom = self.values(t, k, w.done + w.wrote as u32);
                    let mut seen = BTreeSet::new();
                    for v in dom {
                        let rv = part(v, osz, lo, n, be);
                        // an exclusive load of the first half settles the other half too
                        let whole = r.k == K::Ll;
                        if !seen.insert(if whole { v } else { rv }) {
                            continue;
                        }
                        let mut w2 = w.clone();
                        if !self.saw(&mut w2, t, k, v, if whole { 0 } else { lo }, if whole { osz } else { n }) {
                            continue;
                        }
                        let wide = self.view(k, d, r.size, v);
                        let rdev = Ev { loc: k as u8, lo: lo as u8, n: n as u8, rd: true, rv, ord: r.ord, ad, dd, cd, ..Ev::new() };
                        match r.k {
                            K::Load => {
                                let f = self.lower_pre(&mut w2, &r, r.ord, false, false);
                                w2.evs.push(Ev { flags: f | if r.asm { hwf } else { 0 }, ..rdev });
                                let i = (w2.evs.len() - 1) as u8;
                                self.lower_post(&mut w2, &r, r.ord, false, false, i);
                                step(&mut w2, auto, wide, true, i);
                                self.go(auto, t, acts, w2, out)?;
                            }
                            K::Ll => {
                                w2.evs.push(Ev { flags: hwf, ..rdev });
                                let i = (w2.evs.len() - 1) as u8;
                                w2.resv = Some((i, r.addr, r.size, v));
                                step(&mut w2, auto, wide, true, i);
                                self.go(auto, t, acts, w2, out)?;
                            }
                            _ => {
                                let (new, ok) = match apply_rmw(&r, wide) {
                                    Ok(x) => x,
                                    _ => return Err(Bad::Inc("read-modify-write".into())),
                                };
                                if r.k == (K::Cas { weak: true }) && ok && !r.asm {
                                    let mut w3 = w2.clone();
                                    if w3.fails < self.max_fail {
                                        w3.fails += 1;
                                        self.rmw(&mut w3, &r, &rdev, None, hwf)?;
                                        let i = w3.evs.iter().rposition(|e| e.rd).unwrap() as u8;
                                        step(&mut w3, auto, wide, false, i);
                                        self.go(auto, t, acts, w3, out)?;
                                    }
                                }
                                let nv = match new {
                                    Some(x) => match self.unview(k, d, r.size, x) {
                                        Some(y) => Some(y),
                                        None => return Err(Bad::Inc("partial read-modify-write".into())),
                                    },
                                    None => None,
                                };
                                self.rmw(&mut w2, &r, &rdev, nv, hwf)?;
                                if let Some(n) = nv {
                                    self.own(&mut w2, k, n);
                                }
                                w2.resv = None;
                                let i = w2.evs.iter().rposition(|e| e.rd).unwrap() as u8;
                                step(&mut w2, auto, wide, ok, i);
                                self.go(auto, t, acts, w2, out)?;
                            }
                        }
                    }
                    return Ok(());
                }
            }
        }
    }
    /// events of a read-modify-write instruction (or language-level operation)
    fn rmw(&self, w: &mut Walk, r: &Req, rd: &Ev, nv: Option<u128>, hwf: u32) -> Result<(), Bad> {
        let cas_failed = nv.is_none();
        let ord = if cas_failed { r.ford } else { r.ord };
        if self.w.arch == Arch::Arm {
            // pre-v6 Linux: a plain load and comparison, then the kernel helper, which has a barrier on both sides
            if !cas_failed {
                w.evs.push(Ev { fence: asm::FK_FULL, ord: Ord_::Sc, ..Ev::new() });
            }
            w.evs.push(Ev { wr: nv.is_some(), wv: nv.unwrap_or(0), ord: Ord_::Rlx, amo: true, ..rd.clone() });
            if !cas_failed {
                w.evs.push(Ev { fence: asm::FK_FULL, ord: Ord_::Sc, ..Ev::new() });
            }
            return Ok(());
        }
        if self.model == Model::Rc11 || self.model == Model::Tso {
            let o = if r.asm { Ord_::Sc } else { ord };
            let o2 = if self.model == Model::Rc11 && r.asm && !cas_failed { Ord_::Sc } else { o };
            // a failed locked compare-exchange still orders like a successful one
            let fl = if self.model == Model::Tso { F_A | F_L } else { 0 };
            w.evs.push(Ev { wr: nv.is_some(), wv: nv.unwrap_or(0), ord: o2, flags: fl, amo: true, ..rd.clone() });
            return Ok(());
        }
        // a language-level compare-exchange is compiled for the stronger of its two orderings
        let both = |a: Ord_, b: Ord_| match (a, b) {
            (Ord_::Sc, _) | (_, Ord_::Sc) => Ord_::Sc,
            (Ord_::Rel, Ord_::Acq) | (Ord_::Acq, Ord_::Rel) | (Ord_::AcqRel, _) | (_, Ord_::AcqRel) => Ord_::AcqRel,
            (Ord_::Rlx, x) => x,
            (x, _) => x,
        };
        let full = if matches!(r.k, K::Cas { .. }) { both(r.ord, r.ford) } else { r.ord };
        let f = if r.asm { hwf } else { self.lower_pre(w, r, full, false, true) };
        let single = match self.model {
            Model::A64 => self.lse || r.asm,
            Model::Rv => r.asm || !matches!(r.k, K::Cas { .. }),
            _ => false,
        };
        if self.model == Model::Rv && single {
            w.evs.push(Ev { wr: nv.is_some(), wv: nv.unwrap_or(0), flags: f, amo: true, ord, ..rd.clone() });
            return Ok(());
        }
        let i = w.evs.len() as u8;
        w.evs.push(Ev { flags: f & (F_A | F_Q), amo: single, ..rd.clone() });
        if let Some(v) = nv {
            w.evs.push(Ev { rd: false, wr: true, wv: v, lo: 0, n: (self.s.objs[rd.loc as usize].e.bits / 8) as u8, flags: f & F_L, amo: single, pair: i, dd: rd.dd | 1 << i, ..rd.clone() });
        }
        self.lower_post(w, r, full, false, true, i);
        Ok(())
    }
    fn traces(&mut self) -> Result<Vec<Vec<Trace>>, Bad> {
        let mut all = vec![];
        for (t, acts) in self.s.threads.iter().enumerate() {
            let a = self.w.auto(t as u32, &steps_of(acts, self.w, &self.s.objs));
            let mut a = a.borrow_mut();
            let n = self.s.objs.len();
            let w = Walk { node: 0, evs: vec![], res: vec![], a2e: vec![], last: vec![[None; 2]; n], changes: vec![[0; 2]; n], done: 0, mark: 0, wrote: false, resv: None, fails: 0 };
            let mut out = vec![];
            self.go(&mut a, t, acts, w, &mut out)?;
            all.push(out);
        }
        Ok(all)
    }
}

/// Can `small` be had from `big` by leaving out events other than writes? No model forbids an execution for lack of
/// events, so whatever `big` can lead to, `small` can.
fn embeds(small: &Trace, big: &Trace) -> bool {
    fn same(a: &Ev, b: &Ev) -> bool {
        a.loc == b.loc && a.lo == b.lo && a.n == b.n && a.rd == b.rd && a.wr == b.wr && a.rv == b.rv && a.wv == b.wv && a.fence == b.fence && a.flags == b.flags && a.ord == b.ord && a.amo == b.amo && (a.pair == 255) == (b.pair == 255)
    }
    fn deps(d: u64, to: &[usize], big: u64) -> bool {
        (0..64).filter(|i| d >> i & 1 == 1).all(|i| to.get(i).map(|k| big >> k & 1 == 1).unwrap_or(false))
    }
    fn go(s: &Trace, b: &Trace, j: usize, to: &mut Vec<usize>) -> bool {
        let i = to.len();
        if i == s.evs.len() {
            return b.evs[j..].iter().all(|e| !e.wr);
        }
        let e = &s.evs[i];
        for k in j..b.evs.len() {
            let f = &b.evs[k];
            if same(e, f) && (e.pair == 255 || to[e.pair as usize] == f.pair as usize) && deps(e.ad, to, f.ad) && deps(e.dd, to, f.dd) && deps(e.cd, to, f.cd) {
                to.push(k);
                if go(s, b, k + 1, to) {
                    return true;
                }
                to.pop();
            }
            if f.wr {
                return false;
            }
        }
        false
    }
    small.evs.len() <= big.evs.len() && go(small, big, 0, &mut vec![])
}
/// The trace without the reads that a later read of the same call made irrelevant. It can lead to whatever the whole
/// trace can lead to, and possibly to more.
fn strip(t: &Trace, sizes: &[u32]) -> Trace {
    let n = t.evs.len();
    let mut keep = vec![true; n];
    for i in 0..n {
        let e = &t.evs[i];
        if e.rd && !e.wr && !t.evs.iter().any(|f| f.pair as usize == i) {
            keep[i] = !t.evs[i + 1..].iter().any(|f| f.rd && f.loc == e.loc && f.call == e.call && f.n as u32 == sizes[f.loc as usize]);
        }
    }
    let mut to = vec![255u8; n];
    let mut k = 0;
    for i in 0..n {
        if keep[i] {
            to[i] = k;
            k += 1;
        }
    }
    let m = |d: u64| (0..n).filter(|i| d >> i & 1 == 1 && keep[*i]).fold(0u64, |a, i| a | 1 << to[i]);
    let evs = (0..n)
        .filter(|i| keep[*i])
        .map(|i| {
            let e = &t.evs[i];
            Ev { pair: if e.pair == 255 { 255 } else { to[e.pair as usize] }, ad: m(e.ad), dd: m(e.dd), cd: m(e.cd), ..e.clone() }
        })
        .collect();
    Trace { evs, res: t.res.clone() }
}
fn minimal(all: Vec<Trace>) -> Vec<Trace> {
    let mut groups: HashMap<(Vec<Res>, Vec<(u8, u128)>), Vec<Trace>> = HashMap::new();
    for t in all {
        let k = (t.res.clone(), t.evs.iter().filter(|e| e.wr).map(|e| (e.loc, e.wv)).collect());
        groups.entry(k).or_default().push(t);
    }
    let mut out: Vec<Trace> = vec![];
    let mut dead = false;
    let mut keys: Vec<_> = groups.keys().cloned().collect();
    keys.sort();
    for k in keys {
        let mut g = groups.remove(&k).unwrap();
        g.sort_by_key(|t| t.evs.len());
        let at = out.len();
        for t in g {
            if dead || late() {
                // (only a reduction)
                dead = true;
                out.push(t);
                continue;
            }
            if !out[at..].iter().any(|s| embeds(s, &t)) {
                out.push(t);
            }
        }
    }
    out
}

// ---------------------------------------------------------------- relations
type Rel = Vec<u64>;
fn seq(a: &Rel, b: &Rel) -> Rel {
    a.iter()
        .map(|r| {
            let (mut m, mut o) = (*r, 0);
            while m != 0 {
                o |= b[m.trailing_zeros() as usize];
                m &= m - 1;
            }
            o
        })
        .collect()
}
fn or(a: &Rel, b: &Rel) -> Rel {
    a.iter().zip(b).map(|(x, y)| x | y).collect()
}
fn ors(v: &[&Rel]) -> Rel {
    (0..v[0].len()).map(|i| v.iter().fold(0, |x, r| x | r[i])).collect()
}
fn plus(a: &Rel) -> Rel {
    let mut r = a.clone();
    for k in 0..r.len() {
        let rk = r[k];
        for i in 0..r.len() {
            if r[i] >> k & 1 == 1 {
                r[i] |= rk;
            }
        }
    }
    r
}
fn star(a: &Rel) -> Rel {
    let mut r = plus(a);
    for (i, x) in r.iter_mut().enumerate() {
        *x |= 1 << i;
    }
    r
}
fn opt(a: &Rel) -> Rel {
    a.iter().enumerate().map(|(i, x)| x | 1 << i).collect()
}
fn dom(a: &Rel, m: u64) -> Rel {
    a.iter().enumerate().map(|(i, x)| if m >> i & 1 == 1 { *x } else { 0 }).collect()
}
fn rng(a: &Rel, m: u64) -> Rel {
    a.iter().map(|x| x & m).collect()
}
fn acyclic(a: &Rel) -> bool {
    // repeatedly remove nodes without successors
    let mut live: u64 = if a.len() == 64 { !0 } else { (1 << a.len()) - 1 };
    loop {
        let mut m = live;
        let mut gone = 0;
        while m != 0 {
            let i = m.trailing_zeros() as usize;
            m &= m - 1;
            if a[i] & live == 0 {
                gone |= 1 << i;
            }
        }
        if gone == 0 {
            return live == 0;
        }
        live &= !gone;
    }
}
fn irreflexive(a: &Rel) -> bool {
    a.iter().enumerate().all(|(i, x)| x >> i & 1 == 0)
}

/// One choice of traces, with what does not depend on rf and co.
struct Exec<'a> {
    ev: Vec<&'a Ev>,
    th: Vec<u8>,
    base: Vec<usize>,
    po: Rel,
    poloc: Rel,
    rmw: Rel,
    int: Rel,
    r: u64,
    w: u64,
    f: u64,
}
impl<'a> Exec<'a> {
    fn new(ts: &[&'a Trace]) -> Option<Exec<'a>> {
        let n: usize = ts.iter().map(|t| t.evs.len()).sum();
        if n > 64 {
            return None;
        }
        let mut x = Exec { ev: vec![], th: vec![], base: vec![], po: vec![0; n], poloc: vec![0; n], rmw: vec![0; n], int: vec![0; n], r: 0, w: 0, f: 0 };
        for (t, tr) in ts.iter().enumerate() {
            let b = x.ev.len();
            x.base.push(b);
            for e in &tr.evs {
                x.ev.push(e);
                x.th.push(t as u8);
            }
            let end = x.ev.len();
            for i in b..end {
                let e = x.ev[i];
                for j in b..end {
                    x.int[i] |= 1 << j;
                }
                for j in i + 1..end {
                    x.po[i] |= 1 << j;
                    let g = x.ev[j];
                    if e.loc != NOLOC && e.loc == g.loc && e.lo < g.lo + g.n && g.lo < e.lo + e.n {
                        x.poloc[i] |= 1 << j;
                    }
                }
                if e.rd {
                    x.r |= 1 << i;
                }
                if e.wr {
                    x.w |= 1 << i;
                }
                if e.fence != 0 {
                    x.f |= 1 << i;
                }
                if e.pair != 255 {
                    x.rmw[b + e.pair as usize] |= 1 << i;
                }
            }
        }
        Some(x)
    }
    fn set(&self, p: impl Fn(&Ev) -> bool) -> u64 {
        self.ev.iter().enumerate().fold(0, |m, (i, e)| if p(e) { m | 1 << i } else { m })
    }
    fn dep(&self, f: impl Fn(&Ev) -> u64) -> Rel {
        let mut r = vec![0u64; self.ev.len()];
        for (i, e) in self.ev.iter().enumerate() {
            let b = self.base[self.th[i] as usize];
            let mut m = f(e);
            while m != 0 {
                let k = m.trailing_zeros() as usize;
                m &= m - 1;
                if b + k < i {
                    r[b + k] |= 1 << i;
                }
            }
        }
        r
    }
    /// po; [fence of this kind]; po restricted to pred / succ sets
    fn around(&self, fm: u64, p: u64, s: u64) -> Rel {
        rng(&dom(&seq(&rng(&self.po, fm), &self.po), p), s)
    }
    fn ext(&self, r: &Rel) -> Rel {
        r.iter().zip(&self.int).map(|(a, b)| a & !b).collect()
    }
    fn inn(&self, r: &Rel) -> Rel {
        r.iter().zip(&self.int).map(|(a, b)| a & b).collect()
    }
}
struct Fixed {
    /// order that follows from program order, fences and dependencies alone
    ppo: Rel,
    addr: Rel,
    data: Rel,
    ctrl: Rel,
    sync: Rel,
    lw: Rel,
    ctrlfence: Rel,
}
fn fixed(m: Model, x: &Exec) -> Fixed {
    let n = x.ev.len();
    let z = vec![0u64; n];
    let mem = x.r | x.w;
    let addr = x.dep(|e| e.ad);
    let data = x.dep(|e| if e.wr { e.dd } else { 0 });
    let ctrl = {
        // a control dependency covers everything later in program order
        let d = x.dep(|e| e.cd);
        or(&d, &seq(&d, &x.po))
    };
    let fk = |k: u32| x.set(|e| e.fence == k);
    let full = fk(asm::FK_FULL);
    let mut fx = Fixed { ppo: z.clone(), addr, data, ctrl, sync: z.clone(), lw: z.clone(), ctrlfence: z.clone() };
    let isync = {
        // reads whose branch precedes an instruction barrier
        let im = fk(asm::FK_ISYNC);
        let mut r = z.clone();
        for i in 0..n {
            let mut m = im & x.po[i];
            while m != 0 {
                let k = m.trailing_zeros() as usize;
                m &= m - 1;
                let b = x.base[x.th[k] as usize];
                if x.ev[k].cd >> (i - b) & 1 == 1 {
                    r[i] |= x.po[k];
                }
            }
        }
        r
    };
    match m {
        Model::Tso => {
            let locked = x.set(|e| e.amo);
            let mut p = z.clone();
            for i in 0..n {
                let pure_w = x.w >> i & 1 == 1 && x.r >> i & 1 == 0;
                p[i] = x.po[i] & mem & if pure_w { !(x.r & !x.w) | locked } else { !0 };
                if x.f >> i & 1 == 1 {
                    p[i] = 0;
                }
                if x.ev[i].flags & F_RO != 0 {
                    p[i] &= !(x.r & !x.w);
                }
            }
            let p = ors(&[&p, &x.around(full, mem, mem), &rng(&dom(&x.po, locked), mem), &rng(&dom(&x.po, mem), locked)]);
            fx.ppo = p;
        }
        Model::A64 => {
            let a = x.set(|e| e.rd && e.flags & F_A != 0);
            let q = x.set(|e| e.rd && e.flags & F_Q != 0);
            let l = x.set(|e| e.wr && e.flags & F_L != 0);
            let amo = rng(&dom(&x.rmw, a & x.set(|e| e.amo)), l);
            let mut v = x.around(full, mem, mem);
            v = or(&v, &x.around(fk(asm::FK_LD), x.r, mem));
            v = or(&v, &x.around(fk(asm::FK_ST), x.w, x.w));
            v = or(&v, &rng(&dom(&x.po, a | q), mem));
            v = or(&v, &dom(&rng(&x.po, l), mem));
            v = or(&v, &rng(&dom(&x.po, l), a));
            v = or(&v, &seq(&seq(&x.po, &amo), &x.po));
            let adpo = seq(&fx.addr, &x.po);
            v = ors(&[&v, &fx.addr, &fx.data, &rng(&fx.ctrl, x.w), &rng(&adpo, x.w), &x.rmw]);
            v = or(&v, &rng(&isync, x.r));
            // addr;po;[isb];po;[R]
            let isb = fk(asm::FK_ISYNC);
            v = or(&v, &rng(&seq(&rng(&adpo, isb), &x.po), x.r));
            fx.ppo = v;
        }
        Model::Rv => {
            let aq = x.set(|e| e.flags & F_A != 0);
            let rl = x.set(|e| e.flags & F_L != 0);
            let mut v = x.around(full, mem, mem);
            for (i, e) in x.ev.iter().enumerate() {
                if e.fence & asm::FK_PS != 0 {
                    let (p, s) = (e.fence >> 4 & 15, e.fence & 15);
                    let set = |k: u32| (if k & 1 != 0 { x.r } else { 0 }) | if k & 2 != 0 { x.w } else { 0 };
                    v = or(&v, &x.around(1 << i, set(p), set(s)));
                }
            }
            let tso = fk(asm::FK_LW);
            v = ors(&[&v, &x.around(tso, x.r, mem), &x.around(tso, x.w, x.w)]);
            v = ors(&[
                &v,
                &rng(&x.poloc, x.w),
                &rng(&dom(&x.po, aq), mem),
                &dom(&rng(&x.po, rl), mem),
                &dom(&rng(&x.po, aq | rl), aq | rl),
                &x.rmw,
                &fx.addr,
                &fx.data,
                &rng(&fx.ctrl, x.w),
                &rng(&seq(&fx.addr, &x.po), x.w),
            ]);
            fx.ppo = v;
        }
        Model::Ppc => {
            fx.sync = x.around(full, mem, mem);
            let lw = x.around(fk(asm::FK_LW), mem, mem);
            let mut o = z.clone();
            for i in 0..n {
                o[i] = lw[i] & if x.w >> i & 1 == 1 { !x.r } else { !0 };
            }
            fx.lw = o;
            fx.ctrlfence = rng(&isync, mem);
        }
        Model::Rc11 => {}
    }
    fx
}
fn consistent(m: Model, x: &Exec, fx: &Fixed, rf: &Rel, co: &Rel, fr: &Rel) -> bool {
    let com = ors(&[rf, co, fr]);
    // coherence of each location
    if !acyclic(&or(&x.poloc, &com)) {
        return false;
    }
    // atomicity of conditional stores
    let between = seq(&x.ext(fr), &x.ext(co));
    if x.rmw.iter().zip(&between).any(|(a, b)| a & b != 0) {
        return false;
    }
    match m {
        Model::Tso => acyclic(&ors(&[&fx.ppo, &x.ext(rf), co, fr])),
        Model::A64 => {
            let rfi = x.inn(rf);
            let obs = ors(&[&x.ext(rf), &x.ext(co), &x.ext(fr)]);
            let dob = seq(&or(&fx.addr, &fx.data), &rfi);
            // a conditional or atomic store forwarded to an acquiring load
            let aq = x.set(|e| e.rd && e.flags & (F_A | F_Q) != 0);
            let wex = x.rmw.iter().fold(0, |a, b| a | b);
            let aob = rng(&dom(&rfi, wex), aq);
            acyclic(&ors(&[&fx.ppo, &obs, &dob, &aob]))
        }
        Model::Rv => {
            let rfi = x.inn(rf);
            let amow = x.set(|e| e.wr && (e.amo || e.pair != 255));
            // reads of one location by different writes, without a local write in between
            let mut rr = vec![0u64; x.ev.len()];
            for i in 0..x.ev.len() {
                if x.r >> i & 1 == 0 {
                    continue;
                }
                let mut s = x.poloc[i] & x.r;
                while s != 0 {
                    let j = s.trailing_zeros() as usize;
                    s &= s - 1;
                    let mid = x.poloc[i] & x.w & inv_row(&x.poloc, j);
                    let same = rf.iter().any(|r| r >> i & 1 == 1 && r >> j & 1 == 1) || (!rf.iter().any(|r| r >> i & 1 == 1) && !rf.iter().any(|r| r >> j & 1 == 1));
                    if mid == 0 && !same {
                        rr[i] |= 1 << j;
                    }
                }
            }
            let fwd = rng(&dom(&rfi, amow), x.r);
            let r12 = seq(&or(&fx.addr, &fx.data), &rfi);
            acyclic(&ors(&[&fx.ppo, &rr, &fwd, &r12, &x.ext(rf), co, fr]))
        }
        Model::Ppc => {
            let (rfe, rfi, coe, fre) = (x.ext(rf), x.inn(rf), x.ext(co), x.ext(fr));
            let dp = or(&fx.addr, &fx.data);
            let meet = |a: &Rel, b: &Rel| -> Rel { a.iter().zip(b).map(|(p, q)| p & q).collect() };
            let rdw = meet(&x.poloc, &seq(&fre, &rfe));
            let detour = meet(&x.poloc, &seq(&coe, &rfe));
            let ii0 = ors(&[&dp, &rdw, &rfi]);
            let ci0 = or(&fx.ctrlfence, &detour);
            let cc0 = ors(&[&dp, &x.poloc, &fx.ctrl, &seq(&fx.addr, &x.po)]);
            let (mut ii, mut ic, mut ci, mut cc) = (ii0.clone(), vec![0u64; x.ev.len()], ci0.clone(), cc0.clone());
            loop {
                let nii = ors(&[&ii0, &ci, &seq(&ic, &ci), &seq(&ii, &ii)]);
                let nic = ors(&[&ii, &cc, &seq(&ic, &cc), &seq(&ii, &ic)]);
                let nci = ors(&[&ci0, &seq(&ci, &ii), &seq(&cc, &ci)]);
                let ncc = ors(&[&cc0, &ci, &seq(&ci, &ic), &seq(&cc, &cc)]);
                if nii == ii && nic == ic && nci == ci && ncc == cc {
                    break;
                }
                (ii, ic, ci, cc) = (or(&ii, &nii), or(&ic, &nic), or(&ci, &nci), or(&cc, &ncc));
            }
            let mem = x.r | x.w;
            let ppo = rng(&dom(&or(&rng(&ii, x.r), &rng(&ic, x.w)), x.r), mem);
            let fences = or(&fx.sync, &fx.lw);
            let hb = ors(&[&ppo, &fences, &rfe]);
            if !acyclic(&hb) {
                return false;
            }
            let hbs = star(&hb);
            let pb = seq(&or(&fences, &seq(&rfe, &fences)), &hbs);
            let coms = star(&com);
            let prop = or(&rng(&dom(&pb, x.w), x.w), &seq(&seq(&seq(&coms, &star(&pb)), &fx.sync), &hbs));
            acyclic(&or(co, &prop)) && irreflexive(&seq(&seq(&fre, &prop), &hbs))
        }
        Model::Rc11 => {
            let is_rel = |o: Ord_| matches!(o, Ord_::Rel | Ord_::AcqRel | Ord_::Sc);
            let is_acq = |o: Ord_| matches!(o, Ord_::Acq | Ord_::AcqRel | Ord_::Sc);
            let relw = x.set(|e| e.wr && is_rel(e.ord));
            let relf = x.set(|e| e.fence != 0 && is_rel(e.ord));
            let acqr = x.set(|e| e.rd && is_acq(e.ord));
            let acqf = x.set(|e| e.fence != 0 && is_acq(e.ord));
            let atomic = x.set(|e| e.loc != NOLOC && e.ord != Ord_::Na);
            // release sequence: the write and the chain of read-modify-writes reading from it
            let rmws = x.r & x.w;
            let rs = star(&rng(rf, rmws));
            let rsw = dom(&rs, x.w & atomic);
            let relpart = or(&dom(&rsw, relw), &seq(&rng(&dom(&x.po, relf), x.w), &rsw));
            let rd = seq(&relpart, &rng(rf, atomic & x.r));
            let sw = or(&rng(&rd, acqr), &rng(&seq(&rd, &x.po), acqf));
            let hb = plus(&or(&x.po, &sw));
            if !irreflexive(&hb) {
                return false;
            }
            let eco = plus(&com);
            if !irreflexive(&seq(&hb, &eco)) {
                return false;
            }
            let esc = x.set(|e| e.loc != NOLOC && e.ord == Ord_::Sc);
            let fsc = x.set(|e| e.fence != 0 && e.ord == Ord_::Sc);
            if esc | fsc == 0 {
                return true;
            }
            let mut same = vec![0u64; x.ev.len()];
            for i in 0..x.ev.len() {
                for j in 0..x.ev.len() {
                    if x.ev[i].loc != NOLOC && x.ev[i].loc == x.ev[j].loc {
                        same[i] |= 1 << j;
                    }
                }
            }
            let ponl: Rel = x.po.iter().zip(&same).map(|(a, b)| a & !b).collect();
            let hbl: Rel = hb.iter().zip(&same).map(|(a, b)| a & b).collect();
            let scb = ors(&[&x.po, &seq(&seq(&ponl, &hb), &ponl), &hbl, co, fr]);
            let n = x.ev.len();
            let id = |m: u64| -> Rel { (0..n).map(|i| m & 1 << i).collect() };
            let left = or(&id(esc), &dom(&opt(&hb), fsc));
            let right = or(&id(esc), &rng(&opt(&hb), fsc));
            let psc = or(&seq(&seq(&left, &scb), &right), &rng(&dom(&or(&hb, &seq(&seq(&hb, &eco), &hb)), fsc), fsc));
            acyclic(&psc)
        }
    }
}
fn inv_row(r: &Rel, j: usize) -> u64 {
    r.iter().enumerate().fold(0, |m, (i, x)| if x >> j & 1 == 1 { m | 1 << i } else { m })
}

#[derive(Default)]
pub struct Stats {
    pub candidates: u64,
    pub consistent: u64,
    pub tuples: u64,
    pub timed: bool,
}
/// All outcomes of the given traces under a model. `stop` is told every outcome with a description; true ends the search.
fn outcomes(m: Model, s: &Scen, be: bool, tr: &[Vec<Trace>], st: &mut Stats, f: &mut dyn FnMut(&(Vec<Vec<Res>>, Vec<u128>), &dyn Fn() -> Vec<String>) -> bool) -> Result<(), String> {
    let n = tr.len();
    let mut pick = vec![0usize; n];
    if tr.iter().any(|t| t.is_empty()) {
        return Ok(());
    }
    let sizes: Vec<u32> = s.objs.iter().map(|o| o.e.bits / 8).collect();
    // writes of each trace, for a quick check of availability
    let wr: Vec<Vec<Vec<(u8, u128)>>> = tr.iter().map(|ts| ts.iter().map(|t| t.evs.iter().filter(|e| e.wr).map(|e| (e.loc, e.wv)).collect()).collect()).collect();
    let mut seen: Outs = BTreeSet::new();
    let limit = 30_000_000;
    // what each trace can be read for: a bit per (object, value); values needed are checked as soon as they can be
    let mut ids: HashMap<(u8, u8, u8, u128), usize> = HashMap::new();
    let mut needs: Vec<Vec<Vec<usize>>> = vec![];
    for ts in tr {
        let mut v = vec![];
        for t in ts {
            let mut x: Vec<usize> = t
                .evs
                .iter()
                .filter(|e| e.rd && part(s.objs[e.loc as usize].init, sizes[e.loc as usize], e.lo as u32, e.n as u32, be) != e.rv)
                .map(|e| {
                    let k = ids.len();
                    *ids.entry((e.loc, e.lo, e.n, e.rv)).or_insert(k)
                })
                .collect();
            x.sort();
            x.dedup();
            v.push(x);
        }
        needs.push(v);
    }
    let nb = ids.len().div_ceil(64).max(1);
    let bits = |v: &[(u8, u128)]| -> Vec<u64> {
        let mut b = vec![0u64; nb];
        for (k, i) in &ids {
            if v.iter().any(|w| w.0 == k.0 && part(w.1, sizes[k.0 as usize], k.1 as u32, k.2 as u32, be) == k.3) {
                b[i / 64] |= 1 << (i % 64);
            }
        }
        b
    };
    let gives: Vec<Vec<Vec<u64>>> = wr.iter().map(|ts| ts.iter().map(|w| bits(w)).collect()).collect();
    let need: Vec<Vec<Vec<u64>>> = needs
        .iter()
        .map(|ts| {
            ts.iter()
                .map(|x| {
                    let mut b = vec![0u64; nb];
                    for i in x {
                        b[i / 64] |= 1 << (i % 64);
                    }
                    b
                })
                .collect()
        })
        .collect();
    // what the threads not yet chosen could give
    let mut rest = vec![vec![0u64; nb]; n + 1];
    for t in (0..n).rev() {
        for k in 0..nb {
            rest[t][k] = rest[t + 1][k] | gives[t].iter().fold(0, |a, g| a | g[k]);
        }
    }
    // a value can be replaced (read and overwritten in one step) no more often than it is produced
    let mut cid: HashMap<(u8, u128), usize> = HashMap::new();
    let excl = |t: &Trace, i: usize| -> bool {
        let e = &t.evs[i];
        e.rd && (e.wr || t.evs.iter().any(|f| f.pair as usize == i)) && e.n as u32 == sizes[e.loc as usize]
    };
    for t in tr.iter().flatten() {
        for (i, e) in t.evs.iter().enumerate() {
            if excl(t, i) {
                let k = cid.len();
                cid.entry((e.loc, e.rv)).or_insert(k);
            }
        }
    }
    let nc = cid.len();
    // produced minus consumed
    let bal: Vec<Vec<Vec<i8>>> = tr
        .iter()
        .map(|ts| {
            ts.iter()
                .map(|t| {
                    let mut b = vec![0i8; nc];
                    for (i, e) in t.evs.iter().enumerate() {
                        if e.wr {
                            if let Some(k) = cid.get(&(e.loc, e.wv)) {
                                b[*k] += 1;
                            }
                        }
                        if excl(t, i) {
                            b[cid[&(e.loc, e.rv)]] -= 1;
                        }
                    }
                    b
                })
                .collect()
        })
        .collect();
    let mut most = vec![vec![0i8; nc]; n + 1];
    for t in (0..n).rev() {
        for k in 0..nc {
            most[t][k] = most[t + 1][k] + bal[t].iter().map(|b| b[k]).max().unwrap_or(0);
        }
    }
    let mut have = vec![vec![0i8; nc]; n + 1];
    for ((l, v), k) in &cid {
        have[0][*k] = (s.objs[*l as usize].init == *v) as i8;
    }
    let mut acc: Vec<(Vec<u64>, Vec<u64>)> = vec![(vec![0; nb], vec![0; nb]); n + 1];
    let mut t = 0;
    pick[0] = 0;
    loop {
        if late() {
            return Err(TIME.into());
        }
        if pick[t] == tr[t].len() {
            if t == 0 {
                return Ok(());
            }
            t -= 1;
            pick[t] += 1;
            continue;
        }
        let mut ok = true;
        for k in 0..nb {
            let g = acc[t].0[k] | gives[t][pick[t]][k];
            let d = acc[t].1[k] | need[t][pick[t]][k];
            acc[t + 1].0[k] = g;
            acc[t + 1].1[k] = d;
            ok &= d & !(g | rest[t + 1][k]) == 0;
        }
        for k in 0..nc {
            let h = have[t][k] + bal[t][pick[t]][k];
            have[t + 1][k] = h;
            ok &= h + most[t + 1][k] >= 0;
        }
        if !ok {
            pick[t] += 1;
            continue;
        }
        if t + 1 < n {
            t += 1;
            pick[t] = 0;
            continue;
        }
        st.tuples += 1;
        if st.tuples > limit {
            return Err("too many combinations of traces".into());
        }
        let sel: Vec<&Trace> = (0..n).map(|t| &tr[t][pick[t]]).collect();
        let Some(x) = Exec::new(&sel) else { return Err("more than 64 events".into()) };
        let fx = fixed(m, &x);
        let mut c = Cand { m, s, x: &x, fx: &fx, be, sizes: &sizes, src: vec![None; x.ev.len()], st, seen: &mut seen, f, sel: &sel, stop: false };
        c.reads(0);
        if c.stop {
            return if st.timed { Err(TIME.into()) } else { Ok(()) };
        }
        pick[t] += 1;
    }
}
struct Cand<'a, 'b> {
    m: Model,
    s: &'a Scen,
    x: &'a Exec<'a>,
    fx: &'a Fixed,
    be: bool,
    sizes: &'a [u32],
    /// source of each read: None not chosen, Some(None) initial value
    src: Vec<Option<Option<usize>>>,
    st: &'b mut Stats,
    seen: &'b mut Outs,
    f: &'b mut dyn FnMut(&(Vec<Vec<Res>>, Vec<u128>), &dyn Fn() -> Vec<String>) -> bool,
    sel: &'a [&'a Trace],
    stop: bool,
}
impl<'a, 'b> Cand<'a, 'b> {
    fn reads(&mut self, i: usize) {
        if late() {
            self.st.timed = true;
            self.stop = true;
        }
        if self.stop {
            return;
        }
        let x = self.x;
        if i == x.ev.len() {
            return self.orders();
        }
        let e = x.ev[i];
        if !e.rd {
            return self.reads(i + 1);
        }
        let z = self.sizes[e.loc as usize];
        let be = self.be;
        let fits = |v: u128| part(v, z, e.lo as u32, e.n as u32, be) == e.rv;
        // the paired store, if any, or the event itself, takes its source exclusively
        let excl = e.wr || x.rmw[i] != 0;
        let taken = |s: &Self, c: Option<usize>| excl && (0..i).any(|j| s.x.ev[j].rd && s.x.ev[j].loc == e.loc && (s.x.ev[j].wr || s.x.rmw[j] != 0) && s.src[j] == Some(c));
        let own_before = (0..i).rev().find(|j| x.poloc[*j] >> i & 1 == 1 && x.ev[*j].wr);
        if own_before.is_none() && fits(self.s.objs[e.loc as usize].init) && !taken(self, None) {
            self.src[i] = Some(None);
            self.reads(i + 1);
            self.src[i] = None;
        }
        for j in 0..x.ev.len() {
            let w = x.ev[j];
            if j == i || !w.wr || w.loc != e.loc || !fits(w.wv) || x.poloc[i] >> j & 1 == 1 {
                continue;
            }
            if x.th[j] == x.th[i] && own_before != Some(j) {
                continue;
            }
            if taken(self, Some(j)) {
                continue;
            }
            self.src[i] = Some(Some(j));
            self.reads(i + 1);
            self.src[i] = None;
        }
    }
    fn orders(&mut self) {
        let x = self.x;
        // chains of read-modify-writes keep together
        let nl = self.s.objs.len();
        let mut per: Vec<Vec<Vec<usize>>> = vec![];
        for l in 0..nl {
            let ws: Vec<usize> = (0..x.ev.len()).filter(|i| x.ev[*i].wr && x.ev[*i].loc as usize == l).collect();
            let from = |w: usize| -> Option<Option<usize>> {
                if x.ev[w].rd {
                    self.src[w]
                } else if x.ev[w].pair != 255 {
                    self.src[x.base[x.th[w] as usize] + x.ev[w].pair as usize]
                } else {
                    None
                }
            };
            let mut next: HashMap<Option<usize>, usize> = HashMap::new();
            for w in &ws {
                if let Some(s) = from(*w) {
                    if next.insert(s, *w).is_some() {
                        return;
                    }
                }
            }
            let chain = |start: Option<usize>| -> Vec<usize> {
                let mut v: Vec<usize> = start.into_iter().collect();
                let mut c = start;
                while let Some(n) = next.get(&c) {
                    v.push(*n);
                    if v.len() > ws.len() {
                        break;
                    }
                    c = Some(*n);
                }
                v
            };
            let head = chain(None);
            let rest: Vec<Vec<usize>> = ws.iter().filter(|w| from(**w).is_none()).map(|w| chain(Some(*w))).collect();
            if head.len() + rest.iter().map(|c| c.len()).sum::<usize>() != ws.len() {
                return;
            }
            let mut all = vec![];
            perms(&rest, &mut vec![false; rest.len()], &mut head.clone(), &mut |o: &[usize]| {
                for (i, a) in o.iter().enumerate() {
                    for b in &o[i + 1..] {
                        if x.poloc[*b] >> *a & 1 == 1 {
                            return;
                        }
                    }
                }
                all.push(o.to_vec());
            });
            if all.is_empty() {
                return;
            }
            per.push(all);
        }
        let n = x.ev.len();
        let mut rf = vec![0u64; n];
        for i in 0..n {
            if let Some(Some(j)) = self.src[i] {
                rf[j] |= 1 << i;
            }
        }
        let mut pick = vec![0usize; nl];
        loop {
            let mut co = vec![0u64; n];
            let mut fin = vec![];
            for l in 0..nl {
                let o = &per[l][pick[l]];
                for (i, a) in o.iter().enumerate() {
                    for b in &o[i + 1..] {
                        co[*a] |= 1 << *b;
                    }
                }
                fin.push(o.last().map(|w| x.ev[*w].wv).unwrap_or(self.s.objs[l].init));
            }
            let key = (self.sel.iter().map(|t| t.res.clone()).collect::<Vec<_>>(), fin);
            if !self.seen.contains(&key) {
                self.st.candidates += 1;
                let mut fr = vec![0u64; n];
                for i in 0..n {
                    if let Some(s) = self.src[i] {
                        fr[i] = match s {
                            Some(j) => co[j],
                            None => x.set(|e| e.wr && e.loc == x.ev[i].loc),
                        } & !(1 << i);
                    }
                }
                if consistent(self.m, x, self.fx, &rf, &co, &fr) {
                    self.st.consistent += 1;
                    self.seen.insert(key.clone());
                    let src = self.src.clone();
                    let m = self.m;
                    let show = || -> Vec<String> {
                        let mut v = vec![format!("memory model: {m:?}")];
                        for i in 0..n {
                            let e = x.ev[i];
                            let k = if e.fence != 0 {
                                format!("fence {:#x} {:?}", e.fence, e.ord)
                            } else {
                                format!(
                                    "{}{} object {} bytes {}..{}{}{} flags {}{}{} {:?}",
                                    if e.rd { "R" } else { "" },
                                    if e.wr { "W" } else { "" },
                                    e.loc,
                                    e.lo,
                                    e.lo + e.n,
                                    if e.rd { format!(" reads {:#x} from {}", e.rv, match src[i] { Some(Some(j)) => format!("e{j}"), _ => "init".into() }) } else { String::new() },
                                    if e.wr { format!(" writes {:#x}", e.wv) } else { String::new() },
                                    if e.flags & F_A != 0 { "A" } else { "" },
                                    if e.flags & F_Q != 0 { "Q" } else { "" },
                                    if e.flags & F_L != 0 { "L" } else { "" },
                                    e.ord
                                )
                            };
                            v.push(format!("T{} e{i}: {k}", x.th[i]));
                        }
                        for l in 0..nl {
                            v.push(format!("write order of object {l}: {:?}", per[l][pick[l]]));
                        }
                        v
                    };
                    if (self.f)(&key, &show) {
                        self.stop = true;
                        return;
                    }
                }
            }
            let mut l = 0;
            while l < nl {
                pick[l] += 1;
                if pick[l] < per[l].len() {
                    break;
                }
                pick[l] = 0;
                l += 1;
            }
            if l == nl {
                return;
            }
        }
    }
}
fn perms(rest: &[Vec<usize>], used: &mut Vec<bool>, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
    if used.iter().all(|u| *u) {
        return f(cur);
    }
    for i in 0..rest.len() {
        if !used[i] {
            used[i] = true;
            let k = cur.len();
            cur.extend(&rest[i]);
            perms(rest, used, cur, f);
            cur.truncate(k);
            used[i] = false;
        }
    }
}

/// Outcomes the language allows for the program of calls.
pub fn allowed(s: &Scen, st: &mut Stats) -> Result<Outs, String> {
    let dom = domains(s)?;
    let tr = abstract_traces(s, &dom)?;
    let mut out = BTreeSet::new();
    outcomes(Model::Rc11, s, false, &tr, st, &mut |k, _| {
        out.insert(k.clone());
        false
    })?;
    Ok(out)
}
pub fn show(k: &(Vec<Vec<Res>>, Vec<u128>)) -> String {
    let t: Vec<String> = k
        .0
        .iter()
        .enumerate()
        .map(|(i, r)| format!("T{i}: {}", r.iter().map(|x| match x.val { Some(v) => format!("{v:#x}{}", if x.flag == 0 { " (Err)" } else { "" }), None => format!("{}", x.flag) }).collect::<Vec<_>>().join(", ")))
        .collect();
    format!("{}; finally {:x?}", t.join(" | "), k.1)
}

pub fn explore_axiomatic(w: &World, s: &Scen) -> Outcome {
    let mut out = Outcome::default();
    let mut st = Stats::default();
    let inc = |out: &mut Outcome, m: String| out.inconclusive = Some(m);
    let dom = match domains(s) {
        Ok(d) => d,
        Err(e) => {
            inc(&mut out, e);
            return out;
        }
    };
    let ok = match allowed(s, &mut st) {
        Ok(d) => d,
        Err(e) => {
            inc(&mut out, e);
            return out;
        }
    };
    // warm up what the crate caches
    let mut warm = BTreeMap::new();
    let acts: Vec<Act> = s.threads.iter().flatten().cloned().collect();
    // each call on its own, on all contents, so that every path is taken
    let cold = w.cold();
    for a in &acts {
        let Act::Op(i) = a else { continue };
        for v in if i.e.t == T::None { &[0][..] } else { &dom[i.obj][..] } {
            let mut objs = s.objs.clone();
            objs[i.obj].init = *v;
            match run_seq(&cold, &objs, &s.init, std::slice::from_ref(a)) {
                Ok(o) => {
                    for (a, b) in o.mem {
                        if a >= w.prog.gbase && a < w.prog.gend {
                            warm.insert(a, b);
                        }
                    }
                }
                Err((_, m)) => {
                    inc(&mut out, format!("warming up: {m}"));
                    return out;
                }
            }
            if warm.is_empty() && objs.len() > 2 {
                break;
            }
        }
    }
    let mut writers = vec![vec![0u32; s.threads.len()]; s.objs.len()];
    for (u, acts) in s.threads.iter().enumerate() {
        for a in acts {
            if let Act::Op(o) = a {
                if o.e.t != T::None && o.e.op != "load" {
                    for t in 0..s.threads.len() {
                        if t != u {
                            writers[o.obj][t] += 1;
                        }
                    }
                }
            }
        }
    }
    let lse = w.cpu.has("lse");
    let mut cx = Cx { w, s, dom, warm, model: Model::Rc11, lse, writers, saw_asm: false, ntraces: 0, max_fail: if s.threads.len() <= 2 { 1 } else { 0 }, vals: HashMap::new() };
    let arch_model = match w.arch {
        Arch::X86 | Arch::X64 | Arch::S390x => Model::Tso,
        Arch::A64 => Model::A64,
        Arch::Rv32 | Arch::Rv64 => Model::Rv,
        Arch::Ppc64 => Model::Ppc,
        _ => Model::Rc11,
    };
    let fail = |out: &mut Outcome, b: Bad| match b {
        Bad::V(k, m) => out.violation = Some(Violation { why: k, msg: m, trace: vec![] }),
        Bad::Inc(m) => out.inconclusive = Some(m),
    };
    let mut tr = match cx.traces() {
        Ok(t) => t,
        Err(b) => {
            fail(&mut out, b);
            return out;
        }
    };
    if cx.saw_asm && arch_model != Model::Rc11 {
        cx.model = arch_model;
        tr = match cx.traces() {
            Ok(t) => t,
            Err(b) => {
                fail(&mut out, b);
                return out;
            }
        };
    }
    let m = cx.model;
    let sizes: Vec<u32> = s.objs.iter().map(|o| o.e.bits / 8).collect();
    let be = w.prog.layout.big_endian;
    let mut seen = 0u64;
    let mut bad = None;
    let few: Vec<Vec<Trace>> = tr.iter().map(|ts| minimal(ts.iter().map(|t| strip(t, &sizes)).collect())).collect();
    let mut judge = |tr: &[Vec<Trace>], st: &mut Stats| {
        bad = None;
        seen = 0;
        let r = outcomes(m, s, be, tr, st, &mut |k, sh| {
            seen += 1;
            if !ok.contains(k) {
                bad = Some(Violation { why: "memory-order".into(), msg: format!("outcome [{}] is not allowed by the language memory model", show(k)), trace: sh() });
                return true;
            }
            false
        });
        (r, bad.clone())
    };
    let (mut r, mut bad) = judge(&few, &mut st);
    if r.is_err() || bad.is_some() {
        // with all events
        let all: Vec<Vec<Trace>> = tr.into_iter().map(minimal).collect();
        (r, bad) = judge(&all, &mut st);
    }
    if let Err(e) = r {
        out.inconclusive = Some(e);
    }
    out.violation = bad;
    out.states = st.candidates;
    out.transitions = st.tuples;
    out.final_states = seen;
    if out.violation.is_none() && out.inconclusive.is_none() && seen == 0 {
        out.inconclusive = Some("no complete execution".into());
    }
    out
}
