//! Operations without interference: every operation, ordering and boundary value on every build, against the
//! reference functions in spec.rs.
use crate::asm::CpuModel;
use crate::cfgs::*;
use crate::check::*;
use crate::interp::Why;
use crate::ir::mask;
use crate::plan::*;
use crate::sc::*;
use crate::scen::{fval, G};
use crate::spec::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

pub fn alphabet(e: &Entry, thorough: bool) -> Vec<u128> {
    let w = e.bits;
    let m = |v: u128| mask(v, w);
    let h = w / 2;
    match e.t {
        T::Bool => vec![0, 1],
        T::None => vec![0],
        T::Float(_) => float_alphabet(w),
        _ => {
            let mut v = vec![
                0,
                1,
                m(!0),
                1u128 << (w - 1),
                m(!0) >> 1,
                m((1u128 << h) - 1),
                m(1u128 << h),
                m(0x1122_3344_5566_7788_99AA_BBCC_DDEE_FF01),
                m(!0x1122_3344_5566_7788_99AA_BBCC_DDEE_FF01u128),
            ];
            if thorough {
                v.extend([
                    2,
                    m(!1),
                    m((1u128 << (w - 1)) + 1),
                    m(!((1u128 << h) - 1)),
                    m((1u128 << (h + 1)) + 1),
                    m(0x8000_0000_8000_0000_8000_0000_8000_0000),
                    m(0x7FFF_FFFF_FFFF_FFFF_0000_0000_0000_0000),
                    m(0x0000_0000_0000_0001_8000_0000_0000_0000),
                    m(0xAAAA_AAAA_AAAA_AAAA_5555_5555_5555_5555),
                    3,
                    m(100),
                ]);
            }
            v.sort();
            v.dedup();
            v
        }
    }
}
pub fn float_alphabet(w: u32) -> Vec<u128> {
    let s = 1u128 << (w - 1);
    let man = match w {
        16 => 10,
        32 => 23,
        64 => 52,
        _ => 112,
    };
    let exp = ((1u128 << (w - 1 - man)) - 1) << man;
    vec![
        0,
        s,
        fval(w, 1.0),
        fval(w, -1.5),
        fval(w, 2.5),
        exp,
        s | exp,
        exp | 1 << (man - 1) | 5,     // quiet NaN with payload
        s | exp | 1 << (man - 1) | 1, // negative quiet NaN
        1,                            // smallest subnormal
        s | ((1 << man) - 1),         // largest subnormal, negative
        exp - 1,                      // largest finite
        s | (exp - 1),
        1 << man, // smallest normal
        fval(w, 1.0) + 1,
    ]
}
fn is_nan(w: u32, v: u128) -> bool {
    let man = match w {
        16 => 10,
        32 => 23,
        64 => 52,
        _ => 112,
    };
    let exp = ((1u128 << (w - 1 - man)) - 1) << man;
    mask(v, w - 1) > exp
}
/// Is `got` an acceptable arithmetic result where the reference computes `want`?
pub fn same(e: &Entry, want: u128, got: u128) -> bool {
    if want == got {
        return true;
    }
    if let T::Float(w) = e.t {
        let o = e.op.trim_start_matches("fetch_");
        if matches!(o, "add" | "sub" | "update") && is_nan(w, want) && is_nan(w, got) {
            return true;
        }
        if matches!(o, "max" | "min") && (is_nan(w, want) && is_nan(w, got) || mask(want, w - 1) == 0 && mask(got, w - 1) == 0) {
            return true;
        }
    }
    false
}
/// One call; Err is a mismatch.
pub fn one(l: &Loaded, e: &Entry, x: u128, a: u128, b: u128, o: (u32, u32)) -> Result<u64, (Why, String)> {
    let g = G::new(l);
    let objs = [g.obj(e, g.addr(), x)];
    let r = run_seq(&l.world, &objs, &[], &[g.op(e, 0, (a, b), o)])?;
    let (flag, v, v2) = *r.res.first().ok_or((Why::Unsupported, "no result".to_string()))?;
    let got = observed(e, flag, v, v2);
    let n = (e.bits / 8) as u64;
    let bytes: Vec<u8> = (0..n).map(|i| r.mem.get(&(g.addr() + i)).copied().unwrap_or(l.world.bytes(x, n as u32)[i as usize])).collect();
    let left = l.world.value(&bytes);
    let want = spec(e, x, a, b).map_err(|m| (Why::Unsupported, m))?;
    for (nv, res) in &want {
        if same(e, *nv, left) && res.flag == got.flag && res.val == got.val && res.val2 == got.val2 {
            // a weak compare-exchange that could succeed is not disturbed here; it may still fail
            return Ok(r.steps);
        }
    }
    Err((Why::Ub, format!("on {x:#x} with operands {a:#x}, {b:#x} reports {got:x?} and leaves {left:#x}; documented: {}", want.iter().map(|(n, r)| format!("{r:x?} leaving {n:#x}")).collect::<Vec<_>>().join(" or "))))
}
/// operand pairs to try on contents `x`
pub fn operand_sets(e: &Entry, x: u128, al: &[u128]) -> Vec<(u128, u128)> {
    let w = e.bits;
    match kind(&e.op) {
        Kind::Load => vec![(0, 0)],
        Kind::Cas => {
            let mut v = vec![(x, al[0]), (x, al[al.len() - 1]), (x, x)];
            for y in al.iter().chain([x ^ 1, x ^ (1u128 << (w - 1)), x ^ (1u128 << (w / 2))].iter()) {
                let y = mask(*y, w);
                if e.t == T::Bool && y > 1 {
                    continue;
                }
                v.push((y, al[(y as usize).wrapping_add(3) % al.len()]));
            }
            v
        }
        Kind::Update => al.iter().flat_map(|a| [(*a, x), (*a, if e.t == T::Bool { x ^ 1 } else { mask(x ^ 5, w) })]).collect(),
        _ if e.op.starts_with("bit_") => {
            let mut b: Vec<u32> = vec![0, 1, w / 2 - 1, w / 2, w - 1, w, w + 1, 2 * w - 1, 255];
            b.extend([7, 8, 15, 16, 31, 32]);
            // every bit of one of the values and of its complement
            let mix = mask(0x1122_3344_5566_7788_99AA_BBCC_DDEE_FF01, w);
            if x == mix || x == mask(!mix, w) {
                b.extend(0..w);
            }
            b.sort();
            b.dedup();
            b.into_iter().filter(|i| w >= 32 || *i <= (1u32 << w.min(31)) - 1).map(|i| (i as u128, 0)).collect()
        }
        _ if matches!(e.op.as_str(), "fetch_not" | "not" | "fetch_neg" | "neg" | "fetch_abs") => vec![(0, 0)],
        _ => al.iter().map(|a| (*a, 0)).collect(),
    }
}
pub fn sequential(loaded: &[Loaded], a: &Args, deadline: Instant, tally: &Mutex<Tally>, pick: &(dyn Fn(&Entry) -> bool + Sync), all_orders: bool) {
    // one machine per build and way of handling the widest type, all of them in the thorough tier
    let mut jobs: Vec<(usize, CpuModel, String)> = vec![];
    for (li, l) in loaded.iter().enumerate() {
        let mut seen = vec![];
        for c in (l.cfg.cpus)() {
            let k = (class(l.cfg, &c, 128), class(l.cfg, &c, 64), c.feats.clone());
            if seen.contains(&k) && !a.thorough {
                continue;
            }
            seen.push(k);
            for e in l.entries.values() {
                if pick(e) {
                    jobs.push((li, c.clone(), e.name.clone()));
                }
            }
        }
    }
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(16, SeqCst);
                if k >= jobs.len() {
                    break;
                }
                let mut cur: Option<(usize, String, Loaded)> = None;
                for j in k..(k + 16).min(jobs.len()) {
                    let (li, c, en) = &jobs[j];
                    if Instant::now() > deadline {
                        tally.lock().unwrap().skipped += 1;
                        continue;
                    }
                    if cur.as_ref().map(|x| x.0 != *li || x.1 != c.name).unwrap_or(true) {
                        cur = Some((*li, c.name.clone(), loaded[*li].fork(c)));
                    }
                    let l = &cur.as_ref().unwrap().2;
                    let e = &l.entries[en];
                    let sc_name = format!("sequential {}", e.name);
                    if let Some((u, n)) = &a.only {
                        if *u != l.world.name || *n != sc_name {
                            continue;
                        }
                    }
                    let mut al = alphabet(e, a.thorough);
                    if e.bits == 8 && a.thorough && !matches!(e.t, T::Bool) {
                        al = (0..256).step_by(5).collect();
                    }
                    let ords = orderings(&e.op);
                    let (mut steps, mut cases) = (0, 0);
                    let mut bad = None;
                    let mut inc = None;
                    'x: for (xi, x) in al.iter().enumerate() {
                        for (oi, ab) in operand_sets(e, *x, &al).into_iter().enumerate() {
                            let os: Vec<_> = if all_orders && xi < 2 && oi < 4 { ords.clone() } else { vec![ords[(xi + oi) % ords.len()]] };
                            for o in os {
                                cases += 1;
                                match one(l, e, *x, ab.0, ab.1, o) {
                                    Ok(n) => steps += n,
                                    Err((Why::Unsupported, m)) => {
                                        inc = Some(m);
                                        break 'x;
                                    }
                                    Err((w, m)) => {
                                        bad = Some((w, format!("{} {}/{} {m}", e.name, ord_name(o.0), ord_name(o.1))));
                                        break 'x;
                                    }
                                }
                            }
                        }
                    }
                    let mut t = tally.lock().unwrap();
                    t.scenarios += 1;
                    t.states += steps;
                    t.transitions += steps - cases.min(steps);
                    *t.extra.entry("sequential_cases".into()).or_default() += cases;
                    let p = t.per.entry(l.world.name.clone()).or_default();
                    p.0 += 1;
                    p.1 += steps;
                    if t.samples.len() < 8 && t.scenarios % 371 == 5 {
                        t.samples.push(format!("{}: {sc_name}: {cases} (contents, operands, ordering) cases", l.world.name));
                    }
                    if let Some((w, m)) = bad {
                        let kind = if m.contains("documented") { "result".to_string() } else { format!("{w:?}").to_lowercase() };
                        t.found.push(Found { unit: l.world.name.clone(), scen: sc_name.clone(), why: kind, msg: m, trace: vec![], describe: vec![] });
                    }
                    if let Some(m) = inc {
                        let x = t.inconclusive.entry(m).or_insert((0, format!("{}: {sc_name}", l.world.name)));
                        x.0 += 1;
                    }
                }
            });
        }
    });
    if a.only.is_none() || a.only.as_ref().map(|o| o.0.contains(" on ")).unwrap_or(false) {
        let thorough = a.thorough;
        let cases = |l: &Loaded| native_cases(l, thorough, pick);
        crate::native::on_machines(loaded, &|m| m.quick || thorough, false, &cases, tally);
    }
}
pub fn native_cases(l: &Loaded, thorough: bool, pick: &dyn Fn(&Entry) -> bool) -> Vec<crate::native::Case> {
            let mut v = vec![];
            for e in l.entries.values().filter(|e| pick(e) && kind(&e.op) != Kind::Query) {
                let al = alphabet(e, thorough);
                let ords = orderings(&e.op);
                for (xi, x) in al.iter().enumerate() {
                    for (oi, ab) in operand_sets(e, *x, &al).into_iter().enumerate() {
                        let o = ords[(xi + oi) % ords.len()];
                        let call = crate::native::Call { name: e.name.clone(), a: ab.0, b: ab.1, o1: o.0, o2: o.1 };
                        v.push(crate::native::Case { e: e.clone(), init: *x, calls: vec![call], from: format!("sequential {}", e.name) });
                    }
                }
            }
            v
}
