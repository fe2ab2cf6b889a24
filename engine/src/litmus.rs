//! Small programs that tell memory models apart.
use crate::cfgs::*;
use crate::lin::OpInfo;
use crate::sc::*;
use crate::scen::*;
use crate::spec::*;

/// what a call is there for
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Role {
    W,
    R,
    F,
    /// a read-modify-write that leaves the value as it is
    N,
}
/// how strongly it is ordered
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum S {
    Rlx,
    /// release for writers, acquire for readers
    Half,
    /// acquire-release
    Both,
    Sc,
    /// release fence, acquire fence
    Rel,
    Acq,
}
pub type Slot = (Role, usize, S);
const fn w(o: usize, s: S) -> Slot {
    (Role::W, o, s)
}
const fn r(o: usize, s: S) -> Slot {
    (Role::R, o, s)
}
const fn n(o: usize, s: S) -> Slot {
    (Role::N, o, s)
}
const fn f(s: S) -> Slot {
    (Role::F, 0, s)
}
pub struct Shape {
    pub name: &'static str,
    pub th: &'static [&'static [Slot]],
    pub objs: usize,
}
use S::*;
pub const MP: Shape = Shape { name: "MP", th: &[&[w(0, Rlx), w(1, Half)], &[r(1, Half), r(0, Rlx)]], objs: 2 };
pub const MPB: Shape = Shape { name: "MP acq-rel", th: &[&[w(0, Rlx), w(1, Both)], &[r(1, Both), r(0, Rlx)]], objs: 2 };
pub const MPSC: Shape = Shape { name: "MP seq-cst", th: &[&[w(0, Rlx), w(1, Sc)], &[r(1, Sc), r(0, Rlx)]], objs: 2 };
/// the chain of read-modify-writes carries the release on
pub const MPCHAIN: Shape = Shape { name: "MP chain", th: &[&[w(0, Rlx), w(1, Half)], &[w(1, Rlx)], &[r(1, Half), r(0, Rlx)]], objs: 2 };
pub const ISA2: Shape = Shape { name: "ISA2", th: &[&[w(0, Rlx), w(1, Half)], &[r(1, Half), w(2, Half)], &[r(2, Half), r(0, Rlx)]], objs: 3 };
pub const WRC: Shape = Shape { name: "WRC", th: &[&[w(0, Half)], &[r(0, Half), w(1, Half)], &[r(1, Half), r(0, Rlx)]], objs: 2 };
pub const SS: Shape = Shape { name: "S", th: &[&[w(0, Rlx), w(1, Half)], &[r(1, Half), w(0, Rlx)]], objs: 2 };
pub const LB: Shape = Shape { name: "LB", th: &[&[r(0, Half), w(1, Half)], &[r(1, Half), w(0, Half)]], objs: 2 };
pub const LB1: Shape = Shape { name: "LB one-sided", th: &[&[r(0, Half), w(1, Rlx)], &[r(1, Rlx), w(0, Half)]], objs: 2 };

/// whichever read-modify-write of object 1 comes second has synchronised with the first, although nothing changed
pub const MPN: Shape = Shape { name: "MP no-op", th: &[&[w(0, Rlx), n(1, Half)], &[r(1, Half), r(0, Rlx)]], objs: 2 };
pub const MPNB: Shape = Shape { name: "MP no-op acq-rel", th: &[&[w(0, Rlx), n(1, Both)], &[r(1, Both), r(0, Rlx)]], objs: 2 };
pub const SBN: Shape = Shape { name: "SB no-op", th: &[&[w(0, Rlx), n(1, Sc)], &[r(1, Sc), r(0, Rlx)]], objs: 2 };
pub const CORMWN: Shape = Shape { name: "CoRMW no-op", th: &[&[w(0, Rlx), n(0, Rlx)], &[w(0, Rlx), r(0, Rlx)]], objs: 1 };

pub const SB: Shape = Shape { name: "SB", th: &[&[w(0, Sc), r(1, Sc)], &[w(1, Sc), r(0, Sc)]], objs: 2 };
pub const IRIW: Shape = Shape { name: "IRIW", th: &[&[w(0, Sc)], &[w(1, Sc)], &[r(0, Sc), r(1, Sc)], &[r(1, Sc), r(0, Sc)]], objs: 2 };
pub const RWC: Shape = Shape { name: "RWC", th: &[&[w(0, Sc)], &[r(0, Sc), r(1, Sc)], &[w(1, Sc), r(0, Sc)]], objs: 2 };
pub const WRCSC: Shape = Shape { name: "WRC seq-cst", th: &[&[w(0, Sc)], &[r(0, Sc), w(1, Sc)], &[r(1, Sc), r(0, Sc)]], objs: 2 };
pub const W22: Shape = Shape { name: "2+2W", th: &[&[w(0, Sc), w(1, Sc)], &[w(1, Sc), w(0, Sc)]], objs: 2 };
pub const RR: Shape = Shape { name: "R", th: &[&[w(0, Sc), w(1, Sc)], &[w(1, Sc), r(0, Sc)]], objs: 2 };
pub const MPSCALL: Shape = Shape { name: "MP all seq-cst", th: &[&[w(0, Sc), w(1, Sc)], &[r(1, Sc), r(0, Sc)]], objs: 2 };
pub const WRWC: Shape = Shape { name: "W+RWC", th: &[&[w(0, Rlx), w(2, Half)], &[r(2, Half), r(1, Sc)], &[w(1, Sc), r(0, Sc)]], objs: 3 };
pub const ZSC: Shape = Shape { name: "Z6", th: &[&[w(0, Sc), w(1, Half)], &[r(1, Half), w(2, Sc)], &[w(2, Sc), r(0, Sc)]], objs: 3 };

pub const CORR: Shape = Shape { name: "CoRR", th: &[&[w(0, Rlx)], &[r(0, Rlx), r(0, Rlx)]], objs: 1 };
pub const CORR2: Shape = Shape { name: "CoRR2", th: &[&[w(0, Rlx)], &[w(0, Rlx)], &[r(0, Rlx), r(0, Rlx)], &[r(0, Rlx), r(0, Rlx)]], objs: 1 };
pub const COWR: Shape = Shape { name: "CoWR", th: &[&[w(0, Rlx), r(0, Rlx)], &[w(0, Rlx)]], objs: 1 };
pub const CORW: Shape = Shape { name: "CoRW", th: &[&[r(0, Rlx), w(0, Rlx)], &[w(0, Rlx)]], objs: 1 };
pub const COWW: Shape = Shape { name: "CoWW", th: &[&[w(0, Rlx), w(0, Rlx)], &[r(0, Rlx), r(0, Rlx)]], objs: 1 };
pub const CORMW: Shape = Shape { name: "CoRMW", th: &[&[w(0, Rlx), w(0, Rlx)], &[w(0, Rlx), r(0, Rlx)]], objs: 1 };

pub const F_MP: Shape = Shape { name: "MP fences", th: &[&[w(0, Rlx), f(Rel), w(1, Rlx)], &[r(1, Rlx), f(Acq), r(0, Rlx)]], objs: 2 };
pub const F_MPB: Shape = Shape { name: "MP acq-rel fences", th: &[&[w(0, Rlx), f(Both), w(1, Rlx)], &[r(1, Rlx), f(Both), r(0, Rlx)]], objs: 2 };
pub const F_MPR: Shape = Shape { name: "MP release fence, acquire read", th: &[&[w(0, Rlx), f(Rel), w(1, Rlx)], &[r(1, Half), r(0, Rlx)]], objs: 2 };
pub const F_MPA: Shape = Shape { name: "MP release write, acquire fence", th: &[&[w(0, Rlx), w(1, Half)], &[r(1, Rlx), f(Acq), r(0, Rlx)]], objs: 2 };
pub const F_S: Shape = Shape { name: "S fences", th: &[&[w(0, Rlx), f(Rel), w(1, Rlx)], &[r(1, Rlx), f(Acq), w(0, Rlx)]], objs: 2 };
pub const F_LB: Shape = Shape { name: "LB fences", th: &[&[r(0, Rlx), f(Both), w(1, Rlx)], &[r(1, Rlx), f(Both), w(0, Rlx)]], objs: 2 };
pub const F_LB2: Shape = Shape { name: "LB acquire and release fences", th: &[&[r(0, Rlx), f(Acq), w(1, Rlx)], &[r(1, Rlx), f(Rel), w(0, Rlx)]], objs: 2 };
pub const F_ISA2: Shape = Shape { name: "ISA2 fences", th: &[&[w(0, Rlx), f(Rel), w(1, Rlx)], &[r(1, Rlx), f(Both), w(2, Rlx)], &[r(2, Rlx), f(Acq), r(0, Rlx)]], objs: 3 };
pub const F_WRC: Shape = Shape { name: "WRC fences", th: &[&[w(0, Rlx)], &[r(0, Rlx), f(Both), w(1, Rlx)], &[r(1, Rlx), f(Acq), r(0, Rlx)]], objs: 2 };
pub const F_SB: Shape = Shape { name: "SB fences", th: &[&[w(0, Rlx), f(Sc), r(1, Rlx)], &[w(1, Rlx), f(Sc), r(0, Rlx)]], objs: 2 };
pub const F_IRIW: Shape = Shape { name: "IRIW fences", th: &[&[w(0, Rlx)], &[w(1, Rlx)], &[r(0, Rlx), f(Sc), r(1, Rlx)], &[r(1, Rlx), f(Sc), r(0, Rlx)]], objs: 2 };
pub const F_RWC: Shape = Shape { name: "RWC fences", th: &[&[w(0, Rlx)], &[r(0, Rlx), f(Sc), r(1, Rlx)], &[w(1, Rlx), f(Sc), r(0, Rlx)]], objs: 2 };
pub const F_22W: Shape = Shape { name: "2+2W fences", th: &[&[w(0, Rlx), f(Sc), w(1, Rlx)], &[w(1, Rlx), f(Sc), w(0, Rlx)]], objs: 2 };
pub const F_R: Shape = Shape { name: "R fences", th: &[&[w(0, Rlx), f(Sc), w(1, Rlx)], &[w(1, Rlx), f(Sc), r(0, Rlx)]], objs: 2 };
pub const F_WRWC: Shape = Shape { name: "W+RWC fences", th: &[&[w(0, Rlx), f(Rel), w(2, Rlx)], &[r(2, Rlx), f(Sc), r(1, Rlx)], &[w(1, Rlx), f(Sc), r(0, Rlx)]], objs: 3 };

fn orders(op: &str, role: Role, s: S) -> (u32, u32) {
    match (kind(op), role, s) {
        (Kind::Fence, _, s) => (match s { Rel => 1, Acq => 2, Both => 3, _ => 4 }, 0),
        (_, _, Rlx) => (0, 0),
        (Kind::Load, _, Sc) => (4, 0),
        (Kind::Load, _, _) => (2, 0),
        (Kind::Store, _, Sc) => (4, 0),
        (Kind::Store, _, _) => (1, 0),
        (Kind::Cas | Kind::Update, _, Sc) => (4, 4),
        (Kind::Cas | Kind::Update, _, Both) => (3, 2),
        (Kind::Cas | Kind::Update, Role::W | Role::N, _) => (1, 0),
        // the failure ordering is the stronger one
        (Kind::Cas | Kind::Update, _, _) => (0, 2),
        (_, _, Sc) => (4, 0),
        (_, _, Both) => (3, 0),
        (_, Role::W | Role::N, _) => (1, 0),
        _ => (2, 0),
    }
}
/// One program; `hit` makes compare-exchanges of readers expect the value that is written.
pub fn program(g: &mut G, sh: &Shape, label: &str, set: usize, hit: bool, types: &[&str], pick: &dyn Fn(usize, usize, Slot) -> String) -> bool {
    program_ov(g, sh, label, set, hit, types, pick, None)
}
/// `ov`: the orderings of the compare-exchanges and updates of object 1 in a role
pub fn program_ov(g: &mut G, sh: &Shape, label: &str, set: usize, hit: bool, types: &[&str], pick: &dyn Fn(usize, usize, Slot) -> String, ov: Option<(Role, (u32, u32))>) -> bool {
    let l = g.l;
    let mut objs: Vec<Obj> = vec![];
    for k in 0..sh.objs {
        let Some(e) = l.e(types[k], "load") else { return false };
        objs.push(g.obj(e, g.addr() + 32 * k as u64, init_val(e, set + k)));
    }
    // the values the writers leave behind
    let mut left: Vec<Vec<u128>> = vec![vec![]; sh.objs];
    let mut threads = vec![];
    let mut reads = vec![];
    for (t, th) in sh.th.iter().enumerate() {
        let mut acts = vec![];
        for (k, sl) in th.iter().enumerate() {
            if sl.0 == Role::F {
                let Some(e) = l.entries.get("h_fence") else { return false };
                let o = orders("fence", Role::F, sl.2);
                acts.push(Act::Op(OpInfo { e: e.clone(), obj: 0, a: 0, b: 0, o1: o.0, o2: o.1 }));
                continue;
            }
            let op = pick(t, k, *sl);
            let Some(e) = l.e(types[sl.1], &op) else { return false };
            let init = objs[sl.1].init;
            let mut o = orders(&op, sl.0, sl.2);
            if let (Some((role, x)), Kind::Cas | Kind::Update) = (ov, kind(&op)) {
                if role == sl.0 && sl.1 == 1 {
                    o = x;
                }
            }
            let ab = operands(e, set & !1, t, k, init, None);
            if sl.0 == Role::N {
                let Some(ab) = noop(e, init) else { return false };
                acts.push(g.op(e, sl.1, ab, o));
            } else if sl.0 == Role::W {
                let mut ab = ab;
                if matches!(kind(&op), Kind::Cas) {
                    // succeed on the first value
                    ab.0 = init;
                    if ab.1 == init {
                        ab.1 = init ^ 1;
                    }
                }
                if kind(&op) == Kind::Update && e.t != T::Bool {
                    ab.1 = !init & if e.bits == 128 { !0 } else { (1 << e.bits) - 1 };
                }
                if e.t == T::Bool && alone(e, init, ab.0, ab.1) == init {
                    ab.0 ^= 1;
                    if matches!(kind(&op), Kind::Cas) {
                        ab = (init, init ^ 1);
                    }
                    if alone(e, init, ab.0, ab.1) == init {
                        // cannot change this value
                        return false;
                    }
                }
                left[sl.1].push(alone(e, init, ab.0, ab.1));
                acts.push(g.op(e, sl.1, ab, o));
            } else {
                reads.push((t, acts.len(), sl.1));
                acts.push(g.op(e, sl.1, ab, o));
            }
        }
        threads.push(acts);
    }
    for (t, k, o) in reads {
        if let Act::Op(i) = &mut threads[t][k] {
            if matches!(kind(&i.e.op), Kind::Cas) {
                let v = left[o].first().copied().unwrap_or(objs[o].init);
                i.a = if hit { v } else { objs[o].init };
                if (i.o1, i.o2) == (0, 2) && hit && ov.is_none() {
                    (i.o1, i.o2) = (2, 0);
                }
                if i.b == i.a {
                    i.b = i.a ^ 1;
                }
            }
        }
    }
    let mut name = format!("{} {label}{} v{set}", sh.name, if hit { " hit" } else { "" });
    if let Some((_, o)) = ov {
        name = format!("{name} {}/{}", ord_name(o.0), ord_name(o.1));
    }
    let mut s = g.scen(name, threads, objs);
    s.tail.clear();
    g.out.push(s);
    true
}

/// operands with which an operation leaves `init` as it is
fn noop(e: &Entry, init: u128) -> Option<(u128, u128)> {
    let all = if e.bits == 128 { !0 } else { (1u128 << e.bits) - 1 };
    let mut c = vec![(init, init), (0, 0), (all, 0), (0, init), (0, all)];
    for k in 0..e.bits as u128 {
        c.push((k, 0));
    }
    c.push((all >> 1, 0));
    c.push((all ^ (all >> 1), 0));
    // (compare-exchanges have to succeed)
    c.into_iter().filter(|x| e.t != T::Bool || x.0 <= 1 && x.1 <= 1).find(|x| alone(e, init, x.0, x.1) == init && (kind(&e.op) != Kind::Cas || *x == (init, init)))
}
/// operations of a type that can fill a role
pub fn writers<'a>(ops: &'a [String]) -> Vec<&'a str> {
    ops.iter().map(|s| s.as_str()).filter(|o| !matches!(kind(o), Kind::Load | Kind::Query | Kind::Fence)).collect()
}
pub fn readers<'a>(ops: &'a [String]) -> Vec<&'a str> {
    ops.iter().map(|s| s.as_str()).filter(|o| !matches!(kind(o), Kind::Store | Kind::Query | Kind::Fence)).collect()
}
const W_REP: &[&str] = &["store", "swap", "cas", "casw", "fetch_add", "fetch_update"];
const R_REP: &[&str] = &["load", "swap", "cas", "fetch_add", "fetch_update"];

/// `key` objects have the type under test, the others a plain native one. Every writer against a load, every reader
/// against a store, and representatives against each other.
pub fn family(g: &mut G, sh: &Shape, ty: &str, other: &str, key: &[usize], full: bool, sets: &[usize], few: bool) {
    let ops: Vec<String> = g.l.ops(ty).iter().map(|e| e.op.clone()).collect();
    let types: Vec<&str> = (0..sh.objs).map(|k| if key.contains(&k) { ty } else { other }).collect();
    let mut pairs: Vec<(&str, &str)> = vec![];
    if full {
        for w in writers(&ops) {
            pairs.push((w, "load"));
        }
        for r in readers(&ops) {
            pairs.push(("store", r));
        }
    }
    let has = |o: &str| ops.iter().any(|x| x == o);
    let same = sh.th.iter().any(|t| t.iter().any(|s| s.0 == Role::N));
    if same {
        let rmw = |o: &str| has(o) && !matches!(kind(o), Kind::Store | Kind::Load);
        pairs.clear();
        for w in writers(&ops).into_iter().filter(|o| rmw(o)) {
            for r in ["swap", "cas"] {
                if has(r) && (full && r == "swap" || !few || matches!(w, "fetch_max" | "fetch_or" | "cas")) {
                    pairs.push((w, r));
                }
            }
        }
        for r in readers(&ops).into_iter().filter(|o| rmw(o)) {
            if full && has("fetch_or") {
                pairs.push(("fetch_or", r));
            }
        }
    }
    for w in W_REP.iter().filter(|_| !same) {
        for r in R_REP {
            if has(w) && has(r) && (!few || matches!((*w, *r), ("store" | "swap", "load") | ("store", "swap" | "cas") | ("cas", "cas"))) {
                pairs.push((w, r));
            }
        }
    }
    let mut done = std::collections::BTreeSet::new();
    for (wr, rd) in pairs {
        if sh.objs == 1 && (wr == "fetch_update" || rd == "fetch_update") || sh.th.len() >= 4 && sh.objs == 1 && rd != "load" {
            continue;
        }
        if sh.th.len() >= 4 && (!matches!(rd, "load" | "cas") || wr == "fetch_update") || !done.insert((wr, rd)) {
            continue;
        }
        for s in sets {
            for hit in [false, true] {
                if hit && kind(rd) != Kind::Cas {
                    continue;
                }
                let label = format!("{ty} {wr}/{rd}");
                program(g, sh, &label, *s, hit, &types, &|t, _, sl| {
                    if sh.name == "MP chain" && t == 1 {
                        return if kind(wr) == Kind::Store { "swap".into() } else { wr.into() };
                    }
                    if key.contains(&sl.1) {
                        if sl.0 == Role::W && same {
                            rd.to_string()
                        } else if sl.0 != Role::R {
                            wr.to_string()
                        } else if same && sh.objs == 1 {
                            "load".into()
                        } else {
                            rd.to_string()
                        }
                    } else if sl.0 == Role::W {
                        "store".into()
                    } else {
                        "load".into()
                    }
                });
            }
        }
    }
}

/// Message passing and store buffering through a compare-exchange with every pair of orderings that promises
/// something: the failure ordering may be the stronger one, and neither may take anything from the other.
pub fn mixed(g: &mut G, ty: &str, sc: bool, few: bool) {
    let types = [ty, ty];
    for op in ["cas", "casw", "fetch_update"] {
        if few && op == "fetch_update" {
            continue;
        }
        let sh = if sc { &SB } else { &MP };
        for s in 0..5 {
            for f in [0, 2, 4] {
                // a write that succeeds
                if if sc { s == 4 } else { matches!(s, 1 | 3 | 4) } {
                    program_ov(g, sh, &format!("{ty} {op}/load"), 0, false, &types, &|_, _, sl| if sl.0 == Role::W { if sl.1 == 1 { op.into() } else { "store".into() } } else { "load".into() }, Some((Role::W, (s, f))));
                }
                if op == "fetch_update" {
                    continue;
                }
                for hit in [false, true] {
                    // the outcome that is ruled out takes the path of success in message passing if the new
                    // value is expected, in store buffering if the old one is
                    let strong = if hit != sc { s } else { f };
                    if if sc { strong == 4 } else { strong >= 2 } {
                        program_ov(g, sh, &format!("{ty} store/{op}"), 0, hit, &types, &|_, _, sl| if sl.0 == Role::W { "store".into() } else if sl.1 == 1 { op.into() } else { "load".into() }, Some((Role::R, (s, f))));
                    }
                }
            }
        }
    }
}

pub const ALL: &[&Shape] = &[&MP, &MPB, &MPSC, &MPCHAIN, &ISA2, &WRC, &SS, &LB, &LB1, &MPN, &MPNB, &SBN, &CORMWN, &SB, &IRIW, &RWC, &WRCSC, &W22, &RR, &MPSCALL, &WRWC, &ZSC, &CORR, &CORR2, &COWR, &CORW, &COWW, &CORMW, &F_MP, &F_MPB, &F_MPR, &F_MPA, &F_S, &F_LB, &F_LB2, &F_ISA2, &F_WRC, &F_SB, &F_IRIW, &F_RWC, &F_22W, &F_R, &F_WRWC];
