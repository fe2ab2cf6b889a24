//! Which clients are explored, on which builds and machines, to decide which property.
use crate::asm::{Arch, CpuModel};
use crate::cfgs::*;
use crate::check::{Args, Found, Tally};
use crate::ir::mask;
use crate::litmus::{self, Shape};
use crate::sc::*;
use crate::scen::*;
use crate::seqc;
use crate::spec::*;
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Eng {
    /// interleavings
    Sc,
    /// candidate executions judged by the target's memory model
    Axi,
    /// the language memory model as a machine
    Op,
}
pub struct Unit {
    pub eng: Eng,
    pub name: String,
    pub cfg: &'static str,
    pub cpu: CpuModel,
    pub scens: Vec<Scen>,
    pub contract: bool,
    pub alloc: u32,
    pub garbage: u32,
}
impl Unit {
    pub fn explore(&self, l: &Loaded, s: &Scen) -> Outcome {
        match self.eng {
            Eng::Sc => explore(&l.world, s),
            Eng::Axi => {
                let o = crate::weak::explore_axiomatic(&l.world, s);
                if o.inconclusive.as_deref().map(|m| m.contains(crate::weak::OWN_STATE)).unwrap_or(false) {
                    return crate::c11::explore_c11(&l.world, s);
                }
                o
            }
            Eng::Op => crate::c11::explore_c11(&l.world, s),
        }
    }
    pub fn new(l: &Loaded, scens: Vec<Scen>) -> Unit {
        Unit { eng: Eng::Sc, name: l.world.name.clone(), cfg: l.cfg.name, cpu: l.world.cpu.clone(), scens, contract: false, alloc: 0, garbage: 0 }
    }
    pub fn world(&self, loaded: &[Loaded]) -> Loaded {
        let mut l = loaded.iter().find(|l| l.cfg.name == self.cfg).unwrap().fork(&self.cpu);
        l.world.contract = self.contract;
        l.world.alloc = self.alloc;
        l.world.garbage = self.garbage;
        l.world.deps = self.eng == Eng::Axi;
        l
    }
}
pub struct Plan {
    pub cfgs: Vec<&'static str>,
    pub units: fn(&[Loaded], bool) -> Vec<Unit>,
    pub more: Option<fn(&[Loaded], &Args, Instant, &Mutex<Tally>)>,
    pub assumptions: Vec<&'static str>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Native,
    Double,
    Lock,
    Masked,
}
/// How this machine is expected to handle a width.
pub fn class(c: &Cfg, cpu: &CpuModel, bits: u32) -> Class {
    if c.excl != Excl::Smp {
        return Class::Masked;
    }
    if bits <= c.native {
        return Class::Native;
    }
    if bits <= c.dw && double_ok(c, cpu) {
        return Class::Double;
    }
    Class::Lock
}
fn double_ok(c: &Cfg, cpu: &CpuModel) -> bool {
    match Arch::of_triple(c.target) {
        Arch::X64 => cpu.has("cmpxchg16b"),
        Arch::Rv64 => c.flags.contains("zacas") || cpu.has("zacas") && cpu.hwprobe.as_ref().map(|p| p.get(&3) == Some(&1) && p.contains_key(&4)).unwrap_or(false),
        Arch::Rv32 => true,
        Arch::Ppc64 => cpu.has("quadword-atomics"),
        Arch::Arm => cpu.kuser_version >= 5,
        _ => true,
    }
}
pub fn worlds(loaded: &[Loaded]) -> Vec<Loaded> {
    loaded.iter().flat_map(|l| (l.cfg.cpus)().into_iter().map(move |c| l.fork(&c))).collect()
}
pub fn names_of(l: &Loaded, ty: &str) -> Vec<String> {
    l.ops(ty).iter().map(|e| e.op.clone()).filter(|o| kind(o) != Kind::Query).collect()
}
pub fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}

const NATIVE_SMP: &[&str] = &["x64", "i686", "a64", "a64lse", "a64full", "rv64", "rv64zabha", "rv32imac", "rv32zabha", "armv5linux", "ppc64le", "s390x", "wasm", "a64be", "x64old", "i686old", "a64old", "a64lsfe", "rv32old", "armv7linux", "armv6linux", "thumbv8base", "mips", "ppc32", "loong64", "sparc64", "m68k", "rv32i-smp", "rv32i-zaamo-smp", "rv32i-zabha-smp", "rv64im-zaamo-smp", "thumbv6m-nocas"];
const DOUBLE: &[&str] = &["x64", "x64cx16", "a64", "a64musl", "a64noout", "a64lse", "a64lse2", "a64lselse2", "a64full", "a64apple", "rv64", "rv64zacas", "rv32zacas", "ppc64", "ppc64le", "s390x", "armv5linux", "a64be", "a64belse", "x32", "a64win", "x64tsan", "x64miri", "x64old", "a64old", "a64oldfull", "rv64old", "rv32old", "ppc64old", "s390x-z14", "s390x-z15", "x64avx", "x64avxonly", "x64apple", "a64lse128", "a64rcpc3"];
const LOCKED: &[&str] = &["x64", "x64noout", "x64detfalse", "i686", "rv64", "rv64noout", "rv32imac", "armv5linux", "ppc64", "wasm", "x32", "rv32imac-priv-smp", "i686old", "x64avxonly", "mips", "ppc32", "loong64", "sparc64", "m68k", "armv7linux"];
const MASKED: &[&str] = &["rv32i-sc", "rv32i-sc-s", "rv32i-sc-amo", "thumbv6m-sc", "thumbv6m-cs", "armv4t-sc", "armv4t-fiq", "msp430", "avr", "avr-rmw", "rv32imac-sc", "rv32imac-priv", "thumbv7m-priv", "thumbv7m-sc", "thumbv6m-old", "rv32i-old", "msp430-old", "rv32i-zaamo", "rv32i-zabha", "rv64im-sc", "rv64im-zaamo", "rv32i-cs"];

/// one machine per distinct behaviour is enough where only a class matters
fn first_cpus(loaded: &[Loaded], cl: Class, bits_of: fn(&Cfg) -> u32, max: usize) -> Vec<Loaded> {
    let mut v = vec![];
    for l in loaded {
        let mut n = 0;
        for c in (l.cfg.cpus)() {
            if class(l.cfg, &c, bits_of(l.cfg)) == cl && n < max {
                v.push(l.fork(&c));
                n += 1;
            }
        }
    }
    v
}
pub fn types_of_class(l: &Loaded, cl: Class) -> Vec<String> {
    l.types().into_iter().filter(|(_, b)| class(l.cfg, &l.world.cpu, *b) == cl).map(|x| x.0).collect()
}
/// same width, different view
fn siblings(l: &Loaded, ty: &str) -> Vec<String> {
    let ts = l.types();
    let b = ts.iter().find(|x| x.0 == ty).map(|x| x.1).unwrap_or(0);
    ts.into_iter().filter(|x| x.1 == b && x.0 != ty && x.0 != "bool").map(|x| x.0).collect()
}
fn mixed_views(g: &mut G, ty: &str, sets: &[usize], lvls: &[usize]) {
    let l = g.l;
    for sib in siblings(l, ty) {
        if l.types().iter().any(|(t, b)| t.starts_with("ptr") && *b > 0 && *t == sib) {
            continue;
        }
        for x in REP {
            for y in REP {
                if l.e(ty, x).is_some() && l.e(&sib, y).is_some() {
                    for s in sets {
                        for o in lvls {
                            g.simple_views(&[vec![(ty, x)], vec![(sib.as_str(), y)]], *s, *o);
                        }
                    }
                }
            }
        }
    }
}

fn concurrency(g: &mut G, ty: &str, thorough: bool) {
    let l = g.l;
    let ops = names_of(l, ty);
    let ops = strs(&ops);
    let locked = class(l.cfg, &l.world.cpu, l.e(ty, "load").map(|e| e.bits).unwrap_or(8)) == Class::Lock;
    let (sets, lvls): (&[usize], &[usize]) = if thorough { (&[0, 1, 2, 3], &[0, 1, 2, 3, 4]) } else { (&[0, 1], &[0, 2]) };
    g.pairs(ty, &ops, &ops, sets, lvls);
    if !thorough {
        g.pairs(ty, REP, REP, &[2, 3], &[1, 3, 4]);
    }
    let firsts: Vec<(&str, &str)> = REP_SMALL.iter().flat_map(|x| REP_SMALL.iter().map(move |y| (*x, *y))).collect();
    g.seqs(ty, &firsts, &[&["load"], &["store"], &["cas"], &["fetch_add"], &["load", "load"]], &[0], &[2]);
    if thorough {
        let r: &[&str] = if locked { &["load", "store", "cas", "fetch_add", "swap"] } else { REP };
        g.triples(ty, r, &[0, 1], &[0, 2]);
        let firsts: Vec<(&str, &str)> = REP.iter().flat_map(|x| REP.iter().map(move |y| (*x, *y))).collect();
        g.seqs(ty, &firsts, &[&["swap"], &["fetch_update"], &["load", "store"], &["load", "cas"], &["cas", "cas"], &["store", "load"], &["fetch_add", "fetch_add"]], &[0, 1], &[0, 2]);
    } else {
        g.triples(ty, if locked { &["load", "store", "cas"] } else { REP_SMALL }, &[0], &[2]);
    }
}

fn u_c01(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    let mut us = vec![];
    for l in first_cpus(loaded, Class::Native, |_| 8, 1) {
        let mut g = G::new(&l);
        for ty in types_of_class(&l, Class::Native) {
            if ty == "ptr0" || ty == "ptr24" {
                continue;
            }
            if ty.starts_with('f') {
                let ops = names_of(&l, &ty);
                g.pairs(&ty, &strs(&ops), &strs(&ops), &[0], &[0, 2]);
            } else {
                concurrency(&mut g, &ty, thorough);
            }
        }
        let out = std::mem::take(&mut g.out);
        us.push(Unit::new(&l, out));
    }
    us
}
fn u_c02(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    let mut us = vec![];
    for l in first_cpus(loaded, Class::Double, |c| c.dw, 99) {
        let mut g = G::new(&l);
        for ty in types_of_class(&l, Class::Double) {
            if ty.starts_with('i') && !thorough {
                // same code as the unsigned view except for min and max
                let ops = names_of(&l, &ty);
                g.pairs(&ty, &strs(&ops), REP_SMALL, &[0, 1], &[2]);
                continue;
            }
            concurrency(&mut g, &ty, thorough);
            mixed_views(&mut g, &ty, &[0], &[2]);
        }
        let out = std::mem::take(&mut g.out);
        us.push(Unit::new(&l, out));
    }
    us
}

/// Contents of the version counters just before they wrap: the words of the crate's statics that an operation advances
/// by a constant are set back by one to three such steps.
fn counter_seeds(l: &Loaded, ty: &str, at: u64) -> Vec<Vec<(u64, Vec<u8>)>> {
    let Some(e) = l.e(ty, "store") else { return vec![] };
    let g = G::new(l);
    let ps = (l.world.prog.layout.ptr_bits / 8) as u64;
    let mut runs = vec![];
    for n in 1..=5 {
        let acts: Vec<Act> = (0..n).map(|i| g.op(e, 0, (i as u128 + 1, 0), (4, 0))).collect();
        let objs = [g.obj(e, at, 0)];
        match run_seq(&l.world, &objs, &[], &acts) {
            Ok(o) => runs.push(o.mem),
            Err(_) => return vec![],
        }
    }
    let p = &l.world.prog;
    let mut words: Vec<u64> = runs[4].keys().filter(|a| **a >= p.gbase && **a < p.gend).map(|a| a & !(ps - 1)).collect();
    words.dedup();
    let bits = ps as u32 * 8;
    let rd = |m: &std::collections::BTreeMap<u64, u8>, a: u64| -> u128 {
        let b: Vec<u8> = (a..a + ps).map(|x| m.get(&x).copied().unwrap_or_else(|| p.image.get((x - p.gbase) as usize).copied().unwrap_or(0))).collect();
        l.world.value(&b)
    };
    let mut out = vec![];
    for a in words {
        let v: Vec<u128> = runs.iter().map(|m| rd(m, a)).collect();
        let d = v[1].wrapping_sub(v[0]);
        if d == 0 || d > 64 || v.windows(2).any(|w| w[1].wrapping_sub(w[0]) != d) || v[0] != rd(&Default::default(), a).wrapping_add(d) {
            continue;
        }
        let z = rd(&Default::default(), a);
        // z + k*d = 2^bits for a whole k: those values are on the counter's path
        if (z % d) != 0 || (1u128 << bits) % d != 0 {
            continue;
        }
        for k in 1..=3u128 {
            out.push(vec![(a, l.world.bytes(mask(0u128.wrapping_sub(k * d), bits), ps as u32))]);
        }
    }
    out
}
fn locked_extra(g: &mut G, ty: &str, thorough: bool) {
    let l = g.l;
    let lvl = 2;
    // lock sharing at every plausible table size, and neighbours
    for d in [16u64, 67 * 16, 64 * 16, 61 * 16] {
        g.two_objects(ty, d, &["load", "store", "cas", "fetch_add"], 0, lvl);
    }
    // version counter about to wrap
    for init in counter_seeds(l, ty, g.addr()) {
        let n0 = g.out.len();
        g.pairs(ty, REP, REP, &[0, 1], &[2]);
        g.simple(ty, &[&["load"], &["store", "store"]], 0, lvl);
        g.simple(ty, &[&["load"], &["store", "store", "store"]], 0, lvl);
        g.simple(ty, &[&["load"], &["swap", "fetch_add"]], 0, lvl);
        g.simple(ty, &[&["load"], &["cas", "cas"]], 0, lvl);
        g.simple(ty, &[&["load", "load"], &["store", "store"]], 0, lvl);
        if thorough {
            g.simple(ty, &[&["load"], &["store"], &["store"]], 0, lvl);
            g.simple(ty, &[&["load"], &["load"], &["store", "store"]], 0, lvl);
            g.simple(ty, &[&["load"], &["store", "store"], &["fetch_add"]], 0, lvl);
        }
        let tag = format!(" [counter at {:#x} starts as {:x?}]", init[0].0, init[0].1);
        for s in &mut g.out[n0..] {
            s.init = init.clone();
            s.name.push_str(&tag);
        }
    }
}
fn u_c03(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    let mut us = vec![];
    for l in first_cpus(loaded, Class::Lock, |_| 128, if thorough { 9 } else { 1 }) {
        let mut g = G::new(&l);
        for ty in types_of_class(&l, Class::Lock) {
            if !ty.starts_with('u') && !thorough {
                let ops = names_of(&l, &ty);
                g.pairs(&ty, &strs(&ops), REP_SMALL, &[0], &[2]);
                continue;
            }
            concurrency(&mut g, &ty, thorough);
            mixed_views(&mut g, &ty, &[0], &[2]);
            locked_extra(&mut g, &ty, thorough);
        }
        let out = std::mem::take(&mut g.out);
        us.push(Unit::new(&l, out));
    }
    // one location, or two under the same lock, in the language's memory model
    let weak: Vec<Loaded> = loaded.iter().filter(|l| thorough || matches!(l.cfg.name, "x64" | "i686" | "rv64noout" | "rv32imac" | "ppc64")).map(|l| l.fork(&l.world.cpu)).collect();
    use crate::litmus::*;
    us.extend(memory(&weak, thorough, &[&CORR, &COWR, &CORW, &COWW, &CORMW], &[], None).into_iter().filter(|u| u.eng == Eng::Op));
    us
}

fn u_c04(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    let mut us = vec![];
    for l in worlds(loaded) {
        let mut g = G::new(&l);
        let fiq = l.cfg.name == "armv4t-fiq";
        for (ty, bits) in l.types() {
            if ty == "ptr0" || ty == "ptr24" {
                continue;
            }
            let ops = names_of(&l, &ty);
            let ops = strs(&ops);
            let main = bits <= 32 || ty.starts_with('u');
            if l.cfg.excl == Excl::Cs {
                if main || thorough {
                    concurrency(&mut g, &ty, thorough);
                }
                continue;
            }
            for (masked, nest) in [(false, false), (true, false), (false, true)] {
                g.mode = Mode::Irq { nest, masked, fiq };
                let n0 = g.out.len();
                // main operation interrupted by one handler; both roles matter
                let ys: &[&str] = if main && !nest { &ops } else { REP_SMALL };
                let sets: &[usize] = if thorough { &[0, 1, 2] } else if masked || nest { &[0] } else { &[0, 1] };
                for x in &ops {
                    for y in ys {
                        for s in sets {
                            for lvl in if thorough { vec![0, 1, 2] } else { vec![2 * (s + 1) % 3] } {
                                g.simple(&ty, &[&[x], &[y]], *s, lvl);
                            }
                        }
                    }
                }
                if !masked {
                    // two handlers (nested where allowed), and handlers between and inside a pair of calls
                    for x in REP_SMALL {
                        for y in REP_SMALL {
                            g.simple(&ty, &[&[x, y], &["fetch_add"], &["store"]], 0, 2);
                            g.simple(&ty, &[&[x, y], &["cas", "fetch_update"], &["swap"]], 1, 2);
                        }
                    }
                }
                for s in &mut g.out[n0..] {
                    s.name.push_str(&format!(" [{}{}]", if masked { "interrupts masked by the caller" } else { "interrupts enabled" }, if nest { ", handlers nest" } else { "" }));
                }
            }
        }
        let out = std::mem::take(&mut g.out);
        us.push(Unit::new(&l, out));
    }
    us
}


const ALL: &[&str] = &[
    "x64", "x64cx16", "x64noout", "i686", "a64", "a64musl", "a64noout", "a64lse", "a64lse2", "a64lselse2", "a64full", "a64apple", "wasm", "rv64", "rv64noout", "rv64zacas", "rv64zabha", "rv32imac",
    "rv32zacas", "rv32zabha", "ppc64le", "ppc64", "s390x", "armv5linux", "rv32i-sc", "rv32i-sc-s", "rv32i-sc-amo", "thumbv6m-sc", "thumbv6m-cs", "armv4t-sc", "armv4t-fiq", "msp430", "avr", "avr-rmw", "rv32imac-sc", "rv32imac-priv", "thumbv7m-priv", "thumbv7m-sc", "a64be", "a64belse", "x32", "rv32imac-priv-smp", "a64win",
    "x64tsan", "x64miri", "x64old", "i686old", "a64old", "a64oldfull", "a64lsfe", "rv64old", "rv32old", "ppc64old", "thumbv6m-old", "rv32i-old", "msp430-old",
    "s390x-z14", "s390x-z15", "x64avx", "x64avxonly", "x64apple", "a64lse128", "a64rcpc3", "armv7linux", "armv6linux", "thumbv8base", "armv7r", "mips", "ppc32", "loong64", "sparc64", "m68k", "rv32i-zaamo", "rv32i-zabha", "rv32i-smp", "rv32i-zaamo-smp", "rv32i-zabha-smp", "rv64im-zaamo-smp", "thumbv6m-nocas", "rv64im-sc", "rv64im-zaamo", "rv32i-cs",
];
/// The machines of a build that differ in how some width is handled.
pub fn distinct(l: &Loaded, all: bool) -> Vec<Loaded> {
    let mut seen = vec![];
    let mut v = vec![];
    for c in (l.cfg.cpus)() {
        let k = (class(l.cfg, &c, 128), class(l.cfg, &c, 64), c.feats.clone());
        if all || !seen.contains(&k) {
            seen.push(k);
            v.push(l.fork(&c));
        }
    }
    v
}
/// pairs of `xs` against everything, on every type that `pick` accepts, in whatever way the build handles it
fn focus(loaded: &[Loaded], thorough: bool, pick: fn(&str) -> bool, xs: &[&str], full: bool) -> Vec<Unit> {
    let mut us = vec![];
    for l in loaded.iter().flat_map(|l| distinct(l, thorough)) {
        let mut g = G::new(&l);
        for (ty, bits) in l.types() {
            if !pick(&ty) {
                continue;
            }
            let ops = names_of(&l, &ty);
            let ops = strs(&ops);
            let xs: Vec<&str> = if xs.is_empty() { ops.clone() } else { xs.to_vec() };
            let cl = class(l.cfg, &l.world.cpu, bits);
            let ys: &[&str] = if full || cl == Class::Double { &ops } else { REP };
            let (sets, lvls): (&[usize], &[usize]) = if thorough {
                (&[0, 1, 2, 3], &[0, 1, 2, 3, 4])
            } else if cl == Class::Double {
                (&[0, 1, 3], &[0, 1, 2])
            } else if cl == Class::Lock {
                (&[0, 1], &[2])
            } else {
                (&[0, 1, 2], &[1, 2])
            };
            for x in &xs {
                for y in ys {
                    for s in sets {
                        for o in lvls {
                            g.simple(&ty, &[&[x], &[y]], *s, *o);
                            if matches!(g.mode, Mode::Irq { .. }) && x != y {
                                g.simple(&ty, &[&[y], &[x]], *s, *o);
                            }
                        }
                    }
                }
            }
            if cl != Class::Lock || thorough {
                for x in &xs {
                    g.simple(&ty, &[&[x], &["fetch_add"], &["store"]], 0, 2);
                    g.simple(&ty, &[&[x, "load"], &["cas", "swap"]], 1, 2);
                    g.simple(&ty, &[&[x], &["store", "swap"]], 0, 0);
                    g.simple(&ty, &[&[x, x], &[x, "load"]], 0, 1);
                    g.simple(&ty, &[&[x], &[x], &[x]], 0, 2);
                }
            }
        }
        let out = std::mem::take(&mut g.out);
        us.push(Unit::new(&l, out));
    }
    us
}
fn is_int(t: &str) -> bool {
    t.starts_with('u') || t.starts_with('i')
}
fn u_c06(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    focus(loaded, thorough, |t| t != "ptr0" && t != "ptr24", &["cas", "casw"], false)
}
fn u_c07(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    focus(loaded, thorough, |t| t != "ptr0" && t != "ptr24", &["fetch_update"], true)
}
fn u_c15(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    focus(loaded, thorough, |t| t.starts_with('f'), &[], false)
}
fn u_c16(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    focus(loaded, thorough, |t| t.starts_with("ptr"), &[], false)
}
fn u_c17(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    let mut v = focus(loaded, thorough, |t| t == "bool", &[], true);
    for u in &mut v {
        let l = u.world(loaded);
        let mut g = G::new(&l);
        let ops = names_of(&l, "bool");
        g.word_mates("bool", &strs(&ops), 0, 2);
        u.scens.append(&mut g.out);
    }
    v
}
fn m_c05(l: &[Loaded], a: &Args, d: Instant, t: &Mutex<Tally>) {
    seqc::sequential(l, a, d, t, &|e| matches!(e.t, T::Int(..) | T::Bool) && kind(&e.op) != Kind::Query, true);
}
fn m_c06(l: &[Loaded], a: &Args, d: Instant, t: &Mutex<Tally>) {
    seqc::sequential(l, a, d, t, &|e| kind(&e.op) == Kind::Cas, true);
}
fn m_c07(l: &[Loaded], a: &Args, d: Instant, t: &Mutex<Tally>) {
    seqc::sequential(l, a, d, t, &|e| kind(&e.op) == Kind::Update, true);
}
fn m_c15(l: &[Loaded], a: &Args, d: Instant, t: &Mutex<Tally>) {
    seqc::sequential(l, a, d, t, &|e| matches!(e.t, T::Float(_)) && kind(&e.op) != Kind::Query, true);
}
fn m_c16(l: &[Loaded], a: &Args, d: Instant, t: &Mutex<Tally>) {
    seqc::sequential(l, a, d, t, &|e| matches!(e.t, T::Ptr(_)) && kind(&e.op) != Kind::Query, true);
}
fn m_c17(l: &[Loaded], a: &Args, d: Instant, t: &Mutex<Tally>) {
    seqc::sequential(l, a, d, t, &|e| e.t == T::Bool && kind(&e.op) != Kind::Query, true);
}
fn u_none(_: &[Loaded], _: bool) -> Vec<Unit> {
    vec![]
}
/// every operation alone on small types of the build, one value set; the cheap scaffold of several checks
fn u_c05(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    let mut us = vec![];
    for l in loaded.iter().flat_map(|l| distinct(l, thorough)) {
        let mut g = G::new(&l);
        for (ty, _) in l.types() {
            if is_int(&ty) || ty == "bool" {
                // with spurious failures of LL/SC and weak compare-exchange
                g.singles(&ty, if thorough { &[0, 1, 2, 3] } else { &[0, 1] }, true);
            }
        }
        let out = std::mem::take(&mut g.out);
        us.push(Unit::new(&l, out));
    }
    us
}
fn u_c11(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    let _ = thorough;
    let mut us = vec![];
    for l in loaded.iter().flat_map(|l| distinct(l, true)) {
        let mut g = G::new(&l);
        g.tail_load = false;
        let es: Vec<Entry> = l.entries.values().cloned().collect();
        for e in &es {
            let bad: Vec<(u32, u32)> = match kind(&e.op) {
                Kind::Load => vec![(1, 0), (3, 0)],
                Kind::Store => vec![(2, 0), (3, 0)],
                Kind::Cas | Kind::Update => (0..5).flat_map(|s| [(s, 1), (s, 3)]).collect(),
                Kind::Fence if e.op != "spin_loop" => vec![(0, 0)],
                _ => vec![],
            };
            for set in 0..if thorough { 3 } else { 2 } {
                for o in &bad {
                    let init = init_val(e, set);
                    let mut ab = operands(e, set, 0, 0, init, None);
                    if kind(&e.op) == Kind::Cas && set == 1 {
                        // a comparison that fails must still be rejected
                        ab.0 = mask(init ^ 1, e.bits);
                    }
                    let obj = g.obj(e, g.addr(), init);
                    let mut s = g.scen(format!("{} {}/{} v{set} must panic", e.name, ord_name(o.0), ord_name(o.1)), vec![vec![g.op(e, 0, ab, *o)]], vec![obj]);
                    s.expect_panic = Some(0);
                    if matches!(s.mode, Mode::Irq { .. }) {
                        for masked in [false, true] {
                            let mut s = s.clone();
                            s.mode = Mode::Irq { nest: false, masked, fiq: l.cfg.name == "armv4t-fiq" };
                            s.name.push_str(if masked { " [masked]" } else { " [enabled]" });
                            g.out.push(s);
                        }
                    } else {
                        g.out.push(s);
                    }
                }
            }
            for o in orderings(&e.op) {
                let init = init_val(e, 0);
                let ab = operands(e, 0, 0, 0, init, None);
                let obj = g.obj(e, g.addr(), init);
                let mut s = g.scen(format!("{} {}/{} must be accepted", e.name, ord_name(o.0), ord_name(o.1)), vec![vec![g.op(e, 0, ab, o)]], vec![obj]);
                s.lin = false;
                g.out.push(s);
            }
        }
        let out = std::mem::take(&mut g.out);
        us.push(Unit::new(&l, out));
    }
    us
}
/// all combinations of what a machine may have and may answer
fn detect_cpus(c: &Cfg) -> Vec<CpuModel> {
    let base = (c.cpus)();
    let b0 = &base[0];
    let mut v = vec![];
    match Arch::of_triple(c.target) {
        Arch::X64 => {
            for bits in 0..64u32 {
                let (cx16, xsave, osxsave, avx, noise, vendor) = (bits & 1 != 0, bits & 2 != 0, bits & 4 != 0, bits & 8 != 0, bits & 16 != 0, bits & 32 != 0);
                // (what the build assumes is there)
                if (c.flags.contains("cmpxchg16b") || c.target.contains("apple")) && !cx16 || c.flags.contains("+avx") && !(avx && osxsave) {
                    continue;
                }
                if osxsave && !xsave {
                    continue;
                }
                for xcr0 in [0u64, 1, 3, 5, 7, 0xe7] {
                    if !osxsave && xcr0 != 0 || osxsave && xcr0 == 0 || c.flags.contains("+avx") && xcr0 & 6 != 6 {
                        continue;
                    }
                    let mut m = b0.clone();
                    m.name = format!("cx16={cx16} xsave={xsave} osxsave={osxsave} avx={avx} xcr0={xcr0:#x} otherbits={noise} {}", if vendor { "AMD" } else { "Intel" });
                    m.feats.clear();
                    let usable = avx && osxsave && xcr0 & 6 == 6;
                    for (f, on) in [("cmpxchg16b", cx16), ("avx", usable), ("avx16atomic", avx), ("xgetbv", osxsave)] {
                        if on {
                            m.feats.insert(f.into());
                        }
                    }
                    let known = (1u32 << 13) | (1 << 26) | (1 << 27) | (1 << 28);
                    let ecx = (cx16 as u32) << 13 | (xsave as u32) << 26 | (osxsave as u32) << 27 | (avx as u32) << 28 | if noise { !known } else { 0 };
                    // a CPU without these features still sets other bits of the other registers
                    let others = if noise { 0xffff_ffff } else { 0 };
                    m.cpuid.insert((1, 0), [0x000306a9, others, ecx, others]);
                    if vendor {
                        let w = |s: &[u8]| u32::from_le_bytes(s.try_into().unwrap());
                        m.cpuid.insert((0, 0), [0xd, w(b"Auth"), w(b"cAMD"), w(b"enti")]);
                    }
                    m.xcr0 = xcr0;
                    v.push(m);
                }
            }
        }
        Arch::A64 if c.target.contains("linux") && !c.target.contains("android") => {
            for bits in 0..32u32 {
                let (lse, lse2, lse128, rcpc3, noise) = (bits & 1 != 0, bits & 2 != 0, bits & 4 != 0, bits & 8 != 0, bits & 16 != 0);
                if c.flags.contains("+lse") && !lse || c.flags.contains("+lse2") && !lse2 || c.flags.contains("+lse128") && !lse128 || c.flags.contains("+rcpc3") && !rcpc3 {
                    if !(c.flags.contains("+lse2") && !c.flags.contains("+lse,") && lse2) {
                        continue;
                    }
                }
                if lse128 && !lse || rcpc3 && !lse2 {
                    // the architecture requires the base feature
                    continue;
                }
                for (auxv, dl) in [(true, true), (false, true), (true, false)] {
                    let mut m = b0.clone();
                    m.name = format!("lse={lse} lse2={lse2} lse128={lse128} rcpc3={rcpc3} otherbits={noise} auxv={auxv} dlsym={dl}");
                    m.feats.clear();
                    for (f, on) in [("lse", lse), ("lse2", lse2), ("lse128", lse128), ("rcpc3", rcpc3), ("rcpc", rcpc3)] {
                        if on {
                            m.feats.insert(f.into());
                        }
                    }
                    let k1 = (1u64 << 8) | (1 << 25);
                    let k2 = (1u64 << 46) | (1 << 47);
                    let h1 = (lse as u64) << 8 | (lse2 as u64) << 25 | if noise { !k1 } else { 0 };
                    let h2 = (rcpc3 as u64) << 46 | (lse128 as u64) << 47 | if noise { !k2 } else { 0 };
                    m.auxv.clear();
                    if auxv {
                        m.auxv.insert(AT_HWCAP, h1);
                        m.auxv.insert(AT_HWCAP2, h2);
                        for k in [0u64, 3, 15, 24, 27, 28, 29, 30, 31, 38, 39] {
                            // other entries of the auxiliary vector
                            m.auxv.insert(k, !0);
                        }
                    }
                    m.dl.clear();
                    if dl {
                        m.dl.insert("getauxval".into());
                    }
                    v.push(m);
                }
            }
        }
        Arch::A64 if !c.target.contains("apple") => {
            let os = ["windows", "android", "freebsd", "netbsd", "openbsd", "illumos", "fuchsia"].into_iter().find(|o| c.target.contains(o));
            return os.map(a64_all_os).unwrap_or(base);
        }
        Arch::A64 => {
            for bits in 0..32u32 {
                let mut m = b0.clone();
                m.feats.clear();
                m.sysctl.clear();
                let (lse2, lse128, rcpc3, answers, extra) = (bits & 1 != 0, bits & 2 != 0, bits & 4 != 0, bits & 8 != 0, bits & 16 != 0);
                m.name = format!("lse2={lse2} lse128={lse128} rcpc3={rcpc3} sysctl={answers} extra={extra}");
                // (the target itself requires these)
                m.feats.extend(["lse".to_string(), "lse2".into(), "rcpc".into()]);
                for (f, k, on) in [("lse128", "hw.optional.arm.FEAT_LSE128", lse128), ("rcpc3", "hw.optional.arm.FEAT_LRCPC3", rcpc3), ("lse2", "hw.optional.arm.FEAT_LSE2", lse2)] {
                    if on {
                        m.feats.insert(f.into());
                    }
                    if answers {
                        m.sysctl.insert(k.into(), on as u32);
                    }
                }
                if extra {
                    for k in ["hw.optional.arm.FEAT_LRCPC", "hw.optional.arm.FEAT_LRCPC2", "hw.optional.arm.FEAT_LSE", "hw.optional.armv8_1_atomics", "hw.optional.AdvSIMD"] {
                        m.sysctl.insert(k.into(), 1);
                    }
                }
                v.push(m);
            }
        }
        Arch::Rv64 => {
            if c.flags.contains("zacas") {
                return base;
            }
            for zacas in [false, true] {
                for noise in [false, true] {
                    for probe in 0..5 {
                        let mut m = b0.clone();
                        m.feats = ["a".to_string()].into_iter().collect();
                        if zacas {
                            m.feats.insert("zacas".into());
                        }
                        m.name = format!("zacas={zacas} otherbits={noise} hwprobe={}", ["absent", "no keys", "no extension key", "not IMA", "complete"][probe]);
                        let ext = (zacas as u64) << 34 | if noise { !(1u64 << 34) } else { 0 };
                        m.hwprobe = match probe {
                            0 => None,
                            1 => Some(Default::default()),
                            2 => Some([(3i64, 1u64)].into_iter().collect()),
                            3 => Some([(3, 0), (4, ext & !(1 << 34))].into_iter().collect()),
                            _ => Some([(3, 1), (4, ext)].into_iter().collect()),
                        };
                        v.push(m);
                    }
                }
            }
        }
        Arch::Ppc64 => {
            if c.name == "ppc64le" || c.name == "ppc64aix" {
                return base;
            }
            let bsd = c.target.contains("bsd");
            for bits in 0..32u32 {
                let (a207, a300, a31, booke, noise) = (bits & 1 != 0, bits & 2 != 0, bits & 4 != 0, bits & 8 != 0, bits & 16 != 0);
                let mut m = b0.clone();
                m.feats.clear();
                m.name = format!("2.07={a207} 3.00={a300} 3.1={a31} booke={booke} otherbits={noise}");
                if (a207 || a300 || a31) && !booke {
                    m.feats.insert("quadword-atomics".into());
                }
                let k2 = 0x8000_0000u64 | 0x0080_0000 | 0x0004_0000;
                let h2 = (a207 as u64) << 31 | (a300 as u64) << 23 | (a31 as u64) << 18 | if noise { 0xffff_ffff & !k2 } else { 0 };
                let h1 = (booke as u64) << 15 | if noise { 0xffff_ffff & !0x8000 } else { 0 };
                m.auxv.clear();
                m.auxv.insert(if bsd { 25 } else { AT_HWCAP }, h1);
                m.auxv.insert(AT_HWCAP2, h2);
                v.push(m);
                if bits == 31 {
                    // no way to ask
                    for k in 0..2 {
                        let mut m = v[v.len() - 1].clone();
                        m.name = format!("{} {}", m.name, ["no function", "no auxiliary vector"][k]);
                        m.feats.insert("quadword-atomics".into());
                        if k == 0 {
                            m.dl.clear();
                        } else {
                            m.auxv.clear();
                        }
                        v.push(m);
                    }
                }
            }
        }
        Arch::Arm => {
            for k in 1..=7u32 {
                let mut m = b0.clone();
                m.name = format!("kuser helper version {k}");
                m.kuser_version = k;
                if k >= 3 {
                    v.push(m);
                }
            }
        }
        _ => return base,
    }
    v
}
const DETECT: &[&str] = &["x64", "x64cx16", "x64noout", "a64", "a64musl", "a64lse", "a64lse2", "a64lselse2", "a64full", "a64apple", "rv64", "rv64zacas", "ppc64", "ppc64le", "armv5linux", "x32", "a64be", "a64win", "a64android", "a64freebsd", "a64netbsd", "a64openbsd", "a64illumos", "a64fuchsia", "ppc64freebsd", "ppc64openbsd", "ppc64aix", "x64tsan", "x64old", "a64old", "rv64old", "x64avxonly", "x64apple"];
fn u_c12(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    let mut us = vec![];
    for l in loaded {
        for c in detect_cpus(l.cfg) {
            let l = l.fork(&c);
            let mut g = G::new(&l);
            let tys: Vec<String> = l.types().into_iter().filter(|(_, b)| *b > l.cfg.native && *b >= 64).map(|x| x.0).collect();
            for ty in &tys {
                g.singles(ty, &[0], true);
                if ty.starts_with('u') {
                    // concurrent first calls
                    let r: &[&str] = if thorough { REP } else { &["load", "store", "cas", "fetch_add"] };
                    g.pairs(ty, r, r, if thorough { &[0, 1] } else { &[0] }, &[2]);
                    g.simple(ty, &[&["is_lock_free", "store"], &["load", "is_lock_free"]], 0, 2);
                    g.simple(ty, &[&["store", "fetch_add"], &["swap", "load"]], 0, 0);
                    if thorough {
                        g.triples(ty, REP_SMALL, &[0], &[0]);
                    }
                }
            }
            let out = std::mem::take(&mut g.out);
            us.push(Unit::new(&l, out));
        }
    }
    us
}
/// answer of a query on a fresh process
fn query(l: &Loaded, ty: &str, op: &str) -> Option<u32> {
    let e = l.e(ty, op)?;
    let g = G::new(l);
    let o = [g.obj(e, g.addr(), 0)];
    run_seq(&l.world, &o, &[], &[g.op(e, 0, (0, 0), (0, 0))]).ok().and_then(|r| r.res.first().map(|x| x.0))
}
fn u_c13(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    let mut us = vec![];
    for l in loaded.iter().flat_map(|l| distinct(l, true)) {
        let mut g = G::new(&l);
        for (ty, bits) in l.types() {
            let (Some(f), Some(al)) = (query(&l, &ty, "is_lock_free"), query(&l, &ty, "is_always_lock_free")) else { continue };
            let n0 = g.out.len();
            // reports are the same whenever and wherever they are asked for
            for ops in [
                [&["is_lock_free", "is_lock_free"][..], &["is_lock_free"][..]],
                [&["load", "is_lock_free"], &["is_lock_free", "store"]],
                [&["fetch_add", "is_lock_free"], &["cas", "is_lock_free"]],
                [&["store", "is_lock_free"], &["load", "is_lock_free"]],
            ] {
                g.simple(&ty, &ops, 0, 0);
            }
            if thorough {
                g.simple(&ty, &[&["is_lock_free"], &["is_lock_free"], &["fetch_add", "is_lock_free"]], 0, 0);
            }
            for s in &mut g.out[n0..] {
                s.expect_flag = Some(f);
                s.lin = false;
            }
            let n0 = g.out.len();
            g.simple(&ty, &[&["is_always_lock_free", "load", "is_always_lock_free"]], 0, 0);
            for s in &mut g.out[n0..] {
                s.expect_flag = Some(al);
                s.lin = false;
            }
            if al == 1 {
                // always implies on this process
                let n0 = g.out.len();
                g.simple(&ty, &[&["is_lock_free"]], 1, 0);
                for s in &mut g.out[n0..] {
                    s.expect_flag = Some(1);
                    s.lin = false;
                    s.name.push_str(" [reported always lock-free]");
                }
            }
            if f == 1 || al == 1 {
                let n0 = g.out.len();
                let ops = names_of(&l, &ty);
                let ops = strs(&ops);
                let mask_ok = l.cfg.excl == Excl::Smp;
                let small = !is_int(&ty) || class(l.cfg, &l.world.cpu, bits) == Class::Native && !thorough;
                g.pairs(&ty, &ops, if small { REP_SMALL } else { REP }, &[0], if thorough { &[0, 1, 2] } else { &[1] });
                if thorough {
                    g.triples(&ty, REP_SMALL, &[0], &[2]);
                }
                let _ = mask_ok;
                for s in &mut g.out[n0..] {
                    s.lin = false;
                    s.solo = matches!(s.mode, Mode::Smp);
                    s.no_mask = true;
                    s.name.push_str(" [reported lock-free]");
                }
            }
        }
        let out = std::mem::take(&mut g.out);
        us.push(Unit::new(&l, out));
    }
    us
}
/// always-lock-free is a property of the build, not of the machine
fn m_c13(loaded: &[Loaded], a: &Args, _: Instant, t: &Mutex<Tally>) {
    if a.only.is_some() {
        return;
    }
    for l in loaded {
        for (ty, _) in l.types() {
            let mut seen: Vec<(u32, String)> = vec![];
            for c in (l.cfg.cpus)().into_iter().chain(detect_cpus(l.cfg)) {
                let f = l.fork(&c);
                if let Some(v) = query(&f, &ty, "is_always_lock_free") {
                    if let Some(p) = seen.iter().find(|x| x.0 != v) {
                        t.lock().unwrap().found.push(Found {
                            unit: l.cfg.name.into(),
                            scen: format!("{ty}.is_always_lock_free on every machine"),
                            why: "report".into(),
                            msg: format!("answers {v} on {} and {} on {}", c.name, p.0, p.1),
                            trace: vec![],
                            describe: vec![],
                        });
                        break;
                    }
                    seen.push((v, c.name.clone()));
                    *t.lock().unwrap().extra.entry("always_lock_free_answers".into()).or_default() += 1;
                }
            }
        }
    }
}
fn u_c14(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    let mut v = u_c03(loaded, thorough);
    v.retain(|u| u.eng == Eng::Sc);
    for u in &mut v {
        let l = u.world(loaded);
        let mut g = G::new(&l);
        for ty in types_of_class(&l, Class::Lock) {
            if ty.starts_with('u') {
                g.triples(&ty, &["cas", "fetch_update", "store"], &[0], &[2]);
            }
        }
        u.scens.append(&mut g.out);
        for s in &mut u.scens {
            s.lin = false;
            s.fair = true;
            // nothing may be left locked: a writer must get through afterwards
            for (i, o) in s.objs.clone().iter().enumerate() {
                if let Some(e) = l.e(&o.e.ty, "store") {
                    s.tail.push(Act::Op(crate::lin::OpInfo { e: e.clone(), obj: i, a: 7, b: 0, o1: 4, o2: 0 }));
                }
            }
        }
    }
    v
}
fn u_c18(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    let mut us = vec![];
    for l in loaded.iter().flat_map(|l| distinct(l, thorough)) {
        let mut g = G::new(&l);
        for (ty, bits) in l.types() {
            let ops = names_of(&l, &ty);
            let ops = strs(&ops);
            let n0 = g.out.len();
            g.singles(&ty, if thorough { &[0, 1, 2, 3] } else { &[0, 1] }, true);
            if class(l.cfg, &l.world.cpu, bits) != Class::Double {
                for s in &mut g.out[n0..] {
                    s.ro_load = true;
                }
            }
            if ty != "ptr0" && ty != "ptr24" {
                if matches!(g.mode, Mode::Smp) {
                    g.neighbours(&ty, &ops, 0, 2);
                    if thorough {
                        g.neighbours(&ty, &ops, 1, 0);
                    }
                }
                let r: &[&str] = if thorough || bits <= 16 { &ops } else { REP };
                if bits < l.world.prog.layout.ptr_bits {
                    g.word_mates(&ty, r, 0, 2);
                }
            }
        }
        for s in &mut g.out {
            s.footprint = true;
        }
        let out = std::mem::take(&mut g.out);
        us.push(Unit::new(&l, out));
    }
    us
}
/// Sequences of construction, in-place views and atomic operations by one thread.
fn u_c19(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    const CORE: &[&str] = &["new", "get_mut", "as_ptr", "from_ptr", "into_inner", "as_bits"];
    const ATOMIC: &[&str] = &["load", "store", "swap", "cas", "fetch_add", "fetch_or", "fetch_update"];
    let mut us = vec![];
    for l in loaded {
        for (mi, l) in distinct(l, thorough).into_iter().enumerate() {
            let deep = thorough || matches!(l.cfg.name, "x64" | "i686" | "a64" | "rv32imac" | "armv4t-sc" | "thumbv6m-cs" | "avr" | "msp430");
            let mut g = G::new(&l);
            for (ty, bits) in l.types() {
                if mi > 0 && class(l.cfg, &l.world.cpu, bits) == Class::Native {
                    continue;
                }
                let views: Vec<&Entry> = l.views.values().filter(|e| e.ty == ty).collect();
                let atomics: Vec<&Entry> = ATOMIC.iter().filter_map(|o| l.e(&ty, o)).collect();
                let Some(first) = views.first() else { continue };
                let al = crate::seqc::alphabet(first, thorough);
                // every view on every pair of values
                for v in &views {
                    for (i, x) in al.iter().enumerate() {
                        let ys: Vec<u128> = if matches!(v.op.as_str(), "get_mut" | "as_ptr" | "from_ptr" | "as_bits" | "new" | "from") { al.clone() } else { vec![al[(i + 1) % al.len()]] };
                        for y in ys {
                            let s = g.scen(format!("{} {x:#x} {y:#x}", v.name), vec![vec![g.op(v, 0, (y, 0), (0, 0))]], vec![g.obj(v, g.addr(), *x)]);
                            g.out.push(s);
                        }
                    }
                }
                let any: Vec<&Entry> = views.iter().copied().filter(|e| e.op != "layout").chain(atomics.iter().copied()).collect();
                let core: Vec<&Entry> = any.iter().copied().filter(|e| CORE.contains(&e.op.as_str()) || ATOMIC.contains(&e.op.as_str())).collect();
                let mut seqs: Vec<Vec<&Entry>> = vec![];
                for a in &any {
                    for b in &any {
                        seqs.push(vec![a, b]);
                    }
                }
                if deep {
                    let of = if thorough { &any } else { &core };
                    for a in of {
                        for b in of {
                            for c in of {
                                if [a, b, c].iter().any(|e| l.views.contains_key(&e.name)) {
                                    seqs.push(vec![a, b, c]);
                                }
                            }
                        }
                    }
                }
                for q in seqs {
                    for set in 0..if q.len() == 2 || thorough { 2 } else { 1 } {
                        let init = al[if set == 0 { al.len() - 1 } else { al.len() / 2 }];
                        let mut cur = Some(init);
                        let acts: Vec<_> = q
                            .iter()
                            .enumerate()
                            .map(|(k, e)| {
                                let (mut a, b) = crate::scen::operands(e, set, 0, k, init, cur);
                                if kind(&e.op) == Kind::Cas {
                                    a = cur.unwrap_or(a);
                                }
                                cur = cur.and_then(|x| spec(e, x, a, b).ok()).map(|v| v[0].0);
                                let o = orderings(&e.op);
                                g.op(e, 0, (a, b), o[k % o.len()])
                            })
                            .collect();
                        let name = format!("{} v{set}", q.iter().map(|e| e.name.as_str()).collect::<Vec<_>>().join("; "));
                        let s = g.scen(name, vec![acts], vec![g.obj(first, g.addr(), init)]);
                        g.out.push(s);
                    }
                }
            }
            for s in &mut g.out {
                s.footprint = !s.name.contains("static");
            }
            let out = std::mem::take(&mut g.out);
            us.push(Unit::new(&l, out));
        }
    }
    us
}
fn u_c20(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    let mut us = vec![];
    for l in loaded.iter().flat_map(|l| distinct(l, thorough)) {
        let mut g = G::new(&l);
        for (ty, bits) in l.types() {
            if ty == "ptr0" || ty == "ptr24" {
                continue;
            }
            let ops = names_of(&l, &ty);
            let ops = strs(&ops);
            let cl = class(l.cfg, &l.world.cpu, bits);
            let full = cl == Class::Double || cl == Class::Lock || cl == Class::Masked;
            g.pairs(&ty, &ops, if full || thorough { &ops } else { REP }, if thorough { &[0, 1] } else { &[0] }, if thorough { &[0, 1, 2] } else { &[0] });
        }
        for s in &mut g.out {
            s.lin = false;
            s.race = true;
            s.tail.clear();
        }
        let out = std::mem::take(&mut g.out);
        us.push(Unit::new(&l, out));
    }
    us
}
fn u_c21(loaded: &[Loaded], thorough: bool) -> Vec<Unit> {
    let mut us = vec![];
    for l in loaded.iter().flat_map(|l| distinct(l, thorough)) {
        let nv = crate::asm::nvariants(&l.world.prog, l.world.arch).clamp(1, if thorough { 64 } else { 8 });
        // at least two rounds: the condition flags start as all zeros and as all ones
        for v in 0..nv.max(2) {
            let mut g = G::new(&l);
            for (ty, bits) in l.types() {
                if ty == "ptr0" || ty == "ptr24" {
                    continue;
                }
                g.singles(&ty, if thorough { &[0, 1] } else { &[0] }, true);
                if v == 0 && (thorough || is_int(&ty) && ty.starts_with('u')) && class(l.cfg, &l.world.cpu, bits) != Class::Lock {
                    // retry paths
                    let ops = names_of(&l, &ty);
                    g.pairs(&ty, &strs(&ops), &["store", "cas"], &[0], &[1]);
                }
            }
            let fences: Vec<Entry> = l.entries.values().filter(|e| e.t == T::None).cloned().collect();
            for e in &fences {
                for o in orderings(&e.op) {
                    if let Some(x) = l.e("u8", "load") {
                        let obj = g.obj(x, g.addr(), 0);
                        let s = g.scen(format!("{} {}", e.name, ord_name(o.0)), vec![vec![g.op(e, 0, (0, 0), o)]], vec![obj]);
                        g.out.push(s);
                    }
                }
            }
            let out = std::mem::take(&mut g.out);
            let mut u = Unit::new(&l, out);
            u.contract = true;
            u.alloc = v % nv;
            u.garbage = v;
            u.name = format!("{} registers #{v}", u.name);
            us.push(u);
        }
    }
    us
}

/// Litmus programs on every machine: hardware memory models where the code is assembly, the language's model elsewhere.
fn memory(loaded: &[Loaded], thorough: bool, shapes: &[&'static Shape], full: &[&str], mixed: Option<bool>) -> Vec<Unit> {
    let mut us = vec![];
    for l in loaded {
        let machines = distinct(l, thorough);
        let mut had_lock: Vec<u32> = vec![];
        for w in machines {
            let tys = w.types();
            let native: String = tys.iter().filter(|x| x.0.starts_with('u') && x.1 <= l.cfg.native).map(|x| x.0.clone()).last().unwrap_or("u8".into());
            for (ty, bits) in &tys {
                let cl = class(l.cfg, &w.world.cpu, *bits);
                // one machine of a build is enough where the machines do not differ
                if cl == Class::Native && w.world.cpu.name != (l.cfg.cpus)()[0].name && !(cl == Class::Native && thorough) {
                    continue;
                }
                let rep = ty.starts_with('u') || ty == "bool" || ty == "ptr";
                let key = *bits > l.cfg.native;
                let eng = match cl {
                    Class::Native | Class::Double => Eng::Axi,
                    Class::Lock => Eng::Op,
                    Class::Masked if l.cfg.name == "thumbv6m-cs" => Eng::Op,
                    Class::Masked => continue,
                };
                // the lock code is the same on all machines of a build that use it
                if eng == Eng::Op && cl == Class::Lock && rep {
                    if had_lock.contains(bits) && !thorough {
                        continue;
                    }
                    had_lock.push(*bits);
                }
                let lead = matches!((l.cfg.name, *bits), ("rv64noout", 128) | ("rv32imac", 64));
                let mut g = G::new(&w);
                if eng == Eng::Op && !thorough {
                    g.max = 1_000_000;
                }
                for sh in shapes {
                    let deep = sh.th.len() >= 3 && eng == Eng::Op && !lead && !thorough;
                    let is_full = full.contains(&sh.name);
                    if !rep && !is_full && !(thorough && key) || deep && sh.th.len() >= 4 {
                        continue;
                    }
                    if deep && l.cfg.name == "armv5linux" {
                        continue;
                    }
                    if eng == Eng::Op && !rep && !lead && !thorough {
                        continue;
                    }
                    let all: &[usize] = if sh.objs == 3 { &[0, 1, 2] } else if sh.objs == 2 { &[0, 1] } else { &[0] };
                    let wide = is_full && (eng == Eng::Axi || lead || thorough || sh.th.len() == 2 && l.cfg.name == "x64");
                    litmus::family(&mut g, sh, ty, &native, all, wide, &[0], !rep || deep);
                    if sh.objs > 1 && key && rep {
                        litmus::family(&mut g, sh, ty, &native, &[1], false, &[0], deep);
                        litmus::family(&mut g, sh, ty, &native, &[0], false, &[0], deep);
                    }
                }
                if let Some(sc) = mixed.filter(|_| eng == Eng::Axi || lead || thorough) {
                    litmus::mixed(&mut g, ty, sc, !rep);
                }
                let scens = std::mem::take(&mut g.out);
                // (small units share the work among the cores better)
                for (i, c) in scens.chunks(60).enumerate() {
                    let mut u = Unit::new(&w, c.to_vec());
                    u.eng = eng;
                    u.name = format!("{} {ty} {} {i}", u.name, if eng == Eng::Axi { "candidate executions" } else { "machine" });
                    us.push(u);
                }
            }
        }
    }
    us
}
/// A compiler fence must reach code generation as a fence for one thread, at least as strong as asked for.
fn m_c22(loaded: &[Loaded], _: &Args, _: Instant, t: &Mutex<Tally>) {
    use crate::ir::Ord_;
    for l in loaded {
        for l in distinct(l, false) {
            let l = &l;
            for (name, single) in [("compiler_fence", true), ("fence", false)] {
                let Some(e) = l.entries.get(&format!("h_{name}")) else { continue };
                for (o, need) in [(1, Ord_::Rel), (2, Ord_::Acq), (3, Ord_::AcqRel), (4, Ord_::Sc)] {
                    let act = Act::Op(crate::lin::OpInfo { e: e.clone(), obj: 0, a: 0, b: 0, o1: o, o2: 0 });
                    let auto = l.world.auto(0, &steps_of(&[act.clone()], &l.world, &[]));
                    let mut auto = auto.borrow_mut();
                    let mut seen = vec![];
                    let mut n = 0;
                    let r = loop {
                        match auto.st(n) {
                            crate::auto::NSt::Done => break Ok(()),
                            crate::auto::NSt::Bad(_, m) => break Err(m.clone()),
                            crate::auto::NSt::Req(r) => {
                                if r.k == crate::interp::K::Fence {
                                    seen.push((r.ord, r.single, r.asm, r.hw));
                                }
                                if r.is_mem() {
                                    break Err("memory access".into());
                                }
                            }
                        }
                        n = auto.next(n, 0, true);
                        if n > 1000 {
                            break Err("does not finish".into());
                        }
                    };
                    let strong = |o: Ord_| match need {
                        Ord_::Rel => matches!(o, Ord_::Rel | Ord_::AcqRel | Ord_::Sc),
                        Ord_::Acq => matches!(o, Ord_::Acq | Ord_::AcqRel | Ord_::Sc),
                        Ord_::AcqRel => matches!(o, Ord_::AcqRel | Ord_::Sc),
                        _ => o == Ord_::Sc,
                    };
                    // (assembly that the compiler must assume to touch memory orders everything for the compiler)
                    let ok = seen.iter().any(|(o, s, asm, _)| *asm || strong(*o) && (single || !*s));
                    let mut t = t.lock().unwrap();
                    *t.extra.entry("fence_orderings_checked".into()).or_insert(0) += 1;
                    match r {
                        Err(m) => {
                            t.inconclusive.entry(format!("{name}: {m}")).or_insert((0, l.world.name.clone())).0 += 1;
                        }
                        Ok(()) if ok => {}
                        Ok(()) => {
                            let d = format!("{name}({})", ord_name(o));
                            t.found.push(Found { unit: l.world.name.clone(), scen: d.clone(), why: "fence".into(), msg: format!("{d} emits {seen:?}, weaker than asked for"), trace: vec![], describe: vec![d] });
                        }
                    }
                }
            }
        }
    }
}
fn u_c08(l: &[Loaded], th: bool) -> Vec<Unit> {
    use crate::litmus::*;
    memory(l, th, &[&MP, &MPB, &MPSC, &MPCHAIN, &ISA2, &WRC, &SS, &LB, &LB1, &MPN, &MPNB], &["MP", "MP acq-rel", "S", "LB", "MP no-op acq-rel"], Some(false))
}
fn u_c09(l: &[Loaded], th: bool) -> Vec<Unit> {
    use crate::litmus::*;
    memory(l, th, &[&SB, &IRIW, &RWC, &WRCSC, &W22, &RR, &MPSCALL, &WRWC, &ZSC, &SBN], &["SB", "R", "2+2W", "SB no-op"], Some(true))
}
fn u_c10(l: &[Loaded], th: bool) -> Vec<Unit> {
    use crate::litmus::*;
    memory(l, th, &[&CORR, &CORR2, &COWR, &CORW, &COWW, &CORMW, &CORMWN], &["CoRR", "CoWR", "CoRW", "CoWW", "CoRMW"], None)
}
fn u_c22(l: &[Loaded], th: bool) -> Vec<Unit> {
    use crate::litmus::*;
    memory(l, th, &[&F_MP, &F_MPB, &F_MPR, &F_MPA, &F_S, &F_LB, &F_LB2, &F_ISA2, &F_WRC, &F_SB, &F_IRIW, &F_RWC, &F_22W, &F_R, &F_WRWC], &[], None)
}
const MEMORY: &[&str] = &["x64", "x64cx16", "i686", "a64", "a64musl", "a64noout", "a64lse", "a64lse2", "a64lselse2", "a64full", "a64apple", "rv64", "rv64noout", "rv64zabha", "rv64zacas", "rv32imac", "rv32zabha", "rv32zacas", "armv5linux", "ppc64", "ppc64le", "s390x", "wasm", "thumbv6m-cs", "a64win", "x64tsan", "x64old", "a64old", "a64oldfull", "a64lsfe", "rv64old", "rv32old", "s390x-z14", "x64avx", "a64lse128", "a64rcpc3", "rv32i-smp", "rv32i-zaamo-smp", "rv32i-zabha-smp", "rv64im-zaamo-smp", "rv32i-cs"];

fn m_c03(loaded: &[Loaded], a: &Args, d: Instant, t: &Mutex<Tally>) {
    crate::overlap::run(loaded, a, d, t, false)
}
fn m_c14(loaded: &[Loaded], a: &Args, d: Instant, t: &Mutex<Tally>) {
    crate::overlap::run(loaded, a, d, t, true)
}
pub fn plan(p: &str, thorough: bool) -> Option<Plan> {
    let _ = thorough;
    let sc = "memory is sequentially consistent in this exploration (weaker memory: C08-C10, C20, C22); programs of at most three threads and three calls per thread; stated operand alphabets";
    let isa = "the instruction semantics in engine/src/asm_*.rs and the IR semantics in engine/src/interp.rs";
    let all = || ALL.to_vec();
    let mk = |cfgs: Vec<&'static str>, units: fn(&[Loaded], bool) -> Vec<Unit>, more: Option<fn(&[Loaded], &Args, Instant, &Mutex<Tally>)>| Plan { cfgs, units, more, assumptions: vec![sc, isa] };
    let wk = |units: fn(&[Loaded], bool) -> Vec<Unit>, more: Option<fn(&[Loaded], &Args, Instant, &Mutex<Tally>)>| Plan { cfgs: MEMORY.to_vec(), units, more, assumptions: vec!["programs of two to four threads of the stated shapes; loops of load-linked/store-conditional pairs fail at most once (two threads) or never (more); what the crate caches is warm", "the axiomatic memory models in engine/src/weak.rs (RC11, x86/s390x TSO, Armv8, RVWMO, Power) and the compiler mappings of language-level atomics written there", isa] };
    let masked_no_double = "double-width loads may be implemented by a compare-exchange and so need writable memory; loads of other widths may not";
    Some(match p {
        "C01" => mk(NATIVE_SMP.to_vec(), u_c01, None),
        "C02" => mk(DOUBLE.to_vec(), u_c02, None),
        "C03" => mk(LOCKED.to_vec(), u_c03, Some(m_c03)),
        "C04" => {
            let mut p = mk(MASKED.to_vec(), u_c04, None);
            p.assumptions.push("at most two handlers, each arriving once");
            p
        }
        "C05" => mk(all(), u_c05, Some(m_c05)),
        "C06" => mk(all(), u_c06, Some(m_c06)),
        "C07" => mk(all(), u_c07, Some(m_c07)),
        "C08" => wk(u_c08, None),
        "C09" => wk(u_c09, None),
        "C10" => wk(u_c10, None),
        "C22" => wk(u_c22, Some(m_c22)),
        "C11" => mk(all(), u_c11, None),
        "C12" => {
            let mut p = mk(DETECT.to_vec(), u_c12, None);
            p.assumptions.push("the operating system's answers describe the CPU truthfully or are missing; architecturally impossible combinations are excluded");
            p
        }
        "C13" => mk(all(), u_c13, Some(m_c13)),
        "C14" => mk(LOCKED.to_vec(), u_c14, Some(m_c14)),
        "C15" => mk(all(), u_c15, Some(m_c15)),
        "C16" => mk(all(), u_c16, Some(m_c16)),
        "C17" => mk(all(), u_c17, Some(m_c17)),
        "C18" => {
            let mut p = mk(all(), u_c18, None);
            p.assumptions.push(masked_no_double);
            p
        }
        "C19" => mk(all(), u_c19, None),
        "C20" => mk(all(), u_c20, None),
        "C21" => mk(all(), u_c21, None),
        "C23" => Plan {
            cfgs: vec![],
            units: u_none,
            more: None,
            assumptions: vec!["the plain type's own formatting, serialisation and conversions are the oracle", "values: all of 8 bits (all of 16 bits in the thorough tier), boundary values of wider types; 4368 combinations of formatting flags; the token and text grammar in native/conv/src/main.rs", "one change by another thread per formatting, at each of its writes"],
        },
        _ => return None,
    })
}
