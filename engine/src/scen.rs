//! Generation of the concurrent client programs that are explored.
use crate::cfgs::*;
use crate::lin::OpInfo;
use crate::sc::*;
use crate::spec::*;

/// initial contents
pub fn init_val(e: &Entry, set: usize) -> u128 {
    let w = e.bits;
    let m = |v: u128| crate::ir::mask(v, w);
    match e.t {
        T::Bool => (set & 1) as u128,
        T::Float(_) => fval(w, [1.5, -2.0, 0.0, 1e3][set % 4]),
        _ => {
            let h = w / 2;
            let lo = m((1u128 << h) - 1);
            match set % 4 {
                // low half all ones: the first increment carries
                0 => m((0x1122_3344_5566_7788_1122_3344_5566_7788u128 << h) | lo),
                // low half zero: the first decrement borrows; top bit set
                1 => m((0x8182_8384_8586_8788_8182_8384_8586_8780u128 & !lo) | 1u128 << (w - 1)),
                2 => m(0u128.wrapping_sub(1)),
                _ => m(0x0F1E_2D3C_4B5A_6978_8796_A5B4_C3D2_E1F0),
            }
        }
    }
}
pub fn fval(w: u32, v: f64) -> u128 {
    match w {
        64 => v.to_bits() as u128,
        32 => (v as f32).to_bits() as u128,
        // small values only
        16 => {
            let b = (v as f32).to_bits();
            let (s, x, f) = (b >> 31, ((b >> 23) & 255) as i32, b & 0x7f_ffff);
            if x == 0 { (s << 15) as u128 } else { ((s << 15) | (((x - 127 + 15) as u32) << 10) | (f >> 13)) as u128 }
        }
        128 => {
            let b = v.to_bits();
            let (s, x, f) = ((b >> 63) as u128, ((b >> 52) & 2047) as i64, (b & ((1 << 52) - 1)) as u128);
            if x == 0 { s << 127 } else { (s << 127) | (((x - 1023 + 16383) as u128) << 112) | (f << 60) }
        }
        _ => 0,
    }
}
/// operands of the call by thread `t`
pub fn operands(e: &Entry, set: usize, t: usize, k: usize, init: u128, other: Option<u128>) -> (u128, u128) {
    let w = e.bits;
    let m = |v: u128| crate::ir::mask(v, w);
    let h = w / 2;
    let uniq = |t: usize, k: usize| -> u128 {
        let n = (t * 3 + k + 1) as u128;
        match e.t {
            T::Bool => ((set >> t) as u128 + k as u128) & 1,
            T::Float(_) => fval(w, [2.5, -0.75, 7.0, -3.0, 0.5, 16.0, 11.0, -9.0, 4.25][(t * 3 + k) % 9]),
            _ => match set % 2 {
                0 => m((n * 0x11) << h | (0x10 + n)),
                _ => m((m(!0) ^ (n << h)) ^ (n * 5)),
            },
        }
    };
    let op = e.op.as_str();
    let v = uniq(t, k);
    match op {
        "cas" | "casw" => {
            let exp = match (set + t + k) % 2 {
                1 => other.unwrap_or(init),
                _ => init,
            };
            (exp, if v == exp && e.t != T::Bool { m(v ^ 1) } else { v })
        }
        "fetch_update" => {
            let decline = if (set + t) % 2 == 1 && e.t != T::Bool { init } else { other.filter(|_| set % 3 == 2).unwrap_or(uniq(7, 0)) };
            (v, if e.t == T::Bool { (set as u128 + t as u128) & 1 } else { decline })
        }
        _ if op.contains("bit_") => (([h - 1, h, w - 1, 0][(set * 2 + t + k) % 4] + if k == 1 { w } else { 0 }) as u128, 0),
        "fetch_ptr_add" | "fetch_ptr_sub" | "fetch_byte_add" | "fetch_byte_sub" => (m([1u128, 3, 0u128.wrapping_sub(2)][(t + k) % 3]), 0),
        "add" | "fetch_add" | "sub" | "fetch_sub" if !matches!(e.t, T::Float(_)) => (m([1u128, 3, (1 << h) + 5][(t + k) % 3]), 0),
        _ => (v, 0),
    }
}
/// what `e` would leave behind if it ran alone on `x`
pub fn alone(e: &Entry, x: u128, a: u128, b: u128) -> u128 {
    spec(e, x, a, b).ok().and_then(|v| v.first().map(|r| r.0)).unwrap_or(x)
}

/// three levels of ordering for an operation: weakest, mixed, strongest
pub fn ord_level(op: &str, lvl: usize) -> (u32, u32) {
    match (kind(op), lvl) {
        (_, 0) => (if op == "fence" || op == "compiler_fence" { 2 } else { 0 }, 0),
        (Kind::Cas | Kind::Update, 1) => (3, 2),
        (Kind::Load, 1) => (2, 0),
        (Kind::Store, 1) => (1, 0),
        (_, 1) => (3, 0),
        (Kind::Cas | Kind::Update, 2) => (4, 4),
        (_, 2) => (4, 0),
        // further ones for the thorough tier
        (Kind::Cas | Kind::Update, 3) => (1, 4),
        (Kind::Cas | Kind::Update, _) => (2, 0),
        (Kind::Load, 3) => (2, 0),
        (Kind::Load, _) => (4, 0),
        (Kind::Store, 3) => (1, 0),
        (Kind::Store, _) => (4, 0),
        (Kind::Fence, 3) => (1, 0),
        (Kind::Fence, _) => (2, 0),
        (_, 3) => (1, 0),
        (_, _) => (2, 0),
    }
}

pub struct G<'a> {
    pub l: &'a Loaded,
    pub mode: Mode,
    pub tso: bool,
    pub max: usize,
    pub out: Vec<Scen>,
    /// offset of the first object
    pub off: u64,
    pub tail_load: bool,
}
impl<'a> G<'a> {
    pub fn new(l: &'a Loaded) -> G<'a> {
        let mode = match l.cfg.excl {
            Excl::Irq => Mode::Irq { nest: false, masked: false, fiq: l.cfg.name == "armv4t-fiq" },
            _ => Mode::Smp,
        };
        G { l, mode, tso: false, max: 3_000_000, out: vec![], off: 64, tail_load: true }
    }
    pub fn addr(&self) -> u64 {
        self.l.world.obj_base() + self.off
    }
    pub fn obj(&self, e: &Entry, at: u64, init: u128) -> Obj {
        Obj { addr: at, e: e.clone(), init }
    }
    pub fn op(&self, e: &Entry, obj: usize, ab: (u128, u128), o: (u32, u32)) -> Act {
        Act::Op(OpInfo { e: e.clone(), obj, a: ab.0, b: ab.1, o1: o.0, o2: o.1 })
    }
    pub fn scen(&self, name: String, threads: Vec<Vec<Act>>, objs: Vec<Obj>) -> Scen {
        let tail = if self.tail_load && !objs.is_empty() {
            objs.iter().enumerate().filter_map(|(i, o)| self.l.e(&o.e.ty, "load").map(|e| self.op(e, i, (0, 0), (4, 0)))).collect()
        } else {
            vec![]
        };
        Scen {
            name,
            threads,
            tail,
            objs,
            init: vec![],
            mode: self.mode,
            tso: self.tso,
            solo: false,
            progress: true,
            spurious: true,
            max_states: self.max,
            expect_panic: None,
            expect_flag: None,
            footprint: false,
            fair: false,
            no_mask: false,
            lin: true,
            race: false,
            ro_load: false,
        }
    }
    /// threads of calls on one object; `ts[t]` lists operation names
    pub fn simple(&mut self, ty: &str, ts: &[&[&str]], set: usize, lvl: usize) -> bool {
        self.simple_views(&ts.iter().map(|ops| ops.iter().map(|o| (ty, *o)).collect::<Vec<_>>()).collect::<Vec<_>>(), set, lvl)
    }
    pub fn simple_views(&mut self, ts: &[Vec<(&str, &str)>], set: usize, lvl: usize) -> bool {
        let Some(e0) = self.l.e(ts[0][0].0, ts[0][0].1) else { return false };
        let init = init_val(e0, set);
        let mut threads = vec![];
        let mut left = vec![];
        for (t, ops) in ts.iter().enumerate() {
            let mut acts = vec![];
            let mut last = None;
            for (k, (ty, op)) in ops.iter().enumerate() {
                let Some(e) = self.l.e(ty, op) else { return false };
                let other = if t > 0 { left.first().copied() } else { last };
                let other = other.filter(|o| *o != init);
                let ab = operands(e, set, t, k, init, other);
                let now = alone(e, last.unwrap_or(init), ab.0, ab.1);
                last = Some(now);
                acts.push(self.op(e, 0, ab, ord_level(op, lvl)));
            }
            left.push(last.unwrap_or(init));
            threads.push(acts);
        }
        let obj = self.obj(e0, self.addr(), init);
        let name = format!("{} v{set} o{lvl}", ts.iter().map(|v| v.iter().map(|(t, o)| format!("{t}.{o}")).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" | "));
        let s = self.scen(name, threads, vec![obj]);
        self.out.push(s);
        true
    }
    /// every unordered pair of operations, one call per thread
    pub fn pairs(&mut self, ty: &str, xs: &[&str], ys: &[&str], sets: &[usize], lvls: &[usize]) {
        for (i, x) in xs.iter().enumerate() {
            for (j, y) in ys.iter().enumerate() {
                if let Some(k) = ys.iter().position(|z| z == x) {
                    // both orders are the same client unless values differ; keep one
                    if xs.contains(y) && xs.iter().position(|z| z == y).unwrap() < i && k < ys.len() && j < ys.len() {
                        continue;
                    }
                }
                for s in sets {
                    for l in lvls {
                        self.simple(ty, &[&[x], &[y]], *s, *l);
                    }
                }
            }
        }
    }
    pub fn triples(&mut self, ty: &str, ops: &[&str], sets: &[usize], lvls: &[usize]) {
        for a in 0..ops.len() {
            for b in a..ops.len() {
                for c in b..ops.len() {
                    for s in sets {
                        for l in lvls {
                            self.simple(ty, &[&[ops[a]], &[ops[b]], &[ops[c]]], *s, *l);
                        }
                    }
                }
            }
        }
    }
    /// two calls in the first thread, `m` in the second
    pub fn seqs(&mut self, ty: &str, firsts: &[(&str, &str)], seconds: &[&[&str]], sets: &[usize], lvls: &[usize]) {
        for (x, y) in firsts {
            for z in seconds {
                for s in sets {
                    for l in lvls {
                        self.simple(ty, &[&[x, y], z], *s, *l);
                    }
                }
            }
        }
    }
    /// calls on two objects `dist` bytes apart
    pub fn two_objects(&mut self, ty: &str, dist: u64, ops: &[&str], set: usize, lvl: usize) {
        for x in ops {
            for y in ops {
                let (Some(e), Some(f)) = (self.l.e(ty, x), self.l.e(ty, y)) else { continue };
                let i0 = init_val(e, set);
                let i1 = init_val(e, set + 1);
                let (a0, a1) = (operands(e, set, 0, 0, i0, None), operands(f, set, 1, 0, i1, None));
                let (b0, b1) = (operands(e, set, 0, 1, i1, None), operands(f, set, 1, 1, i0, None));
                let o = (ord_level(x, lvl), ord_level(y, lvl));
                let objs = vec![self.obj(e, self.addr(), i0), self.obj(f, self.addr() + dist, i1)];
                // one call each, on different objects
                let s = self.scen(
                    format!("{ty} {x} at +0 | {y} at +{dist} v{set} o{lvl}"),
                    vec![vec![self.op(e, 0, a0, o.0)], vec![self.op(f, 1, a1, o.1)]],
                    objs.clone(),
                );
                self.out.push(s);
                // crossing
                if x <= y {
                    let s = self.scen(
                        format!("{ty} {x} at +0, then +{dist} | {y} at +{dist}, then +0 v{set} o{lvl}"),
                        vec![vec![self.op(e, 0, a0, o.0), self.op(e, 1, b0, o.0)], vec![self.op(f, 1, a1, o.1), self.op(f, 0, b1, o.1)]],
                        objs,
                    );
                    self.out.push(s);
                }
            }
        }
    }
    /// The client changes the bytes next to the object meanwhile.
    pub fn neighbours(&mut self, ty: &str, ops: &[&str], set: usize, lvl: usize) {
        for x in ops {
            let Some(e) = self.l.e(ty, x) else { continue };
            let sz = (e.bits / 8) as u64;
            let ws = (self.l.world.prog.layout.ptr_bits / 8) as u64;
            let mut places: Vec<u64> = (0..ws.max(sz)).step_by(sz as usize).collect();
            if sz >= ws {
                places = vec![0];
            }
            for at in places {
                let i0 = init_val(e, set);
                let ab = operands(e, set, 0, 0, i0, None);
                let base = self.addr() + at;
                for (na, label) in [(base - 1, "before"), (base + sz, "after")] {
                    let ex = |v: u128| Act::Read { addr: na, size: 1, expect: Some(vec![v]) };
                    let s = self.scen(
                        format!("{ty} {x} at word offset {at} | plain writes to the byte {label} v{set} o{lvl}"),
                        vec![
                            vec![self.op(e, 0, ab, ord_level(x, lvl))],
                            vec![Act::Write { addr: na, size: 1, val: 0xC3 }, ex(0xC3), Act::Write { addr: na, size: 1, val: 0x3C }, ex(0x3C)],
                        ],
                        vec![self.obj(e, base, i0)],
                    );
                    self.out.push(s);
                }
            }
        }
    }
    /// atomics that share a machine word
    pub fn word_mates(&mut self, ty: &str, ops: &[&str], set: usize, lvl: usize) {
        for x in ops {
            for y in ops {
                let (Some(e), Some(f)) = (self.l.e(ty, x), self.l.e(ty, y)) else { continue };
                let sz = (e.bits / 8) as u64;
                let ws = (self.l.world.prog.layout.ptr_bits / 8) as u64;
                if sz >= ws {
                    continue;
                }
                for (p, q) in [(0, sz), (sz, 0), (ws - sz, ws - 2 * sz)] {
                    let (i0, i1) = (init_val(e, set), init_val(e, set + 1));
                    let (a0, a1) = (operands(e, set, 0, 0, i0, None), operands(f, set, 1, 0, i1, None));
                    let s = self.scen(
                        format!("{ty} {x} at word offset {p} | {y} at word offset {q} v{set} o{lvl}"),
                        vec![vec![self.op(e, 0, a0, ord_level(x, lvl))], vec![self.op(f, 1, a1, ord_level(y, lvl))]],
                        vec![self.obj(e, self.addr() + p, i0), self.obj(f, self.addr() + q, i1)],
                    );
                    self.out.push(s);
                }
            }
        }
    }
    /// every operation alone, all orderings, several values; also followed by a second call of each representative
    pub fn singles(&mut self, ty: &str, sets: &[usize], all_orders: bool) {
        let es: Vec<Entry> = self.l.ops(ty).into_iter().cloned().collect();
        for e in &es {
            let ords = if all_orders { orderings(&e.op) } else { vec![ord_level(&e.op, 0), ord_level(&e.op, 2)] };
            for s in sets {
                for o in &ords {
                    let init = init_val(e, *s);
                    let ab = operands(e, *s, 0, 0, init, None);
                    let obj = self.obj(e, self.addr(), init);
                    let sc = self.scen(format!("{ty}.{} v{s} {}/{}", e.op, ord_name(o.0), ord_name(o.1)), vec![vec![self.op(e, 0, ab, *o)]], vec![obj]);
                    self.out.push(sc);
                }
            }
        }
    }
}
pub const REP: &[&str] = &["load", "store", "swap", "cas", "casw", "fetch_add", "fetch_update"];
pub const REP_SMALL: &[&str] = &["load", "store", "cas", "fetch_add"];
