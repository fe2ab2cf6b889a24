//! x86 and x86-64 (Intel syntax).
use crate::asm::*;
use crate::interp::*;
use crate::ir::*;

const N64: [&str; 16] = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"];
const N32: [&str; 8] = ["eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"];
const N16: [&str; 8] = ["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"];
const N8: [&str; 8] = ["al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"];
const N8H: [&str; 4] = ["ah", "ch", "dh", "bh"];

/// (index, bits, shift)
pub fn reg(n: &str) -> Option<(usize, u32, u32)> {
    if let Some(i) = N64.iter().position(|x| *x == n) {
        return Some((i, 64, 0));
    }
    if let Some(i) = N32.iter().position(|x| *x == n) {
        return Some((i, 32, 0));
    }
    if let Some(i) = N16.iter().position(|x| *x == n) {
        return Some((i, 16, 0));
    }
    if let Some(i) = N8.iter().position(|x| *x == n) {
        return Some((i, 8, 0));
    }
    if let Some(i) = N8H.iter().position(|x| *x == n) {
        return Some((i, 8, 8));
    }
    for p in ["xmm", "ymm", "zmm"] {
        if let Some(r) = n.strip_prefix(p) {
            let i: usize = r.parse().ok()?;
            return if i < 16 { Some((16 + i, 128, 0)) } else { None };
        }
    }
    if let Some(r) = n.strip_prefix('r') {
        let (d, b) = match r.chars().last()? {
            'd' => (&r[..r.len() - 1], 32),
            'w' => (&r[..r.len() - 1], 16),
            'b' => (&r[..r.len() - 1], 8),
            _ => (r, 64),
        };
        let i: usize = d.parse().ok()?;
        return if (8..16).contains(&i) { Some((i, b, 0)) } else { None };
    }
    None
}
pub fn name(a: Arch, r: usize, m: Option<char>, _bits: u32) -> String {
    if r >= 16 {
        return format!("xmm{}", r - 16);
    }
    let bits = match m {
        Some('b') => 8,
        Some('h') => return N8H[r & 3].into(),
        Some('w') => 16,
        Some('k') => 32,
        Some('q') => 64,
        None => if a == Arch::X64 { 64 } else { 32 },
        _ => 64,
    };
    match bits {
        64 => N64[r].into(),
        32 if r < 8 => N32[r].into(),
        16 if r < 8 => N16[r].into(),
        8 if r < 8 => N8[r].into(),
        32 => format!("r{r}d"),
        16 => format!("r{r}w"),
        _ => format!("r{r}b"),
    }
}

const CF: u128 = 1;
const PF: u128 = 4;
const AF: u128 = 16;
const ZF: u128 = 64;
const SF: u128 = 128;
const OF: u128 = 2048;
const ALL: u128 = CF | PF | AF | ZF | SF | OF;

enum O {
    R(usize, u32, u32),
    M((u128, D), u32),
    I(i128),
}

type A<'x, 'y> = Am<'x, 'y>;

fn operand(m: &A, s: &str) -> Result<O, Stop> {
    let t = s.trim().to_lowercase();
    if let Some(b) = t.find('[') {
        let pre = t[..b].trim();
        let bits = match pre.trim_end_matches("ptr").trim() {
            "byte" => 8,
            "word" => 16,
            "dword" => 32,
            "qword" => 64,
            "xmmword" | "oword" => 128,
            "" => 0,
            _ => return unsup(format!("operand {s}")),
        };
        let inner = &t[b + 1..t.rfind(']').unwrap_or(t.len())];
        let mut sum: u128 = 0;
        let mut dep = 0;
        let mut cur = String::new();
        let mut terms = vec![];
        let mut sign = 1i128;
        for c in inner.chars().chain("+".chars()) {
            if c == '+' || c == '-' {
                if !cur.trim().is_empty() {
                    terms.push((sign, cur.trim().to_string()));
                }
                cur.clear();
                sign = if c == '-' { -1 } else { 1 };
            } else {
                cur.push(c);
            }
        }
        for (sg, t) in terms {
            let (rn, scale) = match t.split_once('*') {
                Some((x, y)) => {
                    if let Some(k) = parse_imm(y) {
                        (x.trim().to_string(), k)
                    } else {
                        (y.trim().to_string(), parse_imm(x).unwrap_or(1))
                    }
                }
                None => (t.clone(), 1),
            };
            if let Some((i, w, _)) = reg(&rn) {
                let (v, d) = m.r(i);
                dep |= d;
                sum = sum.wrapping_add(mask(v, w).wrapping_mul(scale as u128));
            } else if let Some(k) = parse_imm(&rn) {
                sum = sum.wrapping_add((sg * k * scale) as u128);
            } else {
                return unsup(format!("address {s}"));
            }
        }
        return Ok(O::M((sum & m.m.c.pmask() as u128, dep), bits));
    }
    if let Some((i, w, sh)) = reg(&t) {
        return Ok(O::R(i, w, sh));
    }
    if let Some(k) = parse_imm(&t) {
        return Ok(O::I(k));
    }
    unsup(format!("operand {s}"))
}
fn width(a: &O, b: Option<&O>) -> u32 {
    for o in [Some(a), b].into_iter().flatten() {
        match o {
            O::R(_, w, _) => return *w,
            O::M(_, w) if *w != 0 => return *w,
            _ => {}
        }
    }
    32
}
fn get(m: &mut A, o: &O, w: u32) -> Result<(u128, D), Stop> {
    Ok(match o {
        O::R(i, w, sh) => {
            let (v, d) = m.r(*i);
            (mask(v >> sh, *w), d)
        }
        O::I(k) => (mask(*k as u128, w), 0),
        O::M(a, _) => m.load(*a, w / 8, 0)?,
    })
}
fn put(m: &mut A, o: &O, w: u32, v: (u128, D)) -> Result<(), Stop> {
    match o {
        O::R(i, rw, sh) => {
            let (old, od) = m.r(*i);
            let nv = match *rw {
                64 | 128 => v,
                32 => (mask(v.0, 32), v.1),
                n => ((old & !(mask(!0, n) << sh)) | (mask(v.0, n) << sh), v.1 | od),
            };
            m.set(*i, nv);
            Ok(())
        }
        O::M(a, _) => m.store(*a, w / 8, v, 0),
        O::I(_) => unsup("store to immediate"),
    }
}
fn szp(m: &mut A, r: u128, w: u32) {
    m.flags &= !(ZF | SF | PF);
    if mask(r, w) == 0 {
        m.flags |= ZF
    }
    if r >> (w - 1) & 1 == 1 {
        m.flags |= SF
    }
    if (r as u8).count_ones() % 2 == 0 {
        m.flags |= PF
    }
}
fn setf(m: &mut A, f: u128, on: bool) {
    if on {
        m.flags |= f
    } else {
        m.flags &= !f
    }
}
fn alu(m: &mut A, op: &str, x: u128, y: u128, w: u32, d: D) -> Result<u128, Stop> {
    let (x, y) = (mask(x, w), mask(y, w));
    let c = m.flags & CF;
    let top = |v: u128| v >> (w - 1) & 1 == 1;
    let r;
    match op {
        "add" | "adc" | "xadd" => {
            let ci = if op == "adc" { c } else { 0 };
            let (s1, o1) = x.overflowing_add(y);
            let (s, o2) = s1.overflowing_add(ci);
            r = mask(s, w);
            let carry = if w == 128 { o1 || o2 } else { s >> w != 0 };
            setf(m, CF, carry);
            setf(m, OF, top(x) == top(y) && top(r) != top(x));
            setf(m, AF, (x ^ y ^ r) & 16 != 0);
        }
        "sub" | "sbb" | "cmp" | "neg" => {
            let ci = if op == "sbb" { c } else { 0 };
            r = mask(x.wrapping_sub(y).wrapping_sub(ci), w);
            setf(m, CF, x < y || (ci == 1 && x == y));
            setf(m, OF, top(x) != top(y) && top(r) != top(x));
            setf(m, AF, (x ^ y ^ r) & 16 != 0);
        }
        "and" | "or" | "xor" | "test" => {
            r = match op {
                "and" | "test" => x & y,
                "or" => x | y,
                _ => x ^ y,
            };
            setf(m, CF | OF | AF, false);
        }
        "inc" => {
            r = mask(x.wrapping_add(1), w);
            setf(m, OF, !top(x) && top(r));
        }
        "dec" => {
            r = mask(x.wrapping_sub(1), w);
            setf(m, OF, top(x) && !top(r));
        }
        _ => return unsup(op),
    }
    szp(m, r, w);
    if matches!(op, "adc" | "sbb") {
        m.fdep |= d;
    } else {
        m.fdep = d;
    }
    Ok(r)
}
fn cond(m: &A, c: &str) -> Option<bool> {
    let f = m.flags;
    let (cf, zf, sf, of, pf) = (f & CF != 0, f & ZF != 0, f & SF != 0, f & OF != 0, f & PF != 0);
    Some(match c {
        "e" | "z" => zf,
        "ne" | "nz" => !zf,
        "b" | "c" | "nae" => cf,
        "ae" | "nb" | "nc" => !cf,
        "a" | "nbe" => !cf && !zf,
        "be" | "na" => cf || zf,
        "l" | "nge" => sf != of,
        "ge" | "nl" => sf == of,
        "g" | "nle" => !zf && sf == of,
        "le" | "ng" => zf || sf != of,
        "s" => sf,
        "ns" => !sf,
        "o" => of,
        "no" => !of,
        "p" | "pe" => pf,
        "np" | "po" => !pf,
        _ => return None,
    })
}

pub fn exec(m: &mut A, ins: &Ins) -> Result<Next, Stop> {
    let (lock, mn) = match ins.mn.strip_prefix("lock ") {
        Some(r) => (true, r),
        None => (false, ins.mn.as_str()),
    };
    let mut ops = vec![];
    if !mn.starts_with('j') {
        for o in &ins.ops {
            ops.push(operand(m, o)?);
        }
    }
    if lock && !matches!(ops.first(), Some(O::M(..))) {
        return Err(Stop::Bad(Why::Illegal, format!("lock prefix without memory destination: {}", ins.mn)));
    }
    match mn {
        "nop" | "endbr64" => {}
        "pause" | "rep nop" => {
            m.m.ask(Req::new(K::Pause))?;
        }
        "mov" | "movabs" => {
            let w = width(&ops[0], Some(&ops[1]));
            let v = get(m, &ops[1], w)?;
            put(m, &ops[0], w, v)?;
        }
        "lea" => {
            let O::M(a, _) = &ops[1] else { return m.unknown(ins) };
            let a = *a;
            let w = width(&ops[0], None);
            put(m, &ops[0], w, a)?;
        }
        "movzx" | "movsx" | "movsxd" => {
            let w = width(&ops[0], None);
            let sw = width(&ops[1], None);
            let (v, d) = get(m, &ops[1], sw)?;
            let v = if mn == "movzx" { v } else { sext(v, sw) as u128 };
            put(m, &ops[0], w, (mask(v, w), d))?;
        }
        "push" | "pop" => return m.unknown(ins),
        "xchg" => {
            let w = width(&ops[0], Some(&ops[1]));
            match (&ops[0], &ops[1]) {
                (O::M(a, _), r) | (r, O::M(a, _)) => {
                    let v = get(m, r, w)?;
                    let old = m.rmw(RmwOp::Xchg, *a, w / 8, v, HW_SC)?;
                    put(m, r, w, old)?;
                }
                (a, b) => {
                    let (x, y) = (get(m, a, w)?, get(m, b, w)?);
                    put(m, a, w, y)?;
                    put(m, b, w, x)?;
                }
            }
        }
        "add" | "sub" | "and" | "or" | "xor" | "adc" | "sbb" => {
            let w = width(&ops[0], Some(&ops[1]));
            let y = get(m, &ops[1], w)?;
            if lock {
                let O::M(a, _) = ops[0] else { unreachable!() };
                if matches!(mn, "adc" | "sbb") {
                    let c = m.flags & CF;
                    let op = if mn == "adc" { RmwOp::Add } else { RmwOp::Sub };
                    let old = m.rmw(op, a, w / 8, (mask(y.0.wrapping_add(c), w), y.1), HW_SC)?;
                    alu(m, mn, old.0, y.0, w, old.1 | y.1)?;
                } else {
                    let op = match mn {
                        "add" => RmwOp::Add,
                        "sub" => RmwOp::Sub,
                        "and" => RmwOp::And,
                        "or" => RmwOp::Or,
                        _ => RmwOp::Xor,
                    };
                    let old = m.rmw(op, a, w / 8, y, HW_SC)?;
                    alu(m, mn, old.0, y.0, w, old.1 | y.1)?;
                }
            } else {
                let x = get(m, &ops[0], w)?;
                // xor r, r clears without depending on the old value
                let same = ins.ops[0] == ins.ops[1] && matches!(mn, "xor" | "sub");
                let d = if same { 0 } else { x.1 | y.1 | if matches!(mn, "adc" | "sbb") { m.fdep } else { 0 } };
                let r = alu(m, mn, x.0, y.0, w, d)?;
                put(m, &ops[0], w, (r, d))?;
            }
        }
        "cmp" | "test" => {
            let w = width(&ops[0], Some(&ops[1]));
            let x = get(m, &ops[0], w)?;
            let y = get(m, &ops[1], w)?;
            alu(m, mn, x.0, y.0, w, x.1 | y.1)?;
        }
        "inc" | "dec" | "neg" | "not" => {
            let w = width(&ops[0], None);
            let comp = |m: &mut A, x: (u128, D)| -> Result<u128, Stop> {
                Ok(match mn {
                    "not" => mask(!x.0, w),
                    "neg" => alu(m, "neg", 0, x.0, w, x.1)?,
                    o => alu(m, o, x.0, 0, w, x.1)?,
                })
            };
            if let O::M(a, _) = ops[0] {
                if lock {
                    let (op, v) = match mn {
                        "inc" => (RmwOp::Add, 1),
                        "dec" => (RmwOp::Sub, 1),
                        "not" => (RmwOp::Xor, mask(!0, w)),
                        _ => return locked_neg(m, a, w),
                    };
                    let old = m.rmw(op, a, w / 8, (v, 0), HW_SC)?;
                    comp(m, old)?;
                    return Ok(Next::Fall);
                }
            }
            let x = get(m, &ops[0], w)?;
            let r = comp(m, x)?;
            put(m, &ops[0], w, (r, x.1))?;
        }
        "shl" | "shr" | "sar" | "sal" | "rol" | "ror" => {
            let w = width(&ops[0], None);
            let x = get(m, &ops[0], w)?;
            let n = get(m, &ops[1], 8)?;
            let k = (n.0 as u32) & if w == 64 { 63 } else { 31 };
            let r = match mn {
                "shl" | "sal" => mask(if k >= w { 0 } else { x.0 << k }, w),
                "shr" => x.0 >> k.min(127),
                "sar" => mask((sext(x.0, w) >> k.min(127)) as u128, w),
                "rol" => { let k = k % w; if k == 0 { x.0 } else { mask(x.0 << k | x.0 >> (w - k), w) } }
                _ => { let k = k % w; if k == 0 { x.0 } else { mask(x.0 >> k | x.0 << (w - k), w) } }
            };
            if k != 0 {
                m.flags ^= CF | OF; // not modelled precisely, but changed
                if mn.starts_with('s') {
                    szp(m, r, w);
                }
            }
            put(m, &ops[0], w, (r, x.1 | n.1))?;
        }
        "shld" | "shrd" => {
            let w = width(&ops[0], None);
            let x = get(m, &ops[0], w)?;
            let y = get(m, &ops[1], w)?;
            let n = get(m, &ops[2], 8)?;
            let k = (n.0 as u32) & if w == 64 { 63 } else { 31 };
            let r = if k == 0 { x.0 } else if mn == "shld" { mask(x.0 << k | y.0 >> (w - k), w) } else { mask(x.0 >> k | y.0 << (w - k), w) };
            if k != 0 {
                m.flags ^= CF | OF;
                szp(m, r, w);
            }
            put(m, &ops[0], w, (r, x.1 | y.1 | n.1))?;
        }
        "bts" | "btr" | "btc" | "bt" => {
            let w = width(&ops[0], Some(&ops[1]));
            let n = get(m, &ops[1], w)?;
            let reg_src = matches!(ops[1], O::R(..));
            match &ops[0] {
                O::M(a, _) => {
                    let bit = n.0 & (w as u128 - 1);
                    let off = if reg_src { (sext(n.0, w) >> w.trailing_zeros()) * (w as i128 / 8) } else { 0 };
                    let a = (a.0.wrapping_add(off as u128), a.1 | n.1);
                    let b = 1u128 << bit;
                    let (op, v) = match mn {
                        "bts" => (RmwOp::Or, b),
                        "btr" => (RmwOp::And, mask(!b, w)),
                        _ => (RmwOp::Xor, b),
                    };
                    let old = if mn == "bt" {
                        m.load(a, w / 8, 0)?
                    } else if lock {
                        m.rmw(op, a, w / 8, (v, n.1), HW_SC)?
                    } else {
                        let old = m.load(a, w / 8, 0)?;
                        m.store(a, w / 8, (rmw_val(op, old.0, v, w)?, old.1 | n.1), 0)?;
                        old
                    };
                    setf(m, CF, old.0 >> bit & 1 == 1);
                    m.fdep = old.1;
                }
                o => {
                    let x = get(m, o, w)?;
                    let bit = n.0 & (w as u128 - 1);
                    setf(m, CF, x.0 >> bit & 1 == 1);
                    let b = 1u128 << bit;
                    let r = match mn {
                        "bts" => x.0 | b,
                        "btr" => x.0 & !b,
                        "btc" => x.0 ^ b,
                        _ => x.0,
                    };
                    m.fdep = x.1 | n.1;
                    if mn != "bt" {
                        put(m, o, w, (r, x.1 | n.1))?;
                    }
                }
            }
        }
        "xadd" => {
            let w = width(&ops[0], Some(&ops[1]));
            let y = get(m, &ops[1], w)?;
            let old = match ops[0] {
                O::M(a, _) if lock => m.rmw(RmwOp::Add, a, w / 8, y, HW_SC)?,
                _ => {
                    let old = get(m, &ops[0], w)?;
                    put(m, &ops[0], w, (mask(old.0.wrapping_add(y.0), w), old.1 | y.1))?;
                    old
                }
            };
            alu(m, "add", old.0, y.0, w, old.1 | y.1)?;
            put(m, &ops[1], w, old)?;
        }
        "cmpxchg" => {
            let w = width(&ops[0], Some(&ops[1]));
            let v = get(m, &ops[1], w)?;
            let acc = O::R(0, w, 0);
            let c = get(m, &acc, w)?;
            let (old, d) = match ops[0] {
                O::M(a, _) if lock => {
                    let (o, _, d) = m.cas(a, w / 8, c, v, HW_SC)?;
                    (o, d)
                }
                _ => {
                    let o = get(m, &ops[0], w)?;
                    if o.0 == c.0 {
                        put(m, &ops[0], w, v)?;
                    }
                    o
                }
            };
            alu(m, "cmp", c.0, old, w, d)?;
            if old != c.0 {
                put(m, &acc, w, (old, d))?;
            }
        }
        "cmpxchg16b" | "cmpxchg8b" => {
            let w = if mn == "cmpxchg16b" { 64 } else { 32 };
            if w == 64 {
                m.need("cmpxchg16b")?;
            }
            let O::M(a, _) = ops[0] else { return m.unknown(ins) };
            let (ax, dx, bx, cx) = (m.r(0), m.r(2), m.r(3), m.r(1));
            let cat = |l: (u128, D), h: (u128, D)| (mask(l.0, w) | mask(h.0, w) << w, l.1 | h.1);
            let (cmp, new) = (cat(ax, dx), cat(bx, cx));
            let (old, ok, d) = if lock {
                m.cas(a, w / 4, cmp, new, HW_SC)?
            } else {
                let (l, h) = m.load2(a, w / 8, 0)?;
                let old = cat(l, h);
                let wv = if old.0 == cmp.0 { new } else { old };
                m.store2(a, w / 8, ((mask(wv.0, w), wv.1), (wv.0 >> w, wv.1)), 0)?;
                (old.0, old.0 == cmp.0, old.1)
            };
            setf(m, ZF, ok);
            m.fdep = d;
            if !ok {
                let (lo, hi) = (O::R(0, w, 0), O::R(2, w, 0));
                put(m, &lo, w, (mask(old, w), d))?;
                put(m, &hi, w, (old >> w, d))?;
            }
        }
        "vmovdqa" | "movdqa" | "movaps" | "vmovaps" | "vmovdqu" | "movdqu" | "movups" | "vmovups" | "movapd" | "vmovapd" => {
            if mn.starts_with('v') {
                m.need("avx")?;
            }
            let aligned = !mn.contains('u');
            let atomic = m.m.c.cpu.has("avx16atomic");
            match (&ops[0], &ops[1]) {
                (O::R(d, ..), O::M(a, _)) => {
                    if aligned {
                        m.align(a.0 as u64, 16)?;
                    }
                    let v = if atomic && a.0 % 16 == 0 {
                        m.load(*a, 16, 0)?
                    } else {
                        let (l, h) = m.load2(*a, 8, 0)?;
                        (l.0 | h.0 << 64, l.1 | h.1)
                    };
                    m.set(*d, v);
                }
                (O::M(a, _), O::R(s, ..)) => {
                    if aligned {
                        m.align(a.0 as u64, 16)?;
                    }
                    let v = m.r(*s);
                    if atomic && a.0 % 16 == 0 {
                        m.store(*a, 16, v, 0)?;
                    } else {
                        m.store2(*a, 8, ((mask(v.0, 64), v.1), (v.0 >> 64, v.1)), 0)?;
                    }
                }
                (O::R(d, ..), O::R(s, ..)) => {
                    let v = m.r(*s);
                    m.set(*d, v);
                }
                _ => return m.unknown(ins),
            }
        }
        "movq" | "vmovq" | "movd" | "vmovd" => {
            let w = if mn.ends_with('q') { 64 } else { 32 };
            let v = match &ops[1] {
                O::R(i, ..) => m.r(*i),
                O::M(a, _) => m.load(*a, w / 8, 0)?,
                O::I(_) => return m.unknown(ins),
            };
            let v = (mask(v.0, w), v.1);
            match &ops[0] {
                O::R(i, ..) => m.set(*i, v),
                O::M(a, _) => m.store(*a, w / 8, v, 0)?,
                _ => return m.unknown(ins),
            }
        }
        "fild" | "fistp" | "fld" | "fstp" => return m.unknown(ins),
        "mfence" => m.fence(1)?,
        "lfence" | "sfence" => {
            m.m.ask(Req { hw: 0, asm: true, ..Req::new(K::Fence) })?;
        }
        "cpuid" => {
            let (leaf, sub) = (m.r(0).0 as u32, m.r(1).0 as u32);
            let t = &m.m.c.cpu.cpuid;
            let v = t.get(&(leaf, sub)).or_else(|| t.get(&(leaf, 0))).copied().unwrap_or([0; 4]);
            m.set(0, (v[0] as u128, 0));
            m.set(3, (v[1] as u128, 0));
            m.set(1, (v[2] as u128, 0));
            m.set(2, (v[3] as u128, 0));
        }
        "xgetbv" => {
            let v = m.m.c.cpu.xgetbv(m.r(1).0 as u32);
            m.set(0, ((v & 0xffff_ffff) as u128, 0));
            m.set(2, ((v >> 32) as u128, 0));
        }
        "jmp" => return Ok(Next::Jump(ins.ops[0].clone())),
        "clc" => setf(m, CF, false),
        "stc" => setf(m, CF, true),
        "cmc" => m.flags ^= CF,
        "lahf" | "sahf" | "pushf" | "popf" | "pushfq" | "popfq" => return m.unknown(ins),
        _ => {
            if let Some(c) = mn.strip_prefix("cmov") {
                let Some(b) = cond(m, c) else { return m.unknown(ins) };
                let w = width(&ops[0], None);
                let y = get(m, &ops[1], w)?;
                let x = get(m, &ops[0], w)?;
                let d = x.1 | y.1 | m.fdep;
                put(m, &ops[0], w, (if b { y.0 } else { x.0 }, d))?;
            } else if let Some(c) = mn.strip_prefix("set") {
                let Some(b) = cond(m, c) else { return m.unknown(ins) };
                let d = m.fdep;
                put(m, &ops[0], 8, (b as u128, d))?;
            } else if let Some(c) = mn.strip_prefix('j') {
                let Some(b) = cond(m, c) else { return m.unknown(ins) };
                let d = m.fdep;
                m.m.t.ctrl |= if m.m.c.deps { d } else { 0 };
                if b {
                    return Ok(Next::Jump(ins.ops[0].clone()));
                }
            } else {
                return m.unknown(ins);
            }
        }
    }
    let _ = ALL;
    Ok(Next::Fall)
}
/// LOCK NEG: memory becomes 0 - memory, in one step. Done as compare-exchange against the value read in the same step.
fn locked_neg(m: &mut A, a: (u128, D), w: u32) -> Result<Next, Stop> {
    let old = m.rmw(RmwOp::Nand, a, w / 8, (mask(!0, w), 0), HW_SC | HW_NEG)?;
    alu(m, "neg", 0, old.0, w, old.1)?;
    Ok(Next::Fall)
}
