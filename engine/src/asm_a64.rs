//! AArch64.
use crate::asm::*;
use crate::interp::*;
use crate::ir::*;

type A<'x, 'y> = Am<'x, 'y>;
const SPECIAL: usize = 31;

/// (index, bits)
pub fn reg(n: &str) -> Option<(usize, u32)> {
    let n = n.trim();
    match n {
        "sp" | "xzr" => return Some((SPECIAL, 64)),
        "wsp" | "wzr" => return Some((SPECIAL, 32)),
        "lr" => return Some((30, 64)),
        "fp" => return Some((29, 64)),
        "nzcv" => return None,
        _ => {}
    }
    let (c, r) = n.split_at(n.char_indices().nth(1)?.0);
    let r = r.split('.').next()?;
    let i: usize = r.parse().ok()?;
    match c {
        "x" if i < 31 => Some((i, 64)),
        "w" if i < 31 => Some((i, 32)),
        "v" | "q" if i < 32 => Some((32 + i, 128)),
        "d" if i < 32 => Some((32 + i, 64)),
        "s" if i < 32 => Some((32 + i, 32)),
        "h" if i < 32 => Some((32 + i, 16)),
        "b" if i < 32 => Some((32 + i, 8)),
        _ => None,
    }
}
pub fn name(r: usize, m: Option<char>, _bits: u32) -> String {
    if r >= 32 {
        return match m {
            Some(c @ ('q' | 'd' | 's' | 'h' | 'b')) => format!("{c}{}", r - 32),
            _ => format!("v{}", r - 32),
        };
    }
    if r == SPECIAL {
        return "xzr".into();
    }
    match m {
        Some('w') => format!("w{r}"),
        _ => format!("x{r}"),
    }
}

const N: u128 = 8;
const Z: u128 = 4;
const C: u128 = 2;
const VF: u128 = 1;

fn cond(m: &A, c: &str) -> Result<bool, Stop> {
    let f = m.flags;
    let (n, z, cc, v) = (f & N != 0, f & Z != 0, f & C != 0, f & VF != 0);
    Ok(match c {
        "eq" => z,
        "ne" => !z,
        "cs" | "hs" => cc,
        "cc" | "lo" => !cc,
        "mi" => n,
        "pl" => !n,
        "vs" => v,
        "vc" => !v,
        "hi" => cc && !z,
        "ls" => !(cc && !z),
        "ge" => n == v,
        "lt" => n != v,
        "gt" => !z && n == v,
        "le" => z || n != v,
        "al" => true,
        _ => return unsup(format!("condition {c}")),
    })
}
fn addc(m: &mut A, x: u128, y: u128, ci: u128, w: u32, set: bool, d: D) -> u128 {
    let (x, y) = (mask(x, w), mask(y, w));
    let s = x + y + ci;
    let r = mask(s, w);
    if set {
        let top = |v: u128| v >> (w - 1) & 1;
        m.flags = (top(r) * N) | if r == 0 { Z } else { 0 } | if s >> w != 0 { C } else { 0 } | if top(x) == top(y) && top(r) != top(x) { VF } else { 0 };
        m.fdep = d;
    }
    r
}
fn rd(m: &A, s: &str) -> Result<(u128, D, u32), Stop> {
    match reg(s) {
        Some((SPECIAL, w)) => Ok((0, 0, w)),
        Some((i, w)) => {
            let (v, d) = m.r(i);
            Ok((mask(v, w), d, w))
        }
        None => unsup(format!("register {s}")),
    }
}
fn wr(m: &mut A, s: &str, v: u128, d: D) -> Result<(), Stop> {
    match reg(s) {
        Some((SPECIAL, _)) => Ok(()),
        Some((i, w)) => {
            m.set(i, (mask(v, w), d));
            Ok(())
        }
        None => unsup(format!("register {s}")),
    }
}
/// register or immediate operand, with the optional shift in `ops[k + 1]`
fn src(m: &A, ops: &[String], k: usize, w: u32) -> Result<(u128, D), Stop> {
    let s = ops.get(k).map(|s| s.to_lowercase()).unwrap_or_default();
    let (mut v, d) = if let Some(i) = parse_imm(&s) {
        (mask(i as u128, w), 0)
    } else {
        let (v, d, _) = rd(m, &s)?;
        (v, d)
    };
    if let Some(sh) = ops.get(k + 1) {
        let sh = sh.to_lowercase();
        let mut it = sh.split_whitespace();
        let kind = it.next().unwrap_or("");
        let n = it.next().and_then(parse_imm).unwrap_or(0) as u32;
        v = match kind {
            "lsl" => v << n,
            "lsr" => mask(v, w) >> n,
            "asr" => (sext(v, w) >> n) as u128,
            "uxtw" => mask(v, 32) << n,
            "sxtw" => (sext(v, 32) as u128) << n,
            "uxth" => mask(v, 16) << n,
            "uxtb" => mask(v, 8) << n,
            "uxtx" | "sxtx" => v << n,
            _ => return unsup(format!("operand {sh}")),
        };
    }
    Ok((mask(v, w), d))
}
/// address operand; also returns the register to write back with its new value
fn addr(m: &A, ops: &[String], k: usize) -> Result<((u128, D), Option<(String, u128, D)>), Stop> {
    let s = ops.get(k).ok_or_else(|| Stop::from("missing address".to_string()))?.to_lowercase();
    let Some(b) = s.find('[') else { return unsup(format!("address {s}")) };
    let e = s.find(']').unwrap_or(s.len());
    let inner: Vec<String> = s[b + 1..e].split(',').map(|x| x.trim().to_string()).collect();
    let (base, d, _) = rd(m, &inner[0])?;
    let (mut off, mut od) = (0u128, 0);
    if inner.len() > 1 {
        let (v, dd) = src(m, &inner, 1, 64)?;
        off = v;
        od = dd;
    }
    let a = mask(base.wrapping_add(off), 64);
    if s[e..].contains('!') {
        return Ok(((a, d | od), Some((inner[0].clone(), a, d | od))));
    }
    if let Some(p) = ops.get(k + 1) {
        if let Some(i) = parse_imm(p) {
            let nv = mask(base.wrapping_add(i as u128), 64);
            return Ok(((base, d), Some((inner[0].clone(), nv, d))));
        }
    }
    Ok(((a, d | od), None))
}
fn wb(m: &mut A, w: Option<(String, u128, D)>) -> Result<(), Stop> {
    if let Some((r, v, d)) = w {
        wr(m, &r, v, d)?;
    }
    Ok(())
}
/// size of the access from the mnemonic suffix and the data register
fn sz(mn: &str, r: &str) -> u32 {
    if mn.ends_with('b') {
        1
    } else if mn.ends_with('h') {
        2
    } else {
        reg(r).map(|x| x.1 / 8).unwrap_or(8)
    }
}
fn pair_value(c: &Ctx, lo: (u128, D), hi: (u128, D), each: u32) -> (u128, D) {
    let (l, h) = if c.prog.layout.big_endian { (hi, lo) } else { (lo, hi) };
    (mask(l.0, each * 8) | mask(h.0, each * 8) << (each * 8), lo.1 | hi.1)
}
fn split_value(c: &Ctx, v: (u128, D), each: u32) -> ((u128, D), (u128, D)) {
    let a = (mask(v.0, each * 8), v.1);
    let b = (mask(v.0 >> (each * 8), each * 8), v.1);
    if c.prog.layout.big_endian { (b, a) } else { (a, b) }
}
fn aqrl(s: &str) -> Option<u32> {
    Some(match s {
        "" => 0,
        "a" => HW_ACQ,
        "l" => HW_REL,
        "al" => HW_ACQ | HW_REL,
        _ => return None,
    })
}

pub fn exec(m: &mut A, i: &Ins) -> Result<Next, Stop> {
    let ops: Vec<String> = i.ops.clone();
    let o = |k: usize| ops.get(k).map(|s| s.as_str()).unwrap_or("");
    let mn = i.mn.as_str();
    if let Some(c) = mn.strip_prefix("b.") {
        let t = cond(m, c)?;
        m.m.t.ctrl |= m.fdep;
        return Ok(if t { Next::Jump(o(0).into()) } else { Next::Fall });
    }
    match mn {
        "nop" | "yield" | "hint" | "clrex" | "bti" | "prfm" => {}
        "b" => return Ok(Next::Jump(o(0).into())),
        "beq" | "bne" | "bcs" | "bcc" => {
            let t = cond(m, &mn[1..])?;
            m.m.t.ctrl |= m.fdep;
            return Ok(if t { Next::Jump(o(0).into()) } else { Next::Fall });
        }
        "cbz" | "cbnz" => {
            let (v, d, _) = rd(m, o(0))?;
            m.m.t.ctrl |= d;
            if (v == 0) == (mn == "cbz") {
                return Ok(Next::Jump(o(1).into()));
            }
        }
        "tbz" | "tbnz" => {
            let (v, d, _) = rd(m, o(0))?;
            let b = parse_imm(o(1)).unwrap_or(0);
            m.m.t.ctrl |= d;
            if (v >> b & 1 == 0) == (mn == "tbz") {
                return Ok(Next::Jump(o(2).into()));
            }
        }
        "mov" | "movz" => {
            let w = reg(o(0)).map(|x| x.1).unwrap_or(64);
            let (v, d) = src(m, &ops, 1, w)?;
            wr(m, o(0), v, d)?;
        }
        "mvn" => {
            let w = reg(o(0)).map(|x| x.1).unwrap_or(64);
            let (v, d) = src(m, &ops, 1, w)?;
            wr(m, o(0), !v, d)?;
        }
        "sxtw" => {
            let (v, d, _) = rd(m, o(1))?;
            wr(m, o(0), sext(v, 32) as u128, d)?;
        }
        "uxtw" | "uxtb" | "uxth" => {
            let (v, d, _) = rd(m, o(1))?;
            let b = match mn { "uxtw" => 32, "uxtb" => 8, _ => 16 };
            wr(m, o(0), mask(v, b), d)?;
        }
        "add" | "adds" | "sub" | "subs" | "adc" | "adcs" | "sbc" | "sbcs" => {
            let (x, d, w) = rd(m, o(1))?;
            let (y, e) = src(m, &ops, 2, w)?;
            let sub = mn.starts_with("sub") || mn.starts_with("sbc");
            let (mut ci, mut fd) = (sub as u128, 0);
            if mn.starts_with("adc") || mn.starts_with("sbc") {
                ci = (m.flags & C != 0) as u128;
                fd = m.fdep;
            }
            let d = d | e | fd;
            let r = addc(m, x, if sub { !y } else { y }, ci, w, mn.ends_with('s'), d);
            wr(m, o(0), r, d)?;
        }
        "neg" | "negs" | "ngc" | "ngcs" => {
            let w = reg(o(0)).map(|x| x.1).unwrap_or(64);
            let (y, e) = src(m, &ops, 1, w)?;
            let (ci, fd) = if mn.starts_with("ngc") { ((m.flags & C != 0) as u128, m.fdep) } else { (1, 0) };
            let r = addc(m, 0, !y, ci, w, mn.ends_with('s'), e | fd);
            wr(m, o(0), r, e | fd)?;
        }
        "cmp" | "cmn" => {
            let (x, d, w) = rd(m, o(0))?;
            let (y, e) = src(m, &ops, 1, w)?;
            let (y, ci) = if mn == "cmp" { (!y, 1) } else { (y, 0) };
            addc(m, x, y, ci, w, true, d | e);
        }
        "ccmp" | "ccmn" => {
            let (x, d, w) = rd(m, o(0))?;
            let (y, e) = src(m, &ops[..2.min(ops.len())], 1, w)?;
            let nzcv = parse_imm(o(2)).unwrap_or(0) as u128;
            if cond(m, &o(3).to_lowercase())? {
                let fd = m.fdep;
                let (y, ci) = if mn == "ccmp" { (!y, 1) } else { (y, 0) };
                addc(m, x, y, ci, w, true, d | e | fd);
            } else {
                m.flags = nzcv & 15;
                m.fdep |= d | e;
            }
        }
        "and" | "ands" | "orr" | "eor" | "bic" | "bics" | "orn" | "eon" | "tst" => {
            let (a, b) = if mn == "tst" { (0, 1) } else { (1, 2) };
            let (x, d, w) = rd(m, o(a))?;
            let (y, e) = src(m, &ops, b, w)?;
            let r = mask(
                match mn {
                    "and" | "ands" | "tst" => x & y,
                    "orr" => x | y,
                    "eor" => x ^ y,
                    "bic" | "bics" => x & !y,
                    "orn" => x | !y,
                    _ => x ^ !y,
                },
                w,
            );
            if matches!(mn, "ands" | "bics" | "tst") {
                m.flags = ((r >> (w - 1) & 1) * N) | if r == 0 { Z } else { 0 };
                m.fdep = d | e;
            }
            if mn != "tst" {
                wr(m, o(0), r, d | e)?;
            }
        }
        "lsl" | "lsr" | "asr" | "ror" => {
            let (x, d, w) = rd(m, o(1))?;
            let (y, e) = src(m, &ops, 2, w)?;
            let n = (y % w as u128) as u32;
            let r = match mn {
                "lsl" => x << n,
                "lsr" => x >> n,
                "asr" => (sext(x, w) >> n) as u128,
                _ => if n == 0 { x } else { x >> n | x << (w - n) },
            };
            wr(m, o(0), r, d | e)?;
        }
        "csel" | "csinc" | "csinv" | "csneg" => {
            let (x, d, w) = rd(m, o(1))?;
            let (y, e, _) = rd(m, o(2))?;
            let fd = m.fdep;
            let r = if cond(m, &o(3).to_lowercase())? {
                x
            } else {
                match mn {
                    "csel" => y,
                    "csinc" => mask(y.wrapping_add(1), w),
                    "csinv" => !y,
                    _ => 0u128.wrapping_sub(y),
                }
            };
            wr(m, o(0), r, d | e | fd)?;
        }
        "cset" | "csetm" => {
            let t = cond(m, &o(1).to_lowercase())?;
            let fd = m.fdep;
            wr(m, o(0), if t { if mn == "cset" { 1 } else { !0 } } else { 0 }, fd)?;
        }
        "cinc" | "cinv" | "cneg" => {
            let (x, d, _) = rd(m, o(1))?;
            let fd = m.fdep;
            let t = cond(m, &o(2).to_lowercase())?;
            let r = if !t { x } else { match mn { "cinc" => x.wrapping_add(1), "cinv" => !x, _ => 0u128.wrapping_sub(x) } };
            wr(m, o(0), r, d | fd)?;
        }
        "dmb" | "dsb" => {
            let k = match o(0).trim() {
                "ishld" | "ld" | "oshld" | "nshld" => FK_LD,
                "ishst" | "st" | "oshst" | "nshst" => FK_ST,
                _ => FK_FULL,
            };
            m.fence(k)?;
        }
        "isb" => m.fence(FK_ISYNC)?,
        "mrs" => {
            let name = o(1).to_lowercase();
            match name.as_str() {
                "nzcv" => {
                    let (f, d) = (m.flags, m.fdep);
                    wr(m, o(0), f << 28, d)?;
                }
                n => {
                    let v = m.m.c.cpu.sysreg.get(n).copied();
                    match v {
                        Some(v) => wr(m, o(0), v as u128, 0)?,
                        None => return unsup(format!("system register {n}")),
                    }
                }
            }
        }
        "ldp" | "ldnp" | "ldiapp" => {
            let each = sz("", o(0));
            let (a, w) = addr(m, &ops, 2)?;
            if mn == "ldiapp" {
                m.need("rcpc3")?;
            }
            let hw = if mn == "ldiapp" { HW_ACQPC } else { 0 };
            let (x, y) = if each == 16 {
                // two quadwords
                let x = pload(m, a, 16)?;
                let y = pload(m, (a.0.wrapping_add(16), a.1), 16)?;
                (x, y)
            } else if m.m.c.cpu.has("lse2") && a.0 % (2 * each) as u128 == 0 {
                let v = m.load(a, 2 * each, hw)?;
                split_value(m.m.c, v, each)
            } else {
                m.load2(a, each, hw)?
            };
            wr(m, o(0), x.0, x.1)?;
            wr(m, o(1), y.0, y.1)?;
            wb(m, w)?;
        }
        "stp" | "stnp" | "stilp" => {
            let each = sz("", o(0));
            let (a, w) = addr(m, &ops, 2)?;
            if mn == "stilp" {
                m.need("rcpc3")?;
            }
            let hw = if mn == "stilp" { HW_REL } else { 0 };
            let (x, d, _) = rd(m, o(0))?;
            let (y, e, _) = rd(m, o(1))?;
            if each == 16 {
                pstore(m, a, (x, d))?;
                pstore(m, (a.0.wrapping_add(16), a.1), (y, e))?;
            } else if m.m.c.cpu.has("lse2") && a.0 % (2 * each) as u128 == 0 {
                let v = pair_value(m.m.c, (x, d), (y, e), each);
                m.store(a, 2 * each, v, hw)?;
            } else {
                m.store2(a, each, ((x, d), (y, e)), hw)?;
            }
            wb(m, w)?;
        }
        "ldxp" | "ldaxp" => {
            let each = sz("", o(0));
            let (a, _) = addr(m, &ops, 2)?;
            m.align(a.0 as u64, 2 * each)?;
            let hw = if mn == "ldaxp" { HW_ACQ } else { 0 };
            let (x, y) = m.ll2(a, each, hw)?;
            wr(m, o(0), x.0, x.1)?;
            wr(m, o(1), y.0, y.1)?;
        }
        "stxp" | "stlxp" => {
            let each = sz("", o(1));
            let (a, _) = addr(m, &ops, 3)?;
            let (x, d, _) = rd(m, o(1))?;
            let (y, e, _) = rd(m, o(2))?;
            let v = pair_value(m.m.c, (x, d), (y, e), each);
            let ok = m.sc(a, 2 * each, v, if mn == "stlxp" { HW_REL } else { 0 })?;
            if o(0) == o(1) || o(0) == o(2) {
                return unsup("store exclusive with overlapping registers");
            }
            wr(m, o(0), !ok as u128, 0)?;
        }
        "ldr" | "ldur" | "ldrb" | "ldrh" | "ldurb" | "ldurh" => {
            let s = sz(mn.trim_end_matches("ur"), o(0)).min(if mn.len() > 3 && mn.ends_with('b') { 1 } else { 16 });
            let s = if mn == "ldur" || mn == "ldr" { sz("", o(0)) } else { s };
            let (a, w) = addr(m, &ops, 1)?;
            let v = if s == 16 { pload(m, a, 16)? } else { m.load(a, s, 0)? };
            wr(m, o(0), v.0, v.1)?;
            wb(m, w)?;
        }
        "str" | "stur" | "strb" | "strh" | "sturb" | "sturh" => {
            let s = match mn { "strb" | "sturb" => 1, "strh" | "sturh" => 2, _ => sz("", o(0)) };
            let (a, w) = addr(m, &ops, 1)?;
            let (v, d, _) = rd(m, o(0))?;
            if s == 16 { pstore(m, a, (v, d))? } else { m.store(a, s, (v, d), 0)? };
            wb(m, w)?;
        }
        "ldar" | "ldarb" | "ldarh" | "ldapr" | "ldaprb" | "ldaprh" | "ldlar" => {
            if mn.starts_with("ldapr") {
                m.need("rcpc")?;
            }
            let s = if mn == "ldar" || mn == "ldapr" || mn == "ldlar" { sz("", o(0)) } else { sz(mn, o(0)) };
            let (a, _) = addr(m, &ops, 1)?;
            let v = m.load(a, s, if mn.starts_with("ldapr") { HW_ACQPC } else { HW_ACQ })?;
            wr(m, o(0), v.0, v.1)?;
        }
        "stlr" | "stlrb" | "stlrh" | "stllr" => {
            let s = if mn == "stlr" || mn == "stllr" { sz("", o(0)) } else { sz(mn, o(0)) };
            let (a, _) = addr(m, &ops, 1)?;
            let (v, d, _) = rd(m, o(0))?;
            m.store(a, s, (v, d), HW_REL)?;
        }
        "ldxr" | "ldxrb" | "ldxrh" | "ldaxr" | "ldaxrb" | "ldaxrh" => {
            let s = if mn.ends_with('r') { sz("", o(0)) } else { sz(mn, o(0)) };
            let (a, _) = addr(m, &ops, 1)?;
            let v = m.ll(a, s, if mn.starts_with("ldax") { HW_ACQ } else { 0 })?;
            wr(m, o(0), v.0, v.1)?;
        }
        "stxr" | "stxrb" | "stxrh" | "stlxr" | "stlxrb" | "stlxrh" => {
            let s = if mn.ends_with('r') { sz("", o(1)) } else { sz(mn, o(1)) };
            let (a, _) = addr(m, &ops, 2)?;
            let (v, d, _) = rd(m, o(1))?;
            let ok = m.sc(a, s, (v, d), if mn.starts_with("stlx") { HW_REL } else { 0 })?;
            wr(m, o(0), !ok as u128, 0)?;
        }
        _ => return lse(m, i, &ops, mn),
    }
    Ok(Next::Fall)
}
/// SIMD quadword accesses are single-copy atomic only with LSE2.
fn pload(m: &mut A, a: (u128, D), n: u32) -> Result<(u128, D), Stop> {
    if m.m.c.cpu.has("lse2") && a.0 % n as u128 == 0 {
        return m.load(a, n, 0);
    }
    let (x, y) = m.load2(a, 8, 0)?;
    Ok(pair_value(m.m.c, x, y, 8))
}
fn pstore(m: &mut A, a: (u128, D), v: (u128, D)) -> Result<(), Stop> {
    if m.m.c.cpu.has("lse2") && a.0 % 16 == 0 {
        return m.store(a, 16, v, 0);
    }
    let (x, y) = split_value(m.m.c, v, 8);
    m.store2(a, 8, (x, y), 0)
}
fn lse(m: &mut A, i: &Ins, ops: &[String], mn: &str) -> Result<Next, Stop> {
    let o = |k: usize| ops.get(k).map(|s| s.as_str()).unwrap_or("");
    if let Some(s) = mn.strip_prefix("casp") {
        let Some(hw) = aqrl(s) else { return m.unknown(i) };
        m.need("lse")?;
        let each = sz("", o(0));
        let even = |r: &str| reg(r).map(|x| x.0 % 2 == 0).unwrap_or(false);
        if !even(o(0)) || !even(o(2)) {
            return unsup("casp register pair");
        }
        let c = pair_value2(m, o(0), o(1), each)?;
        let v = pair_value2(m, o(2), o(3), each)?;
        let (a, _) = addr(m, ops, 4)?;
        let (old, _, d) = m.cas(a, 2 * each, c, v, hw)?;
        let (x, y) = split_value(m.m.c, (old, d), each);
        wr(m, o(0), x.0, x.1)?;
        wr(m, o(1), y.0, y.1)?;
        return Ok(Next::Fall);
    }
    for (p, op) in [("ldclrp", RmwOp::Clr), ("ldsetp", RmwOp::Or), ("swpp", RmwOp::Xchg)] {
        if let Some(s) = mn.strip_prefix(p) {
            let Some(hw) = aqrl(s) else { continue };
            m.need("lse128")?;
            let v = pair_value2(m, o(0), o(1), 8)?;
            let (a, _) = addr(m, ops, 2)?;
            let (old, d) = m.rmw(op, a, 16, v, hw)?;
            let (x, y) = split_value(m.m.c, (old, d), 8);
            wr(m, o(0), x.0, x.1)?;
            wr(m, o(1), y.0, y.1)?;
            return Ok(Next::Fall);
        }
    }
    for (p, op) in [("ldfadd", RmwOp::FAdd), ("ldfmaxnm", RmwOp::FMax), ("ldfminnm", RmwOp::FMin)] {
        for st in [false, true] {
            let name = if st { p.replacen("ld", "st", 1) } else { p.to_string() };
            if let Some(s) = mn.strip_prefix(name.as_str()) {
                let Some(hw) = aqrl(s) else { continue };
                m.need("lsfe")?;
                let (v, d, w) = rd(m, o(0))?;
                let (a, _) = addr(m, ops, if st { 1 } else { 2 })?;
                let (old, d) = m.rmw(op, a, w / 8, (v, d), hw)?;
                if !st {
                    wr(m, o(1), old, d)?;
                }
                return Ok(Next::Fall);
            }
        }
    }
    // single-register LSE atomics: <op><a|l|al|><b|h|>
    let (body, size) = if let Some(b) = mn.strip_suffix('b') {
        (b, 1)
    } else if let Some(b) = mn.strip_suffix('h') {
        (b, 2)
    } else {
        (mn, 0)
    };
    if let Some(s) = body.strip_prefix("cas") {
        if let Some(hw) = aqrl(s) {
            m.need("lse")?;
            let n = if size == 0 { sz("", o(0)) } else { size };
            let (c, d, _) = rd(m, o(0))?;
            let (v, e, _) = rd(m, o(1))?;
            let (a, _) = addr(m, ops, 2)?;
            let (old, _, d) = m.cas(a, n, (c, d), (v, e), hw)?;
            wr(m, o(0), old, d)?;
            return Ok(Next::Fall);
        }
    }
    let table = [
        ("ldadd", RmwOp::Add), ("ldclr", RmwOp::Clr), ("ldeor", RmwOp::Xor), ("ldset", RmwOp::Or), ("ldsmax", RmwOp::Max), ("ldsmin", RmwOp::Min),
        ("ldumax", RmwOp::UMax), ("ldumin", RmwOp::UMin), ("swp", RmwOp::Xchg),
    ];
    for (p, op) in table {
        for st in [false, true] {
            let name = if st { p.replacen("ld", "st", 1) } else { p.to_string() };
            if st && p == "swp" {
                continue;
            }
            if let Some(s) = body.strip_prefix(name.as_str()) {
                let Some(hw) = aqrl(s) else { continue };
                m.need("lse")?;
                let n = if size == 0 { sz("", o(0)) } else { size };
                let (v, d, _) = rd(m, o(0))?;
                let (a, _) = addr(m, ops, if st { 1 } else { 2 })?;
                let (old, d) = m.rmw(op, a, n, (v, d), hw)?;
                if !st {
                    wr(m, o(1), old, d)?;
                }
                return Ok(Next::Fall);
            }
        }
    }
    m.unknown(i)
}
fn pair_value2(m: &A, a: &str, b: &str, each: u32) -> Result<(u128, D), Stop> {
    let (x, d, _) = rd(m, a)?;
    let (y, e, _) = rd(m, b)?;
    Ok(pair_value(m.m.c, (x, d), (y, e), each))
}
