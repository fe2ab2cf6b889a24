//! Arm (pre-v8), PowerPC64, s390x, MSP430 and AVR.
use crate::asm::*;
use crate::interp::*;
use crate::ir::*;

type A<'x, 'y> = Am<'x, 'y>;

pub fn reg(a: Arch, n: &str) -> Option<usize> {
    let n = n.trim().trim_start_matches('%').to_lowercase();
    match (a, n.as_str()) {
        (Arch::Arm, "sp") | (Arch::Msp430, "pc") => return Some(if a == Arch::Arm { 13 } else { 0 }),
        (Arch::Arm, "lr") => return Some(14),
        (Arch::Arm, "pc") => return Some(15),
        (Arch::Arm, "ip") => return Some(12),
        (Arch::Arm, "fp") => return Some(11),
        (Arch::Msp430, "sp") => return Some(1),
        (Arch::Msp430, "sr") => return Some(2),
        _ => {}
    }
    let i: usize = n.strip_prefix('r')?.parse().ok()?;
    let max = match a {
        Arch::Ppc64 | Arch::Avr => 32,
        _ => 16,
    };
    if i < max { Some(i) } else { None }
}
fn wd(m: &A) -> u32 {
    reg_bits(m.arch(), 3)
}
fn rd(m: &A, s: &str) -> Result<(u128, D), Stop> {
    match reg(m.arch(), s) {
        Some(i) => Ok(m.r(i)),
        None => match parse_imm(s) {
            Some(v) => Ok((mask(v as u128, wd(m)), 0)),
            None => unsup(format!("operand {s}")),
        },
    }
}
fn wr(m: &mut A, s: &str, v: u128, d: D) -> Result<(), Stop> {
    match reg(m.arch(), s) {
        Some(i) => {
            m.set(i, (v, d));
            Ok(())
        }
        None => unsup(format!("register {s}")),
    }
}

pub fn exec(m: &mut A, i: &Ins) -> Result<Next, Stop> {
    match m.arch() {
        Arch::Arm => arm(m, i),
        Arch::Ppc64 => ppc(m, i),
        Arch::S390x => s390(m, i),
        Arch::Msp430 => msp(m, i),
        Arch::Avr => avr(m, i),
        _ => unsup("assembly"),
    }
}

// ---------------------------------------------------------------- Arm
fn arm_addr(m: &A, s: &str) -> Result<(u128, D), Stop> {
    let t = s.trim().trim_start_matches('[').trim_end_matches(|c| c == ']' || c == '!');
    let mut p = t.split(',');
    let (b, d) = rd(m, p.next().unwrap_or(""))?;
    let (o, e) = match p.next() {
        Some(x) => rd(m, x)?,
        None => (0, 0),
    };
    Ok((mask(b.wrapping_add(o), 32), d | e))
}
fn arm(m: &mut A, i: &Ins) -> Result<Next, Stop> {
    let ops = i.ops.clone();
    let o = |k: usize| ops.get(k).map(|s| s.as_str()).unwrap_or("");
    let sr = |s: &str| match s.to_lowercase().as_str() {
        "primask" => Some((SYS_PRIMASK, 1u128)),
        "cpsr" | "apsr" => Some((SYS_CPSR, mask(!0, 32))),
        "cpsr_c" => Some((SYS_CPSR, 0xff)),
        "cpsr_cf" | "cpsr_fc" => Some((SYS_CPSR, 0xff00_00ff)),
        "cpsr_f" => Some((SYS_CPSR, 0xff00_0000)),
        "cpsr_x" => Some((SYS_CPSR, 0xff00)),
        "cpsr_s" => Some((SYS_CPSR, 0xff_0000)),
        _ => None,
    };
    let mn = i.mn.as_str();
    let core = mn.trim_end_matches(".w").trim_end_matches(".n");
    match core {
        "nop" | "yield" => {}
        "mrs" => {
            let Some((id, _)) = sr(o(1)) else { return m.unknown(i) };
            let (v, d) = m.sysr(id)?;
            wr(m, o(0), v, d)?;
        }
        "msr" => {
            let Some((id, mk)) = sr(o(0)) else { return m.unknown(i) };
            let v = rd(m, o(1))?;
            m.sysw(id, v, mk)?;
        }
        "cpsid" | "cpsie" => {
            let on = core == "cpsid";
            let f = o(0).to_lowercase();
            let v = if on { mask(!0, 32) } else { 0 };
            // M-profile PRIMASK, A/R-profile CPSR
            if m.m.c.cpu.has("mclass") {
                if f.contains('i') {
                    m.sysw(SYS_PRIMASK, (v, 0), 1)?;
                }
            } else {
                let mk = if f.contains('i') { 0x80 } else { 0 } | if f.contains('f') { 0x40 } else { 0 };
                m.sysw(SYS_CPSR, (v, 0), mk)?;
            }
        }
        "mov" | "movs" | "mvn" | "mvns" => {
            let (v, d) = rd(m, o(1))?;
            let r = mask(if core.starts_with("mvn") { !v } else { v }, 32);
            if core.ends_with('s') {
                m.flags = (r >> 31) * 8 | ((r == 0) as u128) * 4 | (m.flags & 3);
            }
            wr(m, o(0), r, d)?;
        }
        "orr" | "orrs" | "and" | "ands" | "bic" | "bics" | "eor" | "eors" | "add" | "adds" | "sub" | "subs" | "lsl" | "lsls" | "lsr" | "lsrs" => {
            let (a, b) = if ops.len() == 2 { (0, 1) } else { (1, 2) };
            let (x, d) = rd(m, o(a))?;
            let (y, e) = rd(m, o(b))?;
            let sh = (y & 0xff).min(32) as u32;
            let r = match &core[..3] {
                "orr" => x | y,
                "and" => x & y,
                "bic" => x & !y,
                "eor" => x ^ y,
                "add" => x.wrapping_add(y),
                "sub" => x.wrapping_sub(y),
                "lsl" => x << sh,
                _ => mask(x, 32) >> sh,
            };
            let r = mask(r, 32);
            if core.len() > 3 && core.ends_with('s') {
                m.flags = (r >> 31) * 8 | ((r == 0) as u128) * 4;
                m.fdep = d | e;
            }
            wr(m, o(0), r, d | e)?;
        }
        "cmp" | "tst" => {
            let (x, d) = rd(m, o(0))?;
            let (y, e) = rd(m, o(1))?;
            let r = mask(if core == "cmp" { x.wrapping_sub(y) } else { x & y }, 32);
            m.flags = (r >> 31) * 8 | ((r == 0) as u128) * 4 | ((x >= y) as u128) * 2;
            m.fdep = d | e;
        }
        "beq" | "bne" => {
            m.m.t.ctrl |= m.fdep;
            if (m.flags & 4 != 0) == (core == "beq") {
                return Ok(Next::Jump(o(0).into()));
            }
        }
        "b" => return Ok(Next::Jump(o(0).into())),
        "ldr" | "ldrb" | "ldrh" | "ldrsb" | "ldrsh" | "lda" | "ldab" | "ldah" => {
            let n = if core.ends_with('b') { 1 } else if core.ends_with('h') { 2 } else { 4 };
            let a = arm_addr(m, o(1))?;
            m.align(a.0 as u64, n)?;
            let (v, d) = m.load(a, n, if core.starts_with("lda") { HW_ACQ } else { 0 })?;
            let v = if core.starts_with("ldrs") { sext(v, n * 8) as u128 } else { v };
            wr(m, o(0), v, d)?;
        }
        "str" | "strb" | "strh" | "stl" | "stlb" | "stlh" => {
            let n = if core.ends_with('b') { 1 } else if core.ends_with('h') { 2 } else { 4 };
            let a = arm_addr(m, o(1))?;
            m.align(a.0 as u64, n)?;
            let v = rd(m, o(0))?;
            m.store(a, n, v, if core.starts_with("stl") { HW_REL } else { 0 })?;
        }
        "ldrd" => {
            let a = arm_addr(m, o(2))?;
            let (x, y) = m.load2(a, 4, 0)?;
            wr(m, o(0), x.0, x.1)?;
            wr(m, o(1), y.0, y.1)?;
        }
        "strd" => {
            let a = arm_addr(m, o(2))?;
            let x = rd(m, o(0))?;
            let y = rd(m, o(1))?;
            m.store2(a, 4, (x, y), 0)?;
        }
        "ldrex" | "ldrexb" | "ldrexh" => {
            let n = if core.ends_with('b') { 1 } else if core.ends_with('h') { 2 } else { 4 };
            let a = arm_addr(m, o(1))?;
            let v = m.ll(a, n, 0)?;
            wr(m, o(0), v.0, v.1)?;
        }
        "strex" | "strexb" | "strexh" => {
            let n = if core.ends_with('b') { 1 } else if core.ends_with('h') { 2 } else { 4 };
            let a = arm_addr(m, o(2))?;
            let v = rd(m, o(1))?;
            let ok = m.sc(a, n, v, 0)?;
            wr(m, o(0), !ok as u128, 0)?;
        }
        "dmb" | "dsb" => m.fence(FK_FULL)?,
        "isb" => m.fence(FK_ISYNC)?,
        "mcr" => m.fence(FK_FULL)?,
        "clrex" => {}
        _ => return m.unknown(i),
    }
    Ok(Next::Fall)
}

// ---------------------------------------------------------------- PowerPC64
const CA: u128 = 1 << 32;
fn crset(m: &mut A, field: u32, lt: bool, gt: bool, eq: bool, d: D) {
    let sh = 28 - 4 * field;
    let v = (lt as u128) << 3 | (gt as u128) << 2 | (eq as u128) << 1;
    m.flags = (m.flags & !(0xf << sh)) | v << sh;
    m.fdep |= d;
}
fn crfield(s: &str) -> Option<u32> {
    let t = s.trim().trim_start_matches('%');
    t.strip_prefix("cr").and_then(|x| x.parse().ok())
}
fn crbit(m: &A, n: u32) -> bool {
    m.flags >> (31 - n) & 1 == 1
}
fn ppc_base(m: &A, s: &str) -> Result<(u128, D), Stop> {
    let t = s.trim();
    match reg(Arch::Ppc64, t) {
        Some(0) => Ok((0, 0)),
        Some(i) => Ok(m.r(i)),
        None => match parse_imm(t) {
            Some(0) => Ok((0, 0)),
            Some(k) => Ok(m.r(k as usize & 31)),
            None => unsup(format!("base {s}")),
        },
    }
}
fn ppc_reg(s: &str) -> Option<usize> {
    reg(Arch::Ppc64, s).or_else(|| s.trim().parse().ok())
}
fn ppc_addr(m: &A, s: &str) -> Result<(u128, D), Stop> {
    let Some(b) = s.find('(') else { return unsup(format!("address {s}")) };
    let off = if s[..b].trim().is_empty() { 0 } else { parse_imm(&s[..b]).unwrap_or(0) };
    let (v, d) = ppc_base(m, s[b + 1..].trim_end_matches(')'))?;
    Ok((mask(v.wrapping_add(off as u128), 64), d))
}
fn ppc_indexed(m: &A, a: &str, b: &str) -> Result<(u128, D), Stop> {
    let (x, d) = ppc_base(m, a)?;
    let (y, e) = rd(m, b)?;
    Ok((mask(x.wrapping_add(y), 64), d | e))
}
fn ppc(m: &mut A, i: &Ins) -> Result<Next, Stop> {
    let ops = i.ops.clone();
    let o = |k: usize| ops.get(k).map(|s| s.as_str()).unwrap_or("");
    let full = i.mn.as_str();
    let branch = full.trim_end_matches(|c| c == '-' || c == '+');
    if branch.starts_with('b') && branch.len() <= 4 {
        let (f, l) = if ops.len() == 2 { (crfield(o(0)).unwrap_or(0), o(1)) } else { (0, o(0)) };
        let t = match branch {
            "b" => true,
            "bne" => !crbit(m, 4 * f + 2),
            "beq" => crbit(m, 4 * f + 2),
            "blt" => crbit(m, 4 * f),
            "bgt" => crbit(m, 4 * f + 1),
            "bge" => !crbit(m, 4 * f),
            "ble" => !crbit(m, 4 * f + 1),
            _ => return m.unknown(i),
        };
        m.m.t.ctrl |= m.fdep;
        return Ok(if t { Next::Jump(l.into()) } else { Next::Fall });
    }
    let rc = full.ends_with('.');
    let mn = full.trim_end_matches('.');
    let mut res: Option<(u128, D)> = None;
    match mn {
        "nop" => {}
        "sync" | "hwsync" | "ptesync" => m.fence(FK_FULL)?,
        "lwsync" => m.fence(FK_LW)?,
        "isync" => m.fence(FK_ISYNC)?,
        "mr" | "not" | "neg" => {
            let (v, d) = rd(m, o(1))?;
            res = Some((match mn { "mr" => v, "not" => !v, _ => 0u128.wrapping_sub(v) }, d));
        }
        "li" => res = Some((parse_imm(o(1)).unwrap_or(0) as u128, 0)),
        "xor" | "or" | "and" | "nand" | "nor" | "andc" | "orc" | "eqv" | "xori" | "ori" | "andi" => {
            let (x, d) = rd(m, o(1))?;
            let (y, e) = rd(m, o(2))?;
            let r = match mn {
                "xor" | "xori" => x ^ y,
                "or" | "ori" => x | y,
                "and" | "andi" => x & y,
                "nand" => !(x & y),
                "nor" => !(x | y),
                "andc" => x & !y,
                "orc" => x | !y,
                _ => !(x ^ y),
            };
            res = Some((r, d | e));
        }
        "add" | "addi" | "sub" | "subf" => {
            let (x, d) = if mn == "addi" { ppc_base(m, o(1))? } else { rd(m, o(1))? };
            let (y, e) = rd(m, o(2))?;
            let r = match mn { "add" | "addi" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), _ => y.wrapping_sub(x) };
            res = Some((r, d | e));
        }
        "addc" | "adde" | "subc" | "subfc" | "subfe" | "subfic" | "subfze" | "addze" | "subfme" | "addme" | "addic" => {
            let (x, d) = rd(m, o(1))?;
            let (y, e) = match mn {
                "subfze" | "addze" => (0, 0),
                "subfme" | "addme" => (mask(!0, 64), 0),
                _ => rd(m, o(2))?,
            };
            let ca = (m.flags & CA != 0) as u128;
            let inv = |v: u128| mask(!v, 64);
            let s = match mn {
                "addc" | "addic" => x + y,
                "adde" | "addze" | "addme" => x + y + ca,
                "subc" => x + inv(y) + 1,
                "subfc" | "subfic" => inv(x) + y + 1,
                _ => inv(x) + y + ca,
            };
            let fd = m.fdep;
            m.flags = (m.flags & !CA) | if s >> 64 != 0 { CA } else { 0 };
            m.fdep |= d | e;
            res = Some((s, d | e | fd));
        }
        "cmpd" | "cmpld" | "cmpw" | "cmplw" | "cmpdi" | "cmpldi" | "cmpwi" | "cmplwi" => {
            let (f, k) = if ops.len() == 3 { (crfield(o(0)).or_else(|| o(0).parse().ok()).unwrap_or(0), 1) } else { (0, 0) };
            let (x, d) = rd(m, o(k))?;
            let (y, e) = rd(m, o(k + 1))?;
            let w = if mn.contains('w') { 32 } else { 64 };
            let (x, y) = (mask(x, w), mask(y, w));
            if mn.starts_with("cmpl") {
                crset(m, f, x < y, x > y, x == y, d | e);
            } else {
                let (a, b) = (sext(x, w), sext(y, w));
                crset(m, f, a < b, a > b, a == b, d | e);
            }
        }
        "isel" | "isellt" | "iselgt" | "iseleq" => {
            let (x, d) = ppc_base(m, o(1))?;
            let (y, e) = rd(m, o(2))?;
            let n = match mn { "isellt" => 0, "iselgt" => 1, "iseleq" => 2, _ => parse_imm(o(3)).unwrap_or(0) as u32 };
            let fd = m.fdep;
            res = Some((if crbit(m, n) { x } else { y }, d | e | fd));
        }
        "mfcr" | "mfocrf" => {
            let (f, d) = (m.flags, m.fdep);
            wr(m, o(0), mask(f, 32), d)?;
        }
        "lq" | "lqarx" => {
            let r = ppc_reg(o(0)).unwrap_or(0);
            let a = if mn == "lq" { ppc_addr(m, o(1))? } else { ppc_indexed(m, o(1), o(2))? };
            m.need("quadword-atomics")?;
            if r % 2 != 0 {
                return unsup("quadword register pair");
            }
            let (v, d) = if mn == "lq" {
                m.align(a.0 as u64, 16)?;
                m.load(a, 16, 0)?
            } else {
                m.ll(a, 16, 0)?
            };
            m.set(r, (v >> 64, d));
            m.set(r + 1, (mask(v, 64), d));
        }
        "stq" | "stqcx" => {
            let r = ppc_reg(o(0)).unwrap_or(0);
            let a = if mn == "stq" { ppc_addr(m, o(1))? } else { ppc_indexed(m, o(1), o(2))? };
            m.need("quadword-atomics")?;
            if r % 2 != 0 {
                return unsup("quadword register pair");
            }
            let (h, d) = m.r(r);
            let (l, e) = m.r(r + 1);
            let v = (h << 64 | l, d | e);
            if mn == "stq" {
                m.align(a.0 as u64, 16)?;
                m.store(a, 16, v, 0)?;
            } else {
                let ok = m.sc(a, 16, v, 0)?;
                let d = m.scdep;
                crset(m, 0, false, false, ok, d);
            }
            return Ok(Next::Fall);
        }
        "ld" | "lwz" | "lhz" | "lbz" | "lwa" => {
            let n = match mn { "ld" => 8, "lwz" | "lwa" => 4, "lhz" => 2, _ => 1 };
            let a = ppc_addr(m, o(1))?;
            let (v, d) = m.load(a, n, 0)?;
            wr(m, o(0), if mn == "lwa" { sext(v, 32) as u128 } else { v }, d)?;
        }
        "std" | "stw" | "sth" | "stb" => {
            let n = match mn { "std" => 8, "stw" => 4, "sth" => 2, _ => 1 };
            let a = ppc_addr(m, o(1))?;
            let v = rd(m, o(0))?;
            m.store(a, n, v, 0)?;
        }
        "ldarx" | "lwarx" | "lharx" | "lbarx" => {
            let n = match mn { "ldarx" => 8, "lwarx" => 4, "lharx" => 2, _ => 1 };
            let a = ppc_indexed(m, o(1), o(2))?;
            let (v, d) = m.ll(a, n, 0)?;
            wr(m, o(0), v, d)?;
        }
        "stdcx" | "stwcx" | "sthcx" | "stbcx" => {
            let n = match mn { "stdcx" => 8, "stwcx" => 4, "sthcx" => 2, _ => 1 };
            let v = rd(m, o(0))?;
            let a = ppc_indexed(m, o(1), o(2))?;
            let ok = m.sc(a, n, v, 0)?;
            let d = m.scdep;
            crset(m, 0, false, false, ok, d);
            return Ok(Next::Fall);
        }
        _ => return m.unknown(i),
    }
    if let Some((v, d)) = res {
        let v = mask(v, 64);
        wr(m, o(0), v, d)?;
        if rc {
            let s = sext(v, 64);
            crset(m, 0, s < 0, s > 0, s == 0, d);
        }
    }
    Ok(Next::Fall)
}

// ---------------------------------------------------------------- s390x
fn s390_addr(m: &A, s: &str) -> Result<(u128, D), Stop> {
    let Some(b) = s.find('(') else { return unsup(format!("address {s}")) };
    let off = if s[..b].trim().is_empty() { 0 } else { parse_imm(&s[..b]).unwrap_or(0) };
    let mut v = (off as u128, 0);
    for r in s[b + 1..].trim_end_matches(')').split(',') {
        let (x, d) = match reg(Arch::S390x, r) {
            Some(0) => (0, 0),
            Some(i) => m.r(i),
            None => return unsup(format!("address {s}")),
        };
        v = (v.0.wrapping_add(x), v.1 | d);
    }
    Ok((mask(v.0, 64), v.1))
}
fn cc(m: &mut A, v: u128, d: D) {
    m.flags = v;
    m.fdep = d;
}
/// condition mask of a branch mnemonic suffix
fn s390_mask(s: &str) -> Option<u32> {
    Some(match s {
        "" => 15,
        "e" | "z" => 8,
        "ne" | "nz" => 7,
        "l" | "m" => 4,
        "h" | "p" => 2,
        "o" => 1,
        "no" => 14,
        "nl" | "nm" | "he" => 11,
        "nh" | "np" | "le" => 13,
        "nhe" => 5,
        "nle" => 3,
        "lh" => 6,
        "nlh" => 9,
        _ => return None,
    })
}
fn s390(m: &mut A, i: &Ins) -> Result<Next, Stop> {
    let ops = i.ops.clone();
    let o = |k: usize| ops.get(k).map(|s| s.as_str()).unwrap_or("");
    let mn = i.mn.as_str();
    for (p, signed, imm) in [("clgrj", false, false), ("cgrj", true, false), ("clgij", false, true), ("cgij", true, true), ("clrj", false, false), ("crj", true, false)] {
        if let Some(s) = mn.strip_prefix(p) {
            let _ = imm;
            let w = if p.contains('g') { 64 } else { 32 };
            let Some(mk) = s390_mask(s) else { return m.unknown(i) };
            let (x, d) = rd(m, o(0))?;
            let (y, e) = rd(m, o(1))?;
            let (x, y) = (mask(x, w), mask(y, w));
            let (lt, eq) = if signed { (sext(x, w) < sext(y, w), x == y) } else { (x < y, x == y) };
            let c = if eq { 0 } else if lt { 1 } else { 2 };
            m.m.t.ctrl |= d | e;
            return Ok(if mk >> (3 - c) & 1 == 1 { Next::Jump(o(2).into()) } else { Next::Fall });
        }
    }
    if let Some(s) = mn.strip_prefix('j').or_else(|| mn.strip_prefix("brc")) {
        if let Some(mk) = s390_mask(s) {
            m.m.t.ctrl |= m.fdep;
            let c = m.flags as u32;
            return Ok(if mk >> (3 - c) & 1 == 1 { Next::Jump(o(0).into()) } else { Next::Fall });
        }
    }
    for (p, feat) in [("locgr", "load-store-on-cond"), ("selgr", "miscellaneous-extensions-3")] {
        if let Some(mk) = mn.strip_prefix(p).and_then(s390_mask) {
            m.need(feat)?;
            let c = m.flags as u32;
            let fd = m.fdep;
            let (x, d) = rd(m, o(1))?;
            let (y, e) = if p == "selgr" { rd(m, o(2))? } else { rd(m, o(0))? };
            let v = if mk >> (3 - c) & 1 == 1 { x } else { y };
            return wr(m, o(0), v, d | e | fd).map(|_| Next::Fall);
        }
    }
    if ops.len() == 3 && matches!(mn, "xgrk" | "ogrk" | "ngrk" | "algrk" | "slgrk" | "agrk" | "sgrk") {
        m.need("distinct-ops")?;
    }
    match mn {
        "nop" | "nopr" => {}
        "nngrk" | "nogrk" | "nxgrk" => {
            m.need("miscellaneous-extensions-3")?;
            let (x, d) = rd(m, o(1))?;
            let (y, e) = rd(m, o(2))?;
            let r = mask(!match &mn[..2] { "nn" => x & y, "no" => x | y, _ => x ^ y }, 64);
            cc(m, (r != 0) as u128, d | e);
            wr(m, o(0), r, d | e)?;
        }
        "bcr" => {
            // bcr 15,0 / bcr 14,0: serialization
            if parse_imm(o(1)) == Some(0) || o(1).trim() == "%r0" {
                if matches!(parse_imm(o(0)), Some(15) | Some(14)) {
                    if parse_imm(o(0)) == Some(14) {
                        m.need("fast-serialization")?;
                    }
                    m.fence(FK_FULL)?;
                }
            } else {
                return m.unknown(i);
            }
        }
        "lg" | "l" | "lgf" | "llgf" => {
            let a = s390_addr(m, o(1))?;
            let n = if mn == "lg" { 8 } else { 4 };
            let (v, d) = m.load(a, n, 0)?;
            let v = match mn { "lgf" => sext(v, 32) as u128, _ => v };
            wr(m, o(0), v, d)?;
        }
        "stg" | "st" => {
            let a = s390_addr(m, o(1))?;
            let v = rd(m, o(0))?;
            m.store(a, if mn == "stg" { 8 } else { 4 }, v, 0)?;
        }
        "lgr" | "lghi" | "lcgr" | "lmg" => {
            if mn == "lmg" {
                return m.unknown(i);
            }
            let (v, d) = rd(m, o(1))?;
            let r = if mn == "lcgr" { mask(0u128.wrapping_sub(v), 64) } else { v };
            if mn == "lcgr" {
                let c = if r == 0 { 0 } else if r == 1 << 63 { 3 } else if sext(r, 64) < 0 { 1 } else { 2 };
                cc(m, c, d);
            }
            wr(m, o(0), r, d)?;
        }
        "xgr" | "ogr" | "ngr" | "xgrk" | "ogrk" | "ngrk" => {
            let (a, b) = if ops.len() == 3 { (1, 2) } else { (0, 1) };
            let (x, d) = rd(m, o(a))?;
            let (y, e) = rd(m, o(b))?;
            let r = match &mn[..1] { "x" => x ^ y, "o" => x | y, _ => x & y };
            cc(m, (r != 0) as u128, d | e);
            wr(m, o(0), r, d | e)?;
        }
        "algr" | "alcgr" | "slgr" | "slbgr" | "algrk" | "slgrk" => {
            let (a, b) = if ops.len() == 3 { (1, 2) } else { (0, 1) };
            let (x, d) = rd(m, o(a))?;
            let (y, e) = rd(m, o(b))?;
            let c = m.flags;
            let fd = m.fdep;
            // carry (no borrow) is the first bit of the condition code
            let s = match &mn[..3] {
                "alg" => x + y,
                "alc" => x + y + (c >> 1 & 1),
                "slg" => x + mask(!y, 64) + 1,
                _ => x + mask(!y, 64) + (c >> 1 & 1),
            };
            let r = mask(s, 64);
            let d = d | e | if mn.starts_with("alc") || mn.starts_with("slb") { fd } else { 0 };
            cc(m, (s >> 64 & 1) << 1 | (r != 0) as u128, d);
            wr(m, o(0), r, d)?;
        }
        "agr" | "sgr" | "aghi" | "agrk" | "sgrk" => {
            let (a, b) = if ops.len() == 3 { (1, 2) } else { (0, 1) };
            let (x, d) = rd(m, o(a))?;
            let (y, e) = rd(m, o(b))?;
            let sub = mn.starts_with("sg");
            let r = mask(if sub { x.wrapping_sub(y) } else { x.wrapping_add(y) }, 64);
            let wide = if sub { sext(x, 64) - sext(y, 64) } else { sext(x, 64) + sext(y, 64) };
            let c = if wide != sext(r, 64) { 3 } else if r == 0 { 0 } else if sext(r, 64) < 0 { 1 } else { 2 };
            cc(m, c, d | e);
            wr(m, o(0), r, d | e)?;
        }
        "clgr" | "cgr" => {
            let (x, d) = rd(m, o(0))?;
            let (y, e) = rd(m, o(1))?;
            let lt = if mn == "cgr" { sext(x, 64) < sext(y, 64) } else { x < y };
            cc(m, if x == y { 0 } else if lt { 1 } else { 2 }, d | e);
        }
        "ipm" => {
            // condition code in bits 28..29, program mask in 24..27; the rest of the low word is kept
            let r = reg(Arch::S390x, o(0)).unwrap_or(0);
            let (v, d) = m.r(r);
            let (c, fd) = (m.flags, m.fdep);
            m.set(r, ((v & !0xff00_0000u128) | c << 28, d | fd));
        }
        "srl" | "sll" | "srlg" | "sllg" => {
            let (a, b) = if ops.len() == 3 { (1, 2) } else { (0, 1) };
            let (x, d) = rd(m, o(a))?;
            let n = parse_imm(o(b)).unwrap_or(0) as u32 & 63;
            let w = if mn.ends_with('g') { 64 } else { 32 };
            let r = if mn.starts_with("srl") { mask(x, w) >> n } else { mask(x << n, w) };
            let r = if w == 32 { (x & !mask(!0, 32)) | r } else { r };
            wr(m, o(0), r, d)?;
        }
        "cdsg" | "csg" => {
            let (r1, r3) = (reg(Arch::S390x, o(0)).unwrap_or(0), reg(Arch::S390x, o(1)).unwrap_or(0));
            let a = s390_addr(m, o(2))?;
            if mn == "csg" {
                let (c, v) = (m.r(r1), m.r(r3));
                let (old, ok, d) = m.cas(a, 8, c, v, HW_ACQ | HW_REL | HW_SC)?;
                if !ok {
                    m.set(r1, (old, d));
                }
                cc(m, !ok as u128, d);
                return Ok(Next::Fall);
            }
            if r1 % 2 != 0 || r3 % 2 != 0 {
                return unsup("cdsg register pair");
            }
            let pair = |m: &A, r: usize| {
                let (h, d) = m.r(r);
                let (l, e) = m.r(r + 1);
                (h << 64 | l, d | e)
            };
            let (c, v) = (pair(m, r1), pair(m, r3));
            let (old, ok, d) = m.cas(a, 16, c, v, HW_ACQ | HW_REL | HW_SC)?;
            if !ok {
                m.set(r1, (old >> 64, d));
                m.set(r1 + 1, (mask(old, 64), d));
            }
            cc(m, !ok as u128, d);
        }
        "lpq" => {
            let r = reg(Arch::S390x, o(0)).unwrap_or(0);
            let a = s390_addr(m, o(1))?;
            m.align(a.0 as u64, 16)?;
            let (v, d) = m.load(a, 16, 0)?;
            m.set(r, (v >> 64, d));
            m.set(r + 1, (mask(v, 64), d));
        }
        "stpq" => {
            let r = reg(Arch::S390x, o(0)).unwrap_or(0);
            let a = s390_addr(m, o(1))?;
            m.align(a.0 as u64, 16)?;
            let (h, d) = m.r(r);
            let (l, e) = m.r(r + 1);
            m.store(a, 16, (h << 64 | l, d | e), 0)?;
        }
        _ => return m.unknown(i),
    }
    Ok(Next::Fall)
}

// ---------------------------------------------------------------- MSP430
enum MOp {
    R(usize),
    M((u128, D)),
    I(u128),
}
fn msp_op(m: &A, s: &str) -> Result<MOp, Stop> {
    let t = s.trim();
    if let Some(r) = reg(Arch::Msp430, t) {
        return Ok(MOp::R(r));
    }
    if let Some(r) = t.strip_prefix('@') {
        let (v, d) = rd(m, r)?;
        return Ok(MOp::M((v, d)));
    }
    if let Some(b) = t.find('(') {
        let off = parse_imm(&t[..b]).unwrap_or(0);
        let (v, d) = rd(m, t[b + 1..].trim_end_matches(')'))?;
        return Ok(MOp::M((mask(v.wrapping_add(off as u128), 16), d)));
    }
    match parse_imm(t) {
        Some(v) => Ok(MOp::I(mask(v as u128, 16))),
        None => unsup(format!("operand {s}")),
    }
}
fn msp(m: &mut A, i: &Ins) -> Result<Next, Stop> {
    let ops = i.ops.clone();
    let (base, w) = match i.mn.split_once('.') {
        Some((b, "b")) => (b.to_string(), 8),
        Some((b, _)) => (b.to_string(), 16),
        None => (i.mn.clone(), 16),
    };
    let n = w / 8;
    match base.as_str() {
        "nop" => return Ok(Next::Fall),
        "dint" => {
            m.sysw(SYS_MSPSR, (0, 0), 8)?;
            return Ok(Next::Fall);
        }
        "eint" => {
            m.sysw(SYS_MSPSR, (8, 0), 8)?;
            return Ok(Next::Fall);
        }
        _ => {}
    }
    let unary = matches!(base.as_str(), "inv" | "inc" | "dec" | "clr" | "incd" | "decd" | "tst");
    let (s, d) = if unary { (MOp::I(0), msp_op(m, ops.first().map(|s| s.as_str()).unwrap_or(""))?) } else { (msp_op(m, ops.first().map(|s| s.as_str()).unwrap_or(""))?, msp_op(m, ops.get(1).map(|s| s.as_str()).unwrap_or(""))?) };
    let get = |m: &mut A, x: &MOp| -> Result<(u128, D), Stop> {
        Ok(match x {
            MOp::R(2) => m.sysr(SYS_MSPSR)?,
            MOp::R(r) => {
                let (v, d) = m.r(*r);
                (mask(v, w), d)
            }
            MOp::I(v) => (mask(*v, w), 0),
            MOp::M(a) => {
                m.align(a.0 as u64, n)?;
                m.load(*a, n, 0)?
            }
        })
    };
    let (sv, sd) = get(m, &s)?;
    let (op, v) = match base.as_str() {
        "mov" => (None, sv),
        "clr" => (None, 0),
        "add" => (Some(RmwOp::Add), sv),
        "inc" => (Some(RmwOp::Add), 1),
        "incd" => (Some(RmwOp::Add), 2),
        "sub" => (Some(RmwOp::Sub), sv),
        "dec" => (Some(RmwOp::Sub), 1),
        "decd" => (Some(RmwOp::Sub), 2),
        "and" => (Some(RmwOp::And), sv),
        "bis" => (Some(RmwOp::Or), sv),
        "bic" => (Some(RmwOp::Clr), sv),
        "xor" => (Some(RmwOp::Xor), sv),
        "inv" => (Some(RmwOp::Xor), mask(!0, w)),
        _ => return m.unknown(i),
    };
    let flags = !matches!(base.as_str(), "mov" | "clr" | "bis" | "bic");
    match (&d, op) {
        (MOp::R(2), None) => {
            m.sysw(SYS_MSPSR, (sv, sd), 0xffff)?;
            m.flags = 1 << 20 | sv & 0x107;
            m.fdep |= sd;
        }
        (MOp::R(2), Some(RmwOp::Or)) => {
            m.sysw(SYS_MSPSR, (0xffff, sd), v)?;
        }
        (MOp::R(2), Some(RmwOp::Clr)) => {
            m.sysw(SYS_MSPSR, (0, sd), v)?;
        }
        (MOp::R(2), _) => return m.unknown(i),
        (MOp::R(r), None) => m.set(*r, (mask(v, w), sd)),
        (MOp::R(r), Some(op)) => {
            let (x, e) = m.r(*r);
            let res = rmw_val(op, mask(x, w), v, w)?;
            m.set(*r, (res, e | sd));
            if flags {
                msp_flags(m, res, w);
            }
        }
        (MOp::M(a), None) => {
            m.align(a.0 as u64, n)?;
            m.store(*a, n, (v, sd), 0)?;
        }
        (MOp::M(a), Some(op)) => {
            let (old, _) = m.rmw(op, *a, n, (v, sd), 0)?;
            let res = rmw_val(op, old, v, w)?;
            if flags {
                msp_flags(m, res, w);
            }
        }
        _ => return m.unknown(i),
    }
    Ok(Next::Fall)
}
fn msp_flags(m: &mut A, r: u128, w: u32) {
    let z = (r == 0) as u128;
    let nn = r >> (w - 1) & 1;
    // always differ from both garbage patterns, so that an undeclared change shows
    m.flags = 1 << 20 | nn << 2 | z << 1 | (1 - z);
}

// ---------------------------------------------------------------- AVR
fn avr_ptr(m: &A, s: &str) -> Result<((u128, D), Option<usize>, i32), Stop> {
    let t = s.trim();
    let r = |b: usize, m: &A| {
        let (l, d) = m.r(b);
        let (h, e) = m.r(b + 1);
        (l | h << 8, d | e)
    };
    let (pre, t2) = match t.strip_prefix('-') {
        Some(x) => (true, x),
        None => (false, t),
    };
    let (name, rest) = t2.split_at(1);
    let b = match name {
        "X" | "x" => 26,
        "Y" | "y" => 28,
        "Z" | "z" => 30,
        _ => return unsup(format!("address {s}")),
    };
    let (v, d) = r(b, m);
    if pre {
        let nv = mask(v.wrapping_sub(1), 16);
        return Ok(((nv, d), Some(b), -1));
    }
    match rest.trim() {
        "" => Ok(((v, d), None, 0)),
        "+" => Ok(((v, d), Some(b), 1)),
        q => match parse_imm(q.trim_start_matches('+')) {
            Some(k) => Ok(((mask(v.wrapping_add(k as u128), 16), d), None, 0)),
            None => unsup(format!("address {s}")),
        },
    }
}
fn avr(m: &mut A, i: &Ins) -> Result<Next, Stop> {
    let ops = i.ops.clone();
    let o = |k: usize| ops.get(k).map(|s| s.as_str()).unwrap_or("");
    const I: u128 = 0x80;
    match i.mn.as_str() {
        "nop" => {}
        "cli" => {
            m.sysw(SYS_SREG, (0, 0), I)?;
        }
        "sei" => {
            m.sysw(SYS_SREG, (I, 0), I)?;
        }
        "in" => {
            if parse_imm(o(1)) != Some(0x3f) {
                return m.unknown(i);
            }
            let (v, d) = m.sysr(SYS_SREG)?;
            wr(m, o(0), v, d)?;
        }
        "out" => {
            if parse_imm(o(0)) != Some(0x3f) {
                return m.unknown(i);
            }
            let v = rd(m, o(1))?;
            m.sysw(SYS_SREG, v, 0xff)?;
            // the arithmetic flags are overwritten as well; the marker differs from both entry patterns
            m.flags = 1 << 20 | m.flags & 0xff;
        }
        "ld" | "ldd" | "lds" => {
            if i.mn == "lds" {
                return m.unknown(i);
            }
            let (a, w, dir) = avr_ptr(m, o(1))?;
            let v = m.load(a, 1, 0)?;
            wr(m, o(0), v.0, v.1)?;
            avr_wb(m, a, w, dir);
        }
        "st" | "std" => {
            let (a, w, dir) = avr_ptr(m, o(0))?;
            let v = rd(m, o(1))?;
            m.store(a, 1, v, 0)?;
            avr_wb(m, a, w, dir);
        }
        "xch" | "las" | "lac" | "lat" => {
            m.need("rmw")?;
            let (a, _, _) = avr_ptr(m, o(0))?;
            let v = rd(m, o(1))?;
            let op = match i.mn.as_str() { "xch" => RmwOp::Xchg, "las" => RmwOp::Or, "lac" => RmwOp::Clr, _ => RmwOp::Xor };
            let (old, d) = m.rmw(op, a, 1, v, 0)?;
            wr(m, o(1), old, d)?;
        }
        "mov" => {
            let (v, d) = rd(m, o(1))?;
            wr(m, o(0), v, d)?;
        }
        "movw" => {
            let (d, s) = (reg(Arch::Avr, o(0)).unwrap_or(0), reg(Arch::Avr, o(1)).unwrap_or(0));
            let (x, y) = (m.r(s), m.r(s + 1));
            m.set(d, x);
            m.set(d + 1, y);
        }
        "and" | "or" | "eor" | "com" | "ldi" | "andi" | "ori" => {
            let (x, d) = rd(m, o(0))?;
            let (y, e) = if ops.len() > 1 { rd(m, o(1))? } else { (0, 0) };
            let r = match i.mn.as_str() { "and" | "andi" => x & y, "or" | "ori" => x | y, "eor" => x ^ y, "com" => !x, _ => y };
            wr(m, o(0), r, d | e)?;
            if i.mn != "ldi" {
                m.flags = 1 << 20 | (mask(r, 8) == 0) as u128;
            }
        }
        _ => return m.unknown(i),
    }
    Ok(Next::Fall)
}
fn avr_wb(m: &mut A, a: (u128, D), w: Option<usize>, dir: i32) {
    if let Some(b) = w {
        let nv = if dir > 0 { mask(a.0 + 1, 16) } else { a.0 };
        m.set(b, (nv & 0xff, a.1));
        m.set(b + 1, (nv >> 8, a.1));
    }
}
