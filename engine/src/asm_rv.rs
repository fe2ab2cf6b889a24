//! RISC-V.
use crate::asm::*;
use crate::interp::*;
use crate::ir::*;

type A<'x, 'y> = Am<'x, 'y>;
const ABI: [&str; 32] = [
    "zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11",
    "t3", "t4", "t5", "t6",
];
pub fn reg(n: &str) -> Option<usize> {
    if let Some(i) = ABI.iter().position(|x| *x == n) {
        return Some(i);
    }
    if n == "fp" {
        return Some(8);
    }
    let i: usize = n.strip_prefix('x')?.parse().ok()?;
    if i < 32 { Some(i) } else { None }
}
fn xlen(m: &A) -> u32 {
    if m.arch() == Arch::Rv64 { 64 } else { 32 }
}
fn rd(m: &A, s: &str) -> Result<(u128, D), Stop> {
    match reg(s.trim()) {
        Some(0) => Ok((0, 0)),
        Some(i) => Ok(m.r(i)),
        None => match parse_imm(s) {
            Some(v) => Ok((mask(v as u128, xlen(m)), 0)),
            None => unsup(format!("operand {s}")),
        },
    }
}
fn wr(m: &mut A, s: &str, v: u128, d: D) -> Result<(), Stop> {
    match reg(s.trim()) {
        Some(0) => Ok(()),
        Some(i) => {
            m.set(i, (v, d));
            Ok(())
        }
        None => unsup(format!("register {s}")),
    }
}
fn addr(m: &A, s: &str) -> Result<(u128, D), Stop> {
    let Some(b) = s.find('(') else { return unsup(format!("address {s}")) };
    let off = if s[..b].trim().is_empty() { Some(0) } else { parse_imm(&s[..b]) };
    let Some(off) = off else { return unsup(format!("address {s}")) };
    let (v, d) = rd(m, s[b + 1..].trim_end_matches(')').trim())?;
    Ok((mask(v.wrapping_add(off as u128), xlen(m)), d))
}
fn aqrl(s: &str) -> Option<u32> {
    Some(match s {
        "" => 0,
        "aq" => HW_ACQ,
        "rl" => HW_REL,
        "aqrl" => HW_ACQ | HW_REL | HW_SC,
        _ => return None,
    })
}
pub fn exec(m: &mut A, i: &Ins) -> Result<Next, Stop> {
    let ops = i.ops.clone();
    let o = |k: usize| ops.get(k).map(|s| s.as_str()).unwrap_or("");
    let mn = i.mn.as_str();
    let w = xlen(m);
    match mn {
        "nop" | "pause" => {}
        "mv" | "li" => {
            let (v, d) = rd(m, o(1))?;
            wr(m, o(0), v, d)?;
        }
        "not" => {
            let (v, d) = rd(m, o(1))?;
            wr(m, o(0), !v, d)?;
        }
        "neg" => {
            let (v, d) = rd(m, o(1))?;
            wr(m, o(0), 0u128.wrapping_sub(v), d)?;
        }
        "seqz" | "snez" => {
            let (v, d) = rd(m, o(1))?;
            wr(m, o(0), ((v == 0) == (mn == "seqz")) as u128, d)?;
        }
        "add" | "addi" | "sub" | "and" | "andi" | "or" | "ori" | "xor" | "xori" | "sll" | "slli" | "srl" | "srli" | "sra" | "srai" | "sltu" | "sltiu" | "slt" | "slti" => {
            let (x, d) = rd(m, o(1))?;
            let (y, e) = rd(m, o(2))?;
            let sh = (y % w as u128) as u32;
            let r = match mn {
                "add" | "addi" => x.wrapping_add(y),
                "sub" => x.wrapping_sub(y),
                "and" | "andi" => x & y,
                "or" | "ori" => x | y,
                "xor" | "xori" => x ^ y,
                "sll" | "slli" => x << sh,
                "srl" | "srli" => x >> sh,
                "sra" | "srai" => (sext(x, w) >> sh) as u128,
                "sltu" | "sltiu" => (x < y) as u128,
                _ => (sext(x, w) < sext(y, w)) as u128,
            };
            wr(m, o(0), r, d | e)?;
        }
        "addw" | "addiw" | "subw" | "sllw" | "slliw" | "srlw" | "srliw" | "sraw" | "sraiw" => {
            let (x, d) = rd(m, o(1))?;
            let (y, e) = rd(m, o(2))?;
            let (x, sh) = (mask(x, 32), (y % 32) as u32);
            let r = match mn {
                "addw" | "addiw" => x.wrapping_add(y),
                "subw" => x.wrapping_sub(y),
                "sllw" | "slliw" => x << sh,
                "srlw" | "srliw" => x >> sh,
                _ => (sext(x, 32) >> sh) as u128,
            };
            wr(m, o(0), sext(mask(r, 32), 32) as u128, d | e)?;
        }
        "sext.w" | "sext.b" | "sext.h" | "zext.b" | "zext.h" | "zext.w" => {
            let (x, d) = rd(m, o(1))?;
            let b = match &mn[5..] { "w" => 32, "h" => 16, _ => 8 };
            let r = if mn.starts_with('s') { sext(mask(x, b), b) as u128 } else { mask(x, b) };
            wr(m, o(0), r, d)?;
        }
        "lb" | "lbu" | "lh" | "lhu" | "lw" | "lwu" | "ld" => {
            let n = match &mn[1..2] { "b" => 1, "h" => 2, "w" => 4, _ => 8 };
            let a = addr(m, o(1))?;
            m.align(a.0 as u64, n)?;
            let (v, d) = m.load(a, n, 0)?;
            wr(m, o(0), if mn.ends_with('u') { v } else { sext(v, n * 8) as u128 }, d)?;
        }
        "sb" | "sh" | "sw" | "sd" => {
            let n = match mn { "sb" => 1, "sh" => 2, "sw" => 4, _ => 8 };
            let v = rd(m, o(0))?;
            let a = addr(m, o(1))?;
            m.align(a.0 as u64, n)?;
            m.store(a, n, v, 0)?;
        }
        "fence" => {
            let bits = |s: &str| if s.is_empty() { 3 } else { s.contains('r') as u32 | (s.contains('w') as u32) << 1 };
            let (p, s) = (bits(o(0)), bits(o(1)));
            m.fence(if p == 3 && s == 3 { FK_FULL } else { FK_PS | p << 4 | s })?;
        }
        "fence.tso" => m.fence(FK_LW)?,
        "fence.i" => m.fence(FK_ISYNC)?,
        "beqz" | "bnez" | "beq" | "bne" | "blt" | "bge" | "bltu" | "bgeu" | "bgtz" | "blez" | "bltz" | "bgez" => {
            let (x, d) = rd(m, o(0))?;
            let two = !mn.ends_with('z');
            let (y, e) = if two { rd(m, o(1))? } else { (0, 0) };
            let (sx, sy) = (sext(x, w), sext(y, w));
            let t = match mn {
                "beqz" | "beq" => x == y,
                "bnez" | "bne" => x != y,
                "blt" | "bltz" => sx < sy,
                "bge" | "bgez" => sx >= sy,
                "bgtz" => sx > sy,
                "blez" => sx <= sy,
                "bltu" => x < y,
                _ => x >= y,
            };
            m.m.t.ctrl |= d | e;
            if t {
                return Ok(Next::Jump(o(if two { 2 } else { 1 }).into()));
            }
        }
        "j" => return Ok(Next::Jump(o(0).into())),
        "csrr" | "csrw" | "csrs" | "csrc" | "csrsi" | "csrci" | "csrwi" | "csrrs" | "csrrc" | "csrrw" | "csrrsi" | "csrrci" | "csrrwi" => {
            // csrX csr, src  |  csrrX rd, csr, src
            let three = mn.starts_with("csrr") && mn != "csrr";
            let (dst, csr, s) = if mn == "csrr" { (o(0), o(1), "zero") } else if three { (o(0), o(1), o(2)) } else { ("zero", o(0), o(1)) };
            let id = match csr.trim() {
                "mstatus" => SYS_MSTATUS,
                "sstatus" => SYS_SSTATUS,
                _ => return unsup(format!("csr {csr}")),
            };
            let v = rd(m, s)?;
            let op = mn.trim_end_matches('i').chars().last().unwrap();
            let full = mask(!0, w);
            let (old, d) = match op {
                'r' => m.sysr(id)?,
                's' => if v.0 == 0 { m.sysr(id)? } else { m.sysw(id, (full, v.1), v.0)? },
                'c' => if v.0 == 0 { m.sysr(id)? } else { m.sysw(id, (0, v.1), v.0)? },
                _ => m.sysw(id, v, full)?,
            };
            wr(m, dst, old, d)?;
        }
        "ecall" => {
            // riscv_hwprobe(pairs, count, cpusetsize, cpus, flags)
            let nr = m.r(17).0;
            if nr != 258 {
                return unsup(format!("system call {nr}"));
            }
            let (p, n) = (m.r(10), m.r(11).0);
            let probe = m.m.c.cpu.hwprobe.clone();
            let ok = m.r(12).0 == 0 && m.r(13).0 == 0 && m.r(14).0 == 0;
            match (probe, ok) {
                (Some(t), true) => {
                    for k in 0..n {
                        let a = (p.0 + k * 16, p.1);
                        let (key, _) = m.load(a, 8, 0)?;
                        let key = sext(key, 64) as i64;
                        match t.get(&key) {
                            Some(v) => m.store((a.0 + 8, a.1), 8, (*v as u128, 0), 0)?,
                            None => {
                                m.store(a, 8, (mask(!0, 64), 0), 0)?;
                                m.store((a.0 + 8, a.1), 8, (0, 0), 0)?;
                            }
                        }
                    }
                    m.set(10, (0, 0));
                }
                (None, _) => m.set(10, (mask((-38i128) as u128, w), 0)),
                _ => m.set(10, (mask((-22i128) as u128, w), 0)),
            }
        }
        _ => return amo(m, i, &ops, mn),
    }
    Ok(Next::Fall)
}
fn amo(m: &mut A, i: &Ins, ops: &[String], mn: &str) -> Result<Next, Stop> {
    let o = |k: usize| ops.get(k).map(|s| s.as_str()).unwrap_or("");
    let mut p = mn.splitn(3, '.');
    let (base, sz, ord) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
    let n = match sz { "b" => 1, "h" => 2, "w" => 4, "d" => 8, "q" => 16, _ => return m.unknown(i) };
    let Some(hw) = aqrl(ord) else { return m.unknown(i) };
    let w = xlen(m);
    if n < 4 {
        m.need("zabha")?;
    }
    if base == "amocas" {
        m.need("zacas")?;
        let a = addr(m, o(2))?;
        let pair = n * 8 > w;
        let even = |s: &str| reg(s).map(|r| r % 2 == 0).unwrap_or(false);
        if pair && (!even(o(0)) || !even(o(1))) {
            return unsup("amocas register pair");
        }
        let get = |m: &A, s: &str| -> Result<(u128, D), Stop> {
            let r = reg(s).unwrap_or(0);
            if r == 0 {
                return Ok((0, 0));
            }
            let (x, d) = m.r(r);
            if pair {
                let (y, e) = m.r(r + 1);
                Ok((mask(x, w) | y << w, d | e))
            } else {
                Ok((x, d))
            }
        };
        let c = get(m, o(0))?;
        let v = get(m, o(1))?;
        let (old, _, d) = m.cas(a, n, c, v, hw)?;
        let r = reg(o(0)).unwrap_or(0);
        if r != 0 {
            if pair {
                m.set(r, (mask(old, w), d));
                m.set(r + 1, (old >> w, d));
            } else {
                m.set(r, (sext(old, n * 8) as u128, d));
            }
        }
        return Ok(Next::Fall);
    }
    if base == "lr" {
        let a = addr(m, o(1))?;
        let (v, d) = m.ll(a, n, hw)?;
        wr(m, o(0), sext(v, n * 8) as u128, d)?;
        return Ok(Next::Fall);
    }
    if base == "sc" {
        let v = rd(m, o(1))?;
        let a = addr(m, o(2))?;
        let ok = m.sc(a, n, v, hw)?;
        wr(m, o(0), !ok as u128, 0)?;
        return Ok(Next::Fall);
    }
    let op = match base {
        "amoswap" => RmwOp::Xchg,
        "amoadd" => RmwOp::Add,
        "amoand" => RmwOp::And,
        "amoor" => RmwOp::Or,
        "amoxor" => RmwOp::Xor,
        "amomax" => RmwOp::Max,
        "amomin" => RmwOp::Min,
        "amomaxu" => RmwOp::UMax,
        "amominu" => RmwOp::UMin,
        _ => return m.unknown(i),
    };
    let v = rd(m, o(1))?;
    let a = addr(m, o(2))?;
    m.need("a")?;
    let (old, d) = m.rmw(op, a, n, (mask(v.0, n * 8), v.1), hw)?;
    wr(m, o(0), sext(old, n * 8) as u128, d)?;
    Ok(Next::Fall)
}
