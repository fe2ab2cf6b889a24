//! Inline assembly: operand allocation, template substitution, and the frame in which the per-architecture
//! interpreters run.
use crate::asm_a64;
use crate::asm_misc;
use crate::asm_rv;
use crate::asm_x86;
use crate::interp::*;
use crate::ir::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Arch {
    X86,
    X64,
    A64,
    Arm,
    Rv32,
    Rv64,
    Ppc64,
    S390x,
    Msp430,
    Avr,
    Other,
}
impl Arch {
    pub fn of_triple(t: &str) -> Arch {
        let a = t.split('-').next().unwrap_or("");
        if a.starts_with("x86_64") {
            Arch::X64
        } else if a.starts_with('i') && a.ends_with("86") {
            Arch::X86
        } else if a.starts_with("aarch64") || a.starts_with("arm64") {
            Arch::A64
        } else if a.starts_with("arm") || a.starts_with("thumb") {
            Arch::Arm
        } else if a.starts_with("riscv32") {
            Arch::Rv32
        } else if a.starts_with("riscv64") {
            Arch::Rv64
        } else if a.starts_with("powerpc64") {
            Arch::Ppc64
        } else if a.starts_with("s390x") {
            Arch::S390x
        } else if a.starts_with("msp430") {
            Arch::Msp430
        } else if a.starts_with("avr") {
            Arch::Avr
        } else {
            Arch::Other
        }
    }
}

/// fence kinds (`Req::hw` of a fence made by assembly)
pub const FK_FULL: u32 = 1;
pub const FK_LD: u32 = 2;
pub const FK_ST: u32 = 3;
pub const FK_LW: u32 = 4;
pub const FK_ISYNC: u32 = 5;
/// predecessor set << 4 | successor set; 1 = reads, 2 = writes
pub const FK_PS: u32 = 0x100;

pub const SYS_CS: u32 = 0;
pub const SYS_MSTATUS: u32 = 1;
pub const SYS_SSTATUS: u32 = 2;
pub const SYS_PRIMASK: u32 = 3;
pub const SYS_CPSR: u32 = 4;
pub const SYS_SREG: u32 = 5;
pub const SYS_MSPSR: u32 = 6;

/// What the modelled machine has, and what it tells software that asks.
#[derive(Clone, Debug, Default)]
pub struct CpuModel {
    pub name: String,
    /// instruction set extensions the CPU executes
    pub feats: BTreeSet<String>,
    /// answers
    pub auxv: BTreeMap<u64, u64>,
    pub cpuid: HashMap<(u32, u32), [u32; 4]>,
    pub xcr0: u64,
    pub dl: BTreeSet<String>,
    pub sysctl: BTreeMap<String, u32>,
    /// riscv_hwprobe: key -> value; None: syscall fails
    pub hwprobe: Option<BTreeMap<i64, u64>>,
    /// other answers of the operating system
    pub answers: BTreeMap<String, Vec<u8>>,
    pub kuser_version: u32,
    pub sysreg: BTreeMap<String, u64>,
}
impl CpuModel {
    pub fn has(&self, f: &str) -> bool {
        self.feats.contains(f)
    }
    pub fn xgetbv(&self, i: u32) -> u64 {
        if i == 0 {
            self.xcr0
        } else {
            0
        }
    }
    pub fn getauxval(&self, k: u64) -> u64 {
        self.auxv.get(&k).copied().unwrap_or(0)
    }
    pub fn dlsym(&self, p: &Program, s: &str) -> u64 {
        if self.dl.contains(s) {
            sym_addr(p, s).unwrap_or(0)
        } else {
            0
        }
    }
    pub fn sysctl(&self, s: &str) -> Option<u32> {
        self.sysctl.get(s.trim_end_matches('\0')).copied()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ins {
    pub mn: String,
    pub ops: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Operand {
    pub out: bool,
    pub early: bool,
    pub reg: Vec<usize>,
    pub ty: Ty,
}

#[derive(Debug)]
pub struct AsmProg {
    pub site: u32,
    pub ins: Vec<Ins>,
    pub labels: Vec<(String, usize)>,
    pub outs: Vec<Operand>,
    pub ins_: Vec<Operand>,
    pub clob: BTreeSet<usize>,
    pub flags_clob: bool,
    pub clob_names: Vec<String>,
    pub mem: bool,
    /// the compiler may assume that it writes no memory
    pub ro: bool,
    pub text: String,
    pub noverlap: u32,
}

#[derive(Clone, Debug)]
pub struct AsmSt {
    pub prog: Arc<AsmProg>,
    pub pc: usize,
    pub regs: Vec<(u128, D)>,
    pub flags: u128,
    pub fdep: D,
    pub entry: Arc<(Vec<(u128, D)>, u128)>,
    pub steps: u32,
}
impl PartialEq for AsmSt {
    fn eq(&self, o: &AsmSt) -> bool {
        self.prog.site == o.prog.site && self.pc == o.pc && self.regs == o.regs && self.flags == o.flags && self.fdep == o.fdep && self.entry == o.entry
    }
}
impl Eq for AsmSt {}
impl std::hash::Hash for AsmSt {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.prog.site.hash(h);
        self.pc.hash(h);
        self.regs.hash(h);
        self.flags.hash(h);
        self.fdep.hash(h);
        self.entry.hash(h);
    }
}

fn nregs(a: Arch) -> usize {
    match a {
        Arch::X64 | Arch::X86 => 48,
        Arch::A64 => 64,
        _ => 40,
    }
}
/// width of a general register in bits
pub fn reg_bits(a: Arch, r: usize) -> u32 {
    match a {
        Arch::X64 => if r >= 16 { 128 } else { 64 },
        Arch::X86 => if r >= 16 { 128 } else { 32 },
        Arch::A64 => if r >= 32 { 128 } else { 64 },
        Arch::Arm | Arch::Rv32 => 32,
        Arch::Rv64 | Arch::Ppc64 | Arch::S390x => 64,
        Arch::Msp430 => 16,
        Arch::Avr => 8,
        Arch::Other => 64,
    }
}
fn pool(a: Arch, class: &str) -> Vec<usize> {
    match (a, class) {
        (Arch::X64, "x") | (Arch::X86, "x") | (Arch::X64, "v") => (16..32).collect(),
        (Arch::X64, "q") | (Arch::X64, "Q") => vec![0, 1, 2, 3],
        (Arch::X64, _) => vec![11, 12, 13, 14, 15, 9, 10, 7, 6, 8, 1, 2, 0],
        (Arch::X86, "q") | (Arch::X86, "Q") => vec![1, 2, 0, 3],
        (Arch::X86, _) => vec![1, 2, 7, 0, 6, 3],
        (Arch::A64, "w") | (Arch::A64, "x") => (32..64).collect(),
        (Arch::A64, _) => vec![9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 21, 22, 23, 24, 25, 26, 27, 28, 0, 1, 2, 3, 4, 5, 6, 7, 8],
        (Arch::Arm, "l") => vec![0, 1, 2, 3, 4, 5, 7],
        (Arch::Arm, _) => vec![0, 1, 2, 3, 4, 5, 8, 9, 10, 12, 7],
        (Arch::Rv32 | Arch::Rv64, _) => vec![5, 6, 7, 28, 29, 30, 31, 10, 11, 12, 13, 14, 15, 16, 17],
        (Arch::Ppc64, "b") => vec![3, 10, 11, 12, 14, 15, 16, 17, 4, 5, 6, 7],
        (Arch::Ppc64, _) => vec![0, 10, 11, 12, 14, 15, 16, 17, 18, 19, 3, 4, 5],
        (Arch::S390x, "a") => vec![2, 3, 6, 7, 8, 9, 10, 1],
        (Arch::S390x, _) => vec![0, 1, 2, 3, 6, 7, 8, 9, 10, 4, 5],
        (Arch::Msp430, _) => vec![12, 13, 14, 15, 5, 6, 7, 8, 9, 10],
        (Arch::Avr, "d") => (16..26).collect(),
        (Arch::Avr, "e" | "b" | "z" | "x" | "y") => vec![30, 28, 26],
        (Arch::Avr, _) => vec![24, 25, 22, 23, 18, 19, 20, 21],
        _ => (0..16).collect(),
    }
}
pub fn find_reg(a: Arch, n: &str) -> Option<usize> {
    let n = n.trim().trim_start_matches('%');
    match a {
        Arch::X64 | Arch::X86 => asm_x86::reg(n).map(|r| r.0),
        Arch::A64 => asm_a64::reg(n).map(|r| r.0),
        Arch::Rv32 | Arch::Rv64 => asm_rv::reg(n),
        _ => asm_misc::reg(a, n),
    }
}
fn reg_name(a: Arch, r: usize, modifier: Option<char>, bits: u32) -> String {
    match a {
        Arch::X64 | Arch::X86 => asm_x86::name(a, r, modifier, bits),
        Arch::A64 => asm_a64::name(r, modifier, bits),
        Arch::Rv32 | Arch::Rv64 => format!("x{r}"),
        _ => format!("r{r}"),
    }
}

fn split_constraints(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut depth = 0;
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '{' => depth += 1,
            '}' => depth -= 1,
            ',' if depth == 0 => {
                v.push(std::mem::take(&mut cur));
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.is_empty() || !v.is_empty() {
        v.push(cur);
    }
    v
}

pub fn nvariants(prog: &Program, arch: Arch) -> u32 {
    let mut n = 0;
    for i in 0..prog.asms.len() {
        if let Ok(p) = build(prog, arch, i as u32, 0) {
            n = n.max(p.noverlap);
        }
    }
    n + 1
}

/// `alloc`: 0 gives every operand a register of its own; k > 0 makes the k-th pair of (output that is not early
/// clobber, input) share a register, as the compiler may.
pub fn build(prog: &Program, arch: Arch, site: u32, alloc: u32) -> Result<AsmProg, String> {
    let s = &prog.asms[site as usize];
    let cs = split_constraints(&s.constraints);
    let rets: Vec<Ty> = match &s.ret {
        Ty::Void => vec![],
        Ty::Struct(f, _) => (**f).clone(),
        t => vec![t.clone()],
    };
    struct Op {
        cons: String,
        out: bool,
        early: bool,
        tied: Option<usize>,
        ty: Ty,
        reg: Vec<usize>,
    }
    let mut ops: Vec<Op> = vec![];
    let mut clob = BTreeSet::new();
    let mut clob_names = vec![];
    let (mut mem, mut flags) = (false, false);
    let (mut oi, mut ii) = (0, 0);
    for c in &cs {
        if let Some(n) = c.strip_prefix("~{") {
            let n = n.trim_end_matches('}');
            clob_names.push(n.to_string());
            match n {
                "memory" => mem = true,
                "flags" | "cc" | "cr0" | "sreg" | "sr" => flags = true,
                _ => {
                    if let Some(r) = find_reg(arch, n) {
                        clob.insert(r);
                    }
                }
            }
            continue;
        }
        if let Some(r) = c.strip_prefix('=') {
            let early = r.starts_with('&');
            let r = r.trim_start_matches('&');
            if r.starts_with('*') {
                return Err("indirect asm output".into());
            }
            let ty = rets.get(oi).cloned().ok_or("asm output count")?;
            oi += 1;
            ops.push(Op { cons: r.to_string(), out: true, early, tied: None, ty, reg: vec![] });
        } else {
            let ty = s.argtys.get(ii).cloned().ok_or("asm input count")?;
            ii += 1;
            let tied = c.parse::<usize>().ok();
            if c.starts_with('*') {
                return Err("indirect asm input".into());
            }
            ops.push(Op { cons: c.clone(), out: false, early: false, tied, ty, reg: vec![] });
        }
    }
    // overlap pairs
    let mut pairs = vec![];
    for (i, o) in ops.iter().enumerate() {
        if o.out && !o.early && !o.cons.starts_with('{') && !ops.iter().any(|x| x.tied == Some(i)) {
            for (j, p) in ops.iter().enumerate() {
                if !p.out && p.tied.is_none() && (p.cons == o.cons || (p.cons == "r" && o.cons == "r")) {
                    pairs.push((i, j));
                }
            }
        }
        // a fixed input register that is free to hold a late output
        if o.out && !o.early && !o.cons.starts_with('{') && o.cons == "r" && !ops.iter().any(|x| x.tied == Some(i)) {
            for (j, p) in ops.iter().enumerate() {
                if !p.out && p.tied.is_none() && p.cons.starts_with('{') {
                    let name = p.cons.trim_matches(|c| c == '{' || c == '}');
                    if let Some(r) = find_reg(arch, name) {
                        if !ops.iter().any(|q| q.out && q.cons.starts_with('{') && find_reg(arch, q.cons.trim_matches(|c| c == '{' || c == '}')) == Some(r)) {
                            pairs.push((i, j));
                        }
                    }
                }
            }
        }
    }
    let noverlap = pairs.len() as u32;
    let overlap = if alloc > 0 && noverlap > 0 { Some(pairs[((alloc - 1) % noverlap) as usize]) } else { None };
    let mut used: BTreeSet<usize> = clob.clone();
    let width = |t: &Ty| bits_of(t, &prog.layout);
    for o in &mut ops {
        if o.cons.starts_with('{') {
            let n = o.cons.trim_matches(|c| c == '{' || c == '}');
            let rs = fixed_regs(arch, n).ok_or_else(|| format!("asm register {n}"))?;
            used.extend(rs.iter().copied());
            o.reg = rs;
        }
    }
    for k in 0..ops.len() {
        if !ops[k].reg.is_empty() || ops[k].tied.is_some() {
            continue;
        }
        if let Some((i, j)) = overlap {
            if (k == i && !ops[j].reg.is_empty()) || (k == j && !ops[i].reg.is_empty()) {
                let r = if k == i { ops[j].reg.clone() } else { ops[i].reg.clone() };
                ops[k].reg = r;
                continue;
            }
        }
        let cl = ops[k].cons.clone();
        if matches!(cl.as_str(), "i" | "n" | "s" | "m" | "X") {
            return Err(format!("asm constraint {cl}"));
        }
        let n = if arch == Arch::Avr && width(&ops[k].ty) == 16 { 2 } else { 1 };
        let p = pool(arch, &cl);
        let cand = p.iter().copied().find(|r| (0..n).all(|d| !used.contains(&(r + d)) && (n == 1 || r % 2 == 0)));
        let r = cand.ok_or_else(|| format!("out of registers for {cl}"))?;
        for d in 0..n {
            used.insert(r + d);
            ops[k].reg.push(r + d);
        }
    }
    for k in 0..ops.len() {
        if let Some(t) = ops[k].tied {
            ops[k].reg = ops.get(t).ok_or("tied operand")?.reg.clone();
        }
    }
    // substitute
    let mut t = String::new();
    let mut it = s.template.chars().peekable();
    while let Some(c) = it.next() {
        if c != '$' {
            t.push(c);
            continue;
        }
        match it.peek() {
            Some('$') => {
                it.next();
                t.push('$');
            }
            Some('{') => {
                it.next();
                let mut w = String::new();
                for c in it.by_ref() {
                    if c == '}' {
                        break;
                    }
                    w.push(c);
                }
                let (n, md) = match w.split_once(':') {
                    Some((n, m)) => (n.to_string(), m.chars().next()),
                    None => (w.clone(), None),
                };
                if n.is_empty() {
                    t.push_str("uid");
                    continue;
                }
                let k: usize = n.parse().map_err(|_| format!("asm operand {w}"))?;
                let o = ops.get(k).ok_or("asm operand index")?;
                t.push_str(&reg_name(arch, o.reg[0], md, width(&o.ty)));
            }
            Some(d) if d.is_ascii_digit() => {
                let mut n = String::new();
                while let Some(d) = it.peek() {
                    if !d.is_ascii_digit() {
                        break;
                    }
                    n.push(*d);
                    it.next();
                }
                let o = ops.get(n.parse::<usize>().unwrap()).ok_or("asm operand index")?;
                t.push_str(&reg_name(arch, o.reg[0], None, width(&o.ty)));
            }
            _ => t.push('$'),
        }
    }
    let (ins, labels) = parse_text(arch, &t)?;
    let conv = |o: &Op| Operand { out: o.out, early: o.early, reg: o.reg.clone(), ty: o.ty.clone() };
    Ok(AsmProg {
        site,
        ins,
        labels,
        outs: ops.iter().filter(|o| o.out).map(conv).collect(),
        ins_: ops.iter().filter(|o| !o.out).map(conv).collect(),
        clob,
        flags_clob: flags,
        clob_names,
        mem: mem && s.reads,
        ro: !s.writes,
        text: t,
        noverlap,
    })
}
fn fixed_regs(a: Arch, n: &str) -> Option<Vec<usize>> {
    if a == Arch::Avr {
        // register pairs such as r31r30
        if let Some(p) = n[1..].find('r') {
            let hi: usize = n[1..p + 1].parse().ok()?;
            let lo: usize = n[p + 2..].parse().ok()?;
            return Some(vec![lo, hi]);
        }
        match n {
            "X" => return Some(vec![26, 27]),
            "Y" => return Some(vec![28, 29]),
            "Z" => return Some(vec![30, 31]),
            _ => {}
        }
    }
    find_reg(a, n).map(|r| vec![r])
}

/// Instructions written as a word, for assemblers that do not know them.
fn decode_word(a: Arch, w: u32) -> Option<String> {
    let f = |lo: u32, n: u32| w >> lo & ((1 << n) - 1);
    match a {
        Arch::A64 => {
            let order = ["", "l", "a", "al"][f(22, 2) as usize];
            let (rt, rn, r16) = (f(0, 5), f(5, 5), f(16, 5));
            match w & 0xffe0_fc00 {
                0xd940_1800 => return Some(format!("ldiapp x{rt}, x{r16}, [x{rn}]")),
                0xd900_1800 => return Some(format!("stilp x{rt}, x{r16}, [x{rn}]")),
                _ => {}
            }
            for (m, c) in [("swpp", 0x1920_8000), ("ldclrp", 0x1920_1000), ("ldsetp", 0x1920_3000)] {
                if w & 0xff20_fc00 == c {
                    return Some(format!("{m}{order} x{rt}, x{r16}, [x{rn}]"));
                }
            }
            for (m, c) in [("ldfadd", 0), ("ldfmax", 4), ("ldfmin", 5), ("ldfmaxnm", 6), ("ldfminnm", 7)] {
                if w & 0x3f20_fc00 == 0x3c20_0000 | c << 12 && f(30, 2) != 0 {
                    let r = ["b", "h", "s", "d"][f(30, 2) as usize];
                    return Some(format!("{m}{order} {r}{r16}, {r}{rt}, [x{rn}]"));
                }
            }
            None
        }
        Arch::Rv32 | Arch::Rv64 if f(0, 7) == 0x2f && f(27, 5) == 5 => {
            let size = *["b", "h", "w", "d", "q"].get(f(12, 3) as usize)?;
            let order = ["", ".rl", ".aq", ".aqrl"][f(25, 2) as usize];
            Some(format!("amocas.{size}{order} x{}, x{}, (x{})", f(7, 5), f(20, 5), f(15, 5)))
        }
        _ => None,
    }
}
pub fn parse_text(a: Arch, t: &str) -> Result<(Vec<Ins>, Vec<(String, usize)>), String> {
    let mut ins = vec![];
    let mut labels = vec![];
    let t = if a == Arch::Msp430 { t.replace('{', "\n") } else { t.to_string() };
    for line in t.split(|c| c == '\n' || c == ';') {
        let mut l = line;
        for c in ["//", "#!"] {
            if let Some(i) = l.find(c) {
                l = &l[..i];
            }
        }
        if matches!(a, Arch::Arm) {
            if let Some(i) = l.find('@') {
                l = &l[..i];
            }
        }
        if matches!(a, Arch::X64 | Arch::X86 | Arch::Rv32 | Arch::Rv64) {
            if let Some(i) = l.find('#') {
                l = &l[..i];
            }
        }
        if let Some(i) = l.find("/*") {
            l = &l[..i];
        }
        let mut l = l.trim();
        while let Some(i) = l.find(':') {
            let n = &l[..i];
            if n.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') {
                labels.push((n.to_string(), ins.len()));
                l = l[i + 1..].trim();
            } else {
                break;
            }
        }
        let word = [".inst", ".4byte", ".long", ".word"].iter().find_map(|d| l.strip_prefix(d)).filter(|r| r.starts_with(char::is_whitespace)).and_then(parse_imm);
        let decoded = word.and_then(|w| decode_word(a, w as u32));
        let l = decoded.as_deref().unwrap_or(l);
        if l.is_empty() || l.starts_with('.') && word.is_none() {
            continue;
        }
        let (mut mn, mut rest) = match l.find(char::is_whitespace) {
            Some(i) => (l[..i].to_lowercase(), l[i..].trim()),
            None => (l.to_lowercase(), ""),
        };
        while matches!(mn.as_str(), "lock" | "rep") {
            let (m, r) = match rest.find(char::is_whitespace) {
                Some(i) => (rest[..i].to_lowercase(), rest[i..].trim()),
                None => (rest.to_lowercase(), ""),
            };
            mn = format!("{mn} {m}");
            rest = r;
            if !m.is_empty() {
                break;
            }
        }
        let mut ops = vec![];
        let mut depth = 0;
        let mut cur = String::new();
        for c in rest.chars() {
            match c {
                '[' | '(' | '{' => depth += 1,
                ']' | ')' | '}' => depth -= 1,
                ',' if depth == 0 => {
                    ops.push(cur.trim().to_string());
                    cur.clear();
                    continue;
                }
                _ => {}
            }
            cur.push(c);
        }
        if !cur.trim().is_empty() {
            ops.push(cur.trim().to_string());
        }
        ins.push(Ins { mn, ops });
    }
    Ok((ins, labels))
}

fn mix(seed: u32, r: usize) -> u128 {
    let mut x = 0x9E37_79B9_7F4A_7C15u64 ^ ((seed as u64 + 1) << 40) ^ ((r as u64 + 1).wrapping_mul(0xD1B5_4A32_D192_ED03));
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 32;
    let y = x.wrapping_mul(0x94D0_49BB_1331_11EB) ^ (x >> 17);
    ((x as u128) << 64) | y as u128
}

pub fn start(c: &Ctx, t: &mut Thread, site: u32, args: &[V]) -> Result<(), Stop> {
    let key = (site, c.alloc);
    let got = c.cache.asmc.read().unwrap().get(&key).cloned();
    let prog = match got {
        Some(p) => p,
        None => {
            let p = Arc::new(build(&c.prog, c.arch, site, c.alloc).map_err(|e| Stop::Bad(Why::Unsupported, format!("{e}: {}", c.prog.asms[site as usize].template)))?);
            c.cache.asmc.write().unwrap().insert(key, p.clone());
            p
        }
    };
    let mut regs = vec![(0u128, 0); nregs(c.arch)];
    for (r, v) in regs.iter_mut().enumerate() {
        v.0 = mask(mix(c.garbage, r), reg_bits(c.arch, r));
    }
    if matches!(c.arch, Arch::Rv32 | Arch::Rv64) {
        regs[0] = (0, 0);
    }
    for (o, a) in prog.ins_.iter().zip(args) {
        let w = match &o.ty {
            Ty::Vector(..) => 128,
            t => bits_of(t, &c.prog.layout),
        };
        let v = match (&o.ty, a) {
            (Ty::Vector(_, e), a) => {
                let ew = bits_of(e, &c.prog.layout);
                let Ty::Vector(n, _) = &o.ty else { unreachable!() };
                (0..*n).fold(0u128, |x, i| x | mask(elem(a, i as usize).int(), ew) << (i as u32 * ew))
            }
            (_, a) => mask(a.int(), w),
        };
        let d = a.dep();
        if o.reg.len() == 2 {
            regs[o.reg[0]] = (v & 0xff, d);
            regs[o.reg[1]] = (v >> 8 & 0xff, d);
            continue;
        }
        let rb = reg_bits(c.arch, o.reg[0]);
        let g = regs[o.reg[0]].0;
        // the bits above a narrow operand are undefined
        let v = if w < rb { (g & !mask(!0, w)) | v } else { mask(v, rb) };
        regs[o.reg[0]] = (mask(v, rb), d);
    }
    let flags = if c.garbage & 1 == 1 { mask(!0, 34) } else { 0 };
    let entry = Arc::new((regs.clone(), flags));
    t.asm = Some(Box::new(AsmSt { prog, pc: 0, regs, flags, fdep: 0, entry, steps: 0 }));
    Ok(())
}

pub enum Next {
    Fall,
    Jump(String),
}

/// Registers as an instruction sees and changes them; committed when it completes.
pub struct Am<'a, 'b> {
    pub m: &'b mut Mach<'a>,
    pub regs: Vec<(u128, D)>,
    pub flags: u128,
    pub fdep: D,
    /// dependency of the last conditional store's success
    pub scdep: D,
    pub prog: Arc<AsmProg>,
}
impl<'a, 'b> Am<'a, 'b> {
    pub fn arch(&self) -> Arch {
        self.m.c.arch
    }
    pub fn r(&self, i: usize) -> (u128, D) {
        self.regs[i]
    }
    pub fn set(&mut self, i: usize, v: (u128, D)) {
        let w = reg_bits(self.arch(), i);
        self.regs[i] = (mask(v.0, w), v.1);
    }
    pub fn need(&self, f: &str) -> Result<(), Stop> {
        if self.m.c.cpu.has(f) {
            Ok(())
        } else {
            Err(Stop::Bad(Why::Illegal, format!("instruction needs {f}, which CPU model {} lacks: {}", self.m.c.cpu.name, self.prog.text.replace('\n', "; "))))
        }
    }
    pub fn proto(&self, k: K, addr: (u128, D), size: u32, hw: u32) -> Req {
        Req { addr: addr.0 as u64 & self.m.c.pmask(), adep: addr.1, size, hw, asm: true, ord: Ord_::Rlx, ..Req::new(k) }
    }
    fn visible(&self, addr: u64) -> bool {
        self.m.private(addr, 1).is_none()
    }
    fn memcheck(&self, addr: u64) -> Result<(), Stop> {
        if self.m.c.check_contract && !self.prog.mem && self.visible(addr) {
            return Err(Stop::Bad(Why::Contract, format!("assembly accesses memory without declaring it: {}", self.prog.text.replace('\n', "; "))));
        }
        Ok(())
    }
    fn writecheck(&self, what: &str) -> Result<(), Stop> {
        if self.m.c.check_contract && self.prog.ro {
            return Err(Stop::Bad(Why::Contract, format!("{what} by assembly declared to write nothing: {}", self.prog.text.replace('\n', "; "))));
        }
        Ok(())
    }
    pub fn load(&mut self, addr: (u128, D), size: u32, hw: u32) -> Result<(u128, D), Stop> {
        let p = self.proto(K::Load, addr, size, if self.prog.ro { HW_RO } else { 0 } | hw);
        self.memcheck(p.addr)?;
        if p.addr % size as u64 != 0 {
            return self.unaligned_load(p);
        }
        self.m.load(p)
    }
    fn unaligned_load(&mut self, p: Req) -> Result<(u128, D), Stop> {
        let mut b = vec![];
        let mut d = 0;
        for i in 0..p.size {
            let (v, dd) = self.m.load(Req { addr: p.addr + i as u64, size: 1, ..p.clone() })?;
            b.push(v as u8);
            d |= dd;
        }
        Ok((self.m.c.from_bytes(&b), d))
    }
    pub fn store(&mut self, addr: (u128, D), size: u32, v: (u128, D), hw: u32) -> Result<(), Stop> {
        let mut p = self.proto(K::Store, addr, size, hw);
        p.val = mask(v.0, size * 8);
        p.vdep = v.1;
        self.memcheck(p.addr)?;
        if self.visible(p.addr) {
            self.writecheck("memory written")?;
        }
        if p.addr % size as u64 != 0 {
            let b = self.m.c.to_bytes(p.val, size);
            for i in 0..size {
                self.m.store(Req { addr: p.addr + i as u64, size: 1, val: b[i as usize] as u128, ..p.clone() })?;
            }
            return Ok(());
        }
        self.m.store(p)
    }
    /// Two adjacent loads that one instruction makes in an unspecified order.
    pub fn load2(&mut self, addr: (u128, D), each: u32, hw: u32) -> Result<((u128, D), (u128, D)), Stop> {
        let hi = (addr.0.wrapping_add(each as u128), addr.1);
        let flip = if self.visible(addr.0 as u64) && !self.m.c.deps { self.choice(2)? } else { 0 };
        if flip == 0 {
            let a = self.load(addr, each, hw)?;
            let b = self.load(hi, each, hw)?;
            Ok((a, b))
        } else {
            let b = self.load(hi, each, hw)?;
            let a = self.load(addr, each, hw)?;
            Ok((a, b))
        }
    }
    pub fn store2(&mut self, addr: (u128, D), each: u32, v: ((u128, D), (u128, D)), hw: u32) -> Result<(), Stop> {
        let hi = (addr.0.wrapping_add(each as u128), addr.1);
        let flip = if self.visible(addr.0 as u64) && !self.m.c.deps { self.choice(2)? } else { 0 };
        if flip == 0 {
            self.store(addr, each, v.0, hw)?;
            self.store(hi, each, v.1, hw)
        } else {
            self.store(hi, each, v.1, hw)?;
            self.store(addr, each, v.0, hw)
        }
    }
    pub fn choice(&mut self, n: u32) -> Result<u32, Stop> {
        Ok(self.m.ask(Req::new(K::Choice(n)))?.0 as u32)
    }
    /// Load exclusive. A pair load is only single-copy atomic if its store succeeds, so it is made of halves.
    pub fn ll(&mut self, addr: (u128, D), size: u32, hw: u32) -> Result<(u128, D), Stop> {
        let p = self.proto(K::Ll, addr, size, hw | HW_EXCL);
        self.memcheck(p.addr)?;
        self.align(p.addr, size)?;
        if self.m.private(p.addr, size).is_some() {
            return self.m.load(p);
        }
        let (v, _, d) = self.m.ask(p)?;
        Ok((v, d))
    }
    /// Load exclusive of a pair: the halves are read separately (the pair is single-copy atomic only if the store
    /// exclusive that follows succeeds).
    pub fn ll2(&mut self, addr: (u128, D), each: u32, hw: u32) -> Result<((u128, D), (u128, D)), Stop> {
        let hi = (addr.0.wrapping_add(each as u128), addr.1);
        let flip = if self.visible(addr.0 as u64) && !self.m.c.deps { self.choice(2)? } else { 0 };
        if flip == 0 {
            let a = self.ll(addr, each, hw)?;
            let b = self.load(hi, each, hw | HW_EXCL)?;
            Ok((a, b))
        } else {
            let b = self.ll(hi, each, hw)?;
            let a = self.load(addr, each, hw | HW_EXCL)?;
            Ok((a, b))
        }
    }
    pub fn align(&self, addr: u64, size: u32) -> Result<(), Stop> {
        if addr % size as u64 != 0 {
            return Err(Stop::Bad(Why::Ub, format!("misaligned access of {size} bytes at {addr:#x}: {}", self.prog.text.replace('\n', "; "))));
        }
        Ok(())
    }
    pub fn sc(&mut self, addr: (u128, D), size: u32, v: (u128, D), hw: u32) -> Result<bool, Stop> {
        let mut p = self.proto(K::Sc, addr, size, hw | HW_EXCL);
        p.val = mask(v.0, size * 8);
        p.vdep = v.1;
        self.memcheck(p.addr)?;
        if self.visible(p.addr) {
            self.writecheck("memory written")?;
        }
        self.align(p.addr, size)?;
        if self.m.private(p.addr, size).is_some() {
            self.m.store(p)?;
            return Ok(true);
        }
        let (_, ok, d) = self.m.ask(p)?;
        self.scdep = d;
        Ok(ok)
    }
    pub fn rmw(&mut self, op: RmwOp, addr: (u128, D), size: u32, v: (u128, D), hw: u32) -> Result<(u128, D), Stop> {
        let mut p = self.proto(K::Rmw(op), addr, size, hw);
        p.val = mask(v.0, size * 8);
        p.vdep = v.1;
        self.memcheck(p.addr)?;
        if self.visible(p.addr) {
            self.writecheck("memory written")?;
        }
        self.align(p.addr, size)?;
        if hw & HW_SC != 0 && self.m.private(p.addr, size).is_some() {
            // a locked instruction orders everything even when nobody else sees its operand
            self.fence(FK_FULL)?;
        }
        let (v, _, d) = self.m.rmw(p)?;
        Ok((v, d))
    }
    pub fn cas(&mut self, addr: (u128, D), size: u32, cmp: (u128, D), v: (u128, D), hw: u32) -> Result<(u128, bool, D), Stop> {
        let mut p = self.proto(K::Cas { weak: false }, addr, size, hw);
        p.val = mask(v.0, size * 8);
        p.cmp = mask(cmp.0, size * 8);
        p.vdep = v.1 | cmp.1;
        self.memcheck(p.addr)?;
        if self.visible(p.addr) {
            self.writecheck("memory written")?;
        }
        self.align(p.addr, size)?;
        self.m.rmw(p)
    }
    pub fn fence(&mut self, kind: u32) -> Result<(), Stop> {
        if self.m.c.check_contract && !self.prog.mem {
            return Err(Stop::Bad(Why::Contract, format!("fence in assembly that does not declare memory effects: {}", self.prog.text.replace('\n', "; "))));
        }
        self.writecheck("fence")?;
        self.m.ask(Req { hw: kind, asm: true, ..Req::new(K::Fence) })?;
        Ok(())
    }
    pub fn sysr(&mut self, id: u32) -> Result<(u128, D), Stop> {
        let (v, _, d) = self.m.ask(Req { asm: true, ..Req::new(K::SysR(id)) })?;
        Ok((v, d))
    }
    /// write the bits in `mask_` of the state register; returns the old value
    pub fn sysw(&mut self, id: u32, v: (u128, D), mask_: u128) -> Result<(u128, D), Stop> {
        if self.m.c.check_contract && !self.prog.mem {
            return Err(Stop::Bad(Why::Contract, format!("interrupt state written by assembly that does not declare memory effects: {}", self.prog.text.replace('\n', "; "))));
        }
        self.writecheck("interrupt state written")?;
        let (v, _, d) = self.m.ask(Req { asm: true, val: v.0, vdep: v.1, cmp: mask_, ..Req::new(K::SysW(id)) })?;
        Ok((v, d))
    }
    pub fn unknown<T>(&self, i: &Ins) -> Result<T, Stop> {
        unsup(format!("instruction {} {}", i.mn, i.ops.join(", ")))
    }
}

pub fn parse_imm(s: &str) -> Option<i128> {
    let s = s.trim().trim_start_matches('#').trim_start_matches('$').trim();
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r.trim()),
        None => (false, s),
    };
    let v = if let Some(h) = s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")) {
        i128::from_str_radix(h, 16).ok()?
    } else if let Some(h) = s.strip_prefix("0b") {
        i128::from_str_radix(h, 2).ok()?
    } else if s.len() > 1 && (s.ends_with('h') || s.ends_with('H')) && s.as_bytes()[0].is_ascii_digit() {
        i128::from_str_radix(&s[..s.len() - 1], 16).ok()?
    } else {
        s.parse().ok()?
    };
    Some(if neg { -v } else { v })
}

pub fn step(c: &Ctx, t: &mut Thread) -> Result<(), Stop> {
    let st = t.asm.take().unwrap();
    let r = step_inner(c, t, &st);
    match r {
        Ok(Some(n)) => t.asm = Some(Box::new(n)),
        Ok(None) => {}
        Err(e) => {
            t.asm = Some(st);
            return Err(e);
        }
    }
    Ok(())
}
fn step_inner(c: &Ctx, t: &mut Thread, st: &AsmSt) -> Result<Option<AsmSt>, Stop> {
    let prog = st.prog.clone();
    if st.pc >= prog.ins.len() {
        finish(c, t, st)?;
        return Ok(None);
    }
    let ins = &prog.ins[st.pc];
    let mut m = Mach { c, t, used: 0 };
    let mut am = Am { m: &mut m, regs: st.regs.clone(), flags: st.flags, fdep: st.fdep, scdep: 0, prog: prog.clone() };
    let next = match c.arch {
        Arch::X64 | Arch::X86 => asm_x86::exec(&mut am, ins),
        Arch::A64 => asm_a64::exec(&mut am, ins),
        Arch::Rv32 | Arch::Rv64 => asm_rv::exec(&mut am, ins),
        Arch::Other => unsup("assembly on this architecture"),
        _ => asm_misc::exec(&mut am, ins),
    }?;
    if matches!(c.arch, Arch::Rv32 | Arch::Rv64) {
        am.regs[0] = (0, 0);
    }
    let (regs, flags, fdep) = (am.regs, am.flags, am.fdep);
    let pc = match next {
        Next::Fall => st.pc + 1,
        Next::Jump(l) => {
            let l = l.trim();
            let (n, dir) = if l.len() > 1 && l[..l.len() - 1].chars().all(|c| c.is_ascii_digit()) { (&l[..l.len() - 1], &l[l.len() - 1..]) } else { (l, "") };
            let to = match dir {
                "b" => prog.labels.iter().rev().find(|x| x.0 == n && x.1 <= st.pc).map(|x| x.1),
                "f" => prog.labels.iter().find(|x| x.0 == n && x.1 > st.pc).map(|x| x.1),
                _ => prog.labels.iter().find(|x| x.0 == l).map(|x| x.1),
            };
            match to {
                Some(p) => p,
                None => return unsup(format!("label {l}")),
            }
        }
    };
    let t = m.t;
    t.micro.clear();
    Ok(Some(AsmSt { prog, pc, regs, flags, fdep, entry: st.entry.clone(), steps: 0 }))
}

fn finish(c: &Ctx, t: &mut Thread, st: &AsmSt) -> Result<(), Stop> {
    let prog = &st.prog;
    if c.check_contract {
        let mut ok: BTreeSet<usize> = prog.clob.clone();
        for o in &prog.outs {
            ok.extend(o.reg.iter().copied());
        }
        for (r, v) in st.regs.iter().enumerate() {
            if !ok.contains(&r) && v.0 != st.entry.0[r].0 {
                return Err(Stop::Bad(
                    Why::Contract,
                    format!("assembly leaves register {} changed without declaring it: {}", reg_name(c.arch, r, None, reg_bits(c.arch, r)), prog.text.replace('\n', "; ")),
                ));
            }
        }
        flags_contract(c, st)?;
    }
    let mut vals = vec![];
    for o in &prog.outs {
        let (mut v, d) = st.regs[o.reg[0]];
        if o.reg.len() == 2 {
            v |= st.regs[o.reg[1]].0 << 8;
        }
        match &o.ty {
            Ty::Vector(n, e) => {
                let ew = bits_of(e, &c.prog.layout);
                vals.push(V::A(Arc::new((0..*n).map(|i| V::I(mask(v >> (i as u32 * ew), ew), d)).collect())));
            }
            t => vals.push(V::I(mask(v, bits_of(t, &c.prog.layout)), d)),
        }
    }
    let f = t.frames.last().unwrap();
    let inst = &c.prog.funcs[f.func as usize].blocks[f.bb as usize].insts[f.ip as usize];
    let fr = t.frames.last_mut().unwrap();
    if let Inst::Call { dst: Some(d), ret, .. } = inst {
        fr.slots[*d as usize] = match ret {
            Ty::Struct(..) => V::A(Arc::new(vals)),
            _ => vals.into_iter().next().unwrap_or(V::U),
        };
    }
    fr.ip += 1;
    t.asm = None;
    t.micro.clear();
    Ok(())
}
fn flags_contract(c: &Ctx, st: &AsmSt) -> Result<(), Stop> {
    let prog = &st.prog;
    let changed = st.flags ^ st.entry.1;
    if changed == 0 {
        return Ok(());
    }
    let mut allowed = 0u128;
    for n in &prog.clob_names {
        allowed |= match (c.arch, n.as_str()) {
            (Arch::X64 | Arch::X86, "flags") => mask(!0, 32),
            (Arch::Ppc64, "xer") => 1 << 32,
            (Arch::Ppc64, n) if n.starts_with("cr") => {
                let k: u32 = n[2..].parse().unwrap_or(0);
                0xfu128 << (28 - 4 * k)
            }
            (Arch::Ppc64, _) => 0,
            (_, "cc" | "sreg" | "sr") => mask(!0, 34),
            _ => 0,
        };
    }
    if changed & !allowed != 0 {
        return Err(Stop::Bad(Why::Contract, format!("assembly changes condition flags ({changed:#x}) without declaring it: {}", prog.text.replace('\n', "; "))));
    }
    Ok(())
}

/// Calls to functions the crate declares but does not define, other than the common ones.
pub fn external(m: &mut Mach, name: &str, a: &[V], _ret: &Ty) -> Result<V, Stop> {
    let int = |i: usize| a.get(i).map(|v| v.int()).unwrap_or(0) as u64;
    let word = m.c.prog.layout.ptr_bits / 8;
    let put = |m: &mut Mach, at: u64, b: &[u8]| -> Result<(), Stop> {
        for (i, x) in b.iter().enumerate() {
            m.store(Req { addr: at + i as u64, size: 1, val: *x as u128, ..Req::new(K::Store) })?;
        }
        Ok(())
    };
    let num = |m: &Mach, v: u64, n: u32| m.c.to_bytes(v as u128, n);
    let answer = |m: &Mach, k: &str| m.c.cpu.answers.get(k).cloned();
    let err = |n: u32| Ok(V::I(mask((n as i32) as u128, 32), 0));
    match name {
        "elf_aux_info" => {
            // (aux, buf, len)
            let len = int(2) as u32;
            let Some(v) = m.c.cpu.auxv.get(&(int(0) & 0xffff_ffff)).copied() else { return err(2) };
            if len != word {
                return err(22);
            }
            let b = num(m, v, word);
            put(m, int(1), &b)?;
            err(0)
        }
        "sysctl" | "sysctlbyname" => {
            // (mib, n, old, old_len, new, new_len) or (name, old, old_len, new, new_len)
            let (key, k) = if name == "sysctl" {
                let mut v = vec![];
                for i in 0..(int(1) & 0xffff_ffff).min(8) {
                    v.push(m.load(Req { addr: int(0) + 4 * i, size: 4, ..Req::new(K::Load) })?.0.to_string());
                }
                (format!("mib:{}", v.join(".")), 2)
            } else {
                (m.cstr(int(0))?, 1)
            };
            let b = match answer(m, &key) {
                Some(b) => b,
                None => match m.c.cpu.sysctl(&key) {
                    Some(v) => num(m, v as u64, 4),
                    None => return err(!0),
                },
            };
            let (room, _) = m.load(Req { addr: int(k + 1), size: word, ..Req::new(K::Load) })?;
            let n = b.len().min(room as usize);
            put(m, int(k), &b[..n])?;
            m.store(Req { addr: int(k + 1), size: word, val: n as u128, ..Req::new(K::Store) })?;
            err(if n < b.len() { !0 } else { 0 })
        }
        "zx_system_get_features" => match answer(m, &format!("kind:{}", int(0) & 0xffff_ffff)) {
            Some(b) => {
                put(m, int(1), &b)?;
                err(0)
            }
            None => err(-2i32 as u32),
        },
        "getisax" => {
            let b = answer(m, "isax").unwrap_or_default();
            let n = (b.len() / 4).min(int(1) as u32 as usize);
            put(m, int(0), &b[..4 * n])?;
            err((b.len() / 4) as u32)
        }
        "IsProcessorFeaturePresent" => {
            let v = answer(m, &format!("pf:{}", int(0) as u32)).is_some();
            err(v as u32)
        }
        "__system_property_get" => {
            let k = m.cstr(int(0))?;
            let mut b = answer(m, &format!("prop:{k}")).unwrap_or_default();
            let n = b.len();
            b.push(0);
            put(m, int(1), &b)?;
            err(n as u32)
        }
        "getsystemcfg" => {
            let v = answer(m, &format!("syscfg:{}", int(0) as u32)).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(!0);
            Ok(V::I(v as u128, 0))
        }
        _ => unsup(format!("call of external function {name}")),
    }
}
