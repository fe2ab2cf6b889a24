//! Executes one thread of IR (and of the inline assembly in it) up to its next visible step.
//!
//! An instruction is executed as a function of the answers it has received so far (`Thread::micro`): when it needs one
//! more answer it stops with a request, and it is executed again from its start once that answer is there. Register and
//! slot updates are committed only when the instruction completes.
use crate::asm::{self, AsmSt};
use crate::fp;
use crate::ir::*;
use std::collections::HashMap;
use std::sync::{Arc, RwLock};

pub type D = u64;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
    U,
    I(u128, D),
    A(Arc<Vec<V>>),
}
pub const GARBAGE: u128 = 0xA7A7_A7A7_A7A7_A7A7_A7A7_A7A7_A7A7_A7A7;
pub const STACK_FILL: u8 = 0xA7;

impl V {
    pub fn int(&self) -> u128 {
        match self {
            V::I(v, _) => *v,
            _ => GARBAGE,
        }
    }
    pub fn dep(&self) -> D {
        match self {
            V::I(_, d) => *d,
            V::U => 0,
            V::A(a) => a.iter().fold(0, |x, v| x | v.dep()),
        }
    }
    fn add_dep(&self, d: D) -> V {
        match self {
            V::I(v, x) => V::I(*v, x | d),
            V::A(a) if d != 0 => V::A(Arc::new(a.iter().map(|v| v.add_dep(d)).collect())),
            v => v.clone(),
        }
    }
}

/// Hardware ordering annotations of accesses made by assembly.
pub const HW_ACQ: u32 = 1;
pub const HW_REL: u32 = 2;
pub const HW_ACQPC: u32 = 4;
pub const HW_EXCL: u32 = 8;
/// RVWMO aq+rl on one instruction (RCsc)
pub const HW_SC: u32 = 16;
/// negation (0 - mem) encoded on a Nand request
pub const HW_NEG: u32 = 32;
/// made by assembly the compiler may assume to have no effect but reading memory
pub const HW_RO: u32 = 64;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Load,
    Store,
    Rmw(RmwOp),
    Cas { weak: bool },
    Fence,
    Ll,
    Sc,
    /// read / write of the interrupt state (arch specific id)
    SysR(u32),
    SysW(u32),
    Choice(u32),
    Call(u32),
    Ret(u32),
    Pause,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Req {
    pub k: K,
    pub addr: u64,
    pub size: u32,
    pub val: u128,
    pub cmp: u128,
    pub ord: Ord_,
    pub ford: Ord_,
    /// flags of the access (HW_*) or the fence kind
    pub hw: u32,
    pub asm: bool,
    pub volatile: bool,
    pub single: bool,
    pub adep: D,
    pub vdep: D,
    pub ctrl: D,
}
impl Req {
    pub fn new(k: K) -> Req {
        Req { k, addr: 0, size: 0, val: 0, cmp: 0, ord: Ord_::Na, ford: Ord_::Na, hw: 0, asm: false, volatile: false, single: false, adep: 0, vdep: 0, ctrl: 0 }
    }
    pub fn is_write(&self) -> bool {
        matches!(self.k, K::Store | K::Rmw(_) | K::Cas { .. } | K::Sc)
    }
    pub fn is_mem(&self) -> bool {
        matches!(self.k, K::Load | K::Store | K::Rmw(_) | K::Cas { .. } | K::Ll | K::Sc)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    /// undefined behaviour of the language (unreachable, misaligned, out of bounds, ...)
    Ub,
    /// instruction the modelled CPU does not have
    Illegal,
    /// inline assembly broke the contract it declared
    Contract,
    /// panic where none is expected
    Panic,
    /// the engine does not understand this
    Unsupported,
}
#[derive(Clone, Debug)]
pub enum Stop {
    Req(Req),
    Bad(Why, String),
}
pub fn unsup<T>(s: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Bad(Why::Unsupported, s.into()))
}
impl From<String> for Stop {
    fn from(s: String) -> Stop {
        Stop::Bad(Why::Unsupported, s)
    }
}

#[derive(Clone, Debug)]
pub enum Status {
    Req(Req),
    Done,
    Bad(Why, String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Frame {
    pub func: u32,
    pub bb: u32,
    pub ip: u32,
    pub sp: u64,
    pub slots: Vec<V>,
    /// asm or call result slot is written by the instruction at ip
    pub args: Vec<V>,
}

/// One driver step of a thread.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    Op { func: u32, obj: u64, size: u32, a: u128, b: u128, o1: u32, o2: u32 },
    /// plain (non-atomic) accesses of the client
    Read { addr: u64, size: u32 },
    Write { addr: u64, size: u32, val: u128 },
    /// client reads interrupt state / toggles it
    Sys(K, u128),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Thread {
    pub tid: u32,
    pub step: u32,
    pub phase: u8,
    pub frames: Vec<Frame>,
    pub stack: Vec<u8>,
    pub sdeps: Vec<D>,
    pub sp: u64,
    pub micro: Vec<(u128, bool, D)>,
    pub asm: Option<Box<AsmSt>>,
    pub ctrl: D,
    pub nev: u32,
    pub pub_ctrl: D,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Cpu {
    pub feats: u64,
}

/// Derived from the program alone; shared by all scenarios on it.
#[derive(Default)]
pub struct Caches {
    pub live: RwLock<HashMap<(u32, u32, u32), Arc<Vec<u64>>>>,
    pub asmc: RwLock<HashMap<(u32, u32), Arc<asm::AsmProg>>>,
}

/// What is fixed for a scenario.
pub struct Ctx {
    pub prog: Arc<Program>,
    pub arch: asm::Arch,
    /// largest access a non-atomic IR access is made of
    pub split: u32,
    pub cpu: asm::CpuModel,
    pub deps: bool,
    /// register allocation variant for inline assembly
    pub alloc: u32,
    /// garbage pattern seed for undefined registers
    pub garbage: u32,
    /// report accesses at every instruction even if private/constant (sequential footprint mode)
    pub atomic_tear: bool,
    /// make every asm instruction a scheduling point (interrupts)
    pub asm_points: bool,
    pub check_contract: bool,
    pub steps: Vec<Vec<Step>>,
    pub am: AddrMap,
    pub cache: Arc<Caches>,
    pub nstack: u64,
    pub max_insts: u64,
}

impl Ctx {
    pub fn new(prog: Arc<Program>, arch: asm::Arch, cpu: asm::CpuModel, steps: Vec<Vec<Step>>) -> Ctx {
        let am = addr_map(prog.layout.ptr_bits);
        let split = prog.layout.ptr_bits / 8;
        Ctx {
            prog,
            arch,
            split: if arch == asm::Arch::Avr { 1 } else { split },
            cpu,
            deps: false,
            alloc: 0,
            garbage: 0,
            atomic_tear: true,
            asm_points: false,
            check_contract: true,
            steps,
            am,
            cache: Default::default(),
            nstack: 512,
            max_insts: 200_000,
        }
    }
    pub fn base(&self, tid: u32) -> u64 {
        self.am.stack_base + tid as u64 * self.am.stack_size
    }
    pub fn pmask(&self) -> u64 {
        if self.prog.layout.ptr_bits == 64 {
            !0
        } else {
            (1u64 << self.prog.layout.ptr_bits) - 1
        }
    }
    fn live_at(&self, f: u32, bb: u32, ip: u32) -> Arc<Vec<u64>> {
        if let Some(v) = self.cache.live.read().unwrap().get(&(f, bb, ip)) {
            return v.clone();
        }
        let v = Arc::new(live_before(&self.prog.funcs[f as usize], bb, ip));
        self.cache.live.write().unwrap().insert((f, bb, ip), v.clone());
        v
    }
    pub fn thread(&self, tid: u32) -> Thread {
        Thread {
            tid,
            step: 0,
            phase: 0,
            frames: vec![],
            stack: vec![STACK_FILL; self.nstack as usize],
            sdeps: if self.deps { vec![0; self.nstack as usize] } else { vec![] },
            sp: 0,
            micro: vec![],
            asm: None,
            ctrl: 0,
            nev: 0,
            pub_ctrl: 0,
        }
    }
    pub fn to_bytes(&self, v: u128, size: u32) -> Vec<u8> {
        let mut b = v.to_le_bytes()[..size as usize].to_vec();
        if self.prog.layout.big_endian {
            b.reverse();
        }
        b
    }
    pub fn from_bytes(&self, b: &[u8]) -> u128 {
        let mut x = [0u8; 16];
        for (i, c) in b.iter().enumerate() {
            x[if self.prog.layout.big_endian { b.len() - 1 - i } else { i }] = *c;
        }
        u128::from_le_bytes(x)
    }
}

/// offsets in the private region
pub const OFF_A: u64 = 0;
pub const OFF_B: u64 = 32;
pub const OFF_OUT: u64 = 64;
pub const OFF_FRAME: u64 = 128;

pub struct Mach<'a> {
    pub c: &'a Ctx,
    pub t: &'a mut Thread,
    pub used: usize,
}

impl<'a> Mach<'a> {
    pub fn private(&self, addr: u64, size: u32) -> Option<usize> {
        let b = self.c.base(self.t.tid);
        if addr >= b && addr < b + self.c.am.stack_size {
            Some((addr - b) as usize)
        } else {
            let _ = size;
            None
        }
    }
    fn const_at(&self, addr: u64, size: u32) -> Option<&[u8]> {
        let p = &self.c.prog;
        if addr < p.gbase || addr + size as u64 > p.gend {
            return None;
        }
        let i = match p.gaddr.binary_search(&addr) {
            Ok(i) => i,
            Err(0) => return None,
            Err(i) => i - 1,
        };
        if !p.globals[i].constant || p.globals[i].external {
            return None;
        }
        let o = (addr - p.gbase) as usize;
        p.image.get(o..o + size as usize)
    }
    /// Ask the scheduler; replays earlier answers.
    pub fn ask(&mut self, mut r: Req) -> Result<(u128, bool, D), Stop> {
        if self.used < self.t.micro.len() {
            let v = self.t.micro[self.used];
            self.used += 1;
            return Ok(v);
        }
        r.ctrl = self.t.ctrl;
        if !self.c.deps {
            r.adep = 0;
            r.vdep = 0;
            r.ctrl = 0;
        }
        Err(Stop::Req(r))
    }
    pub fn private_read(&mut self, o: usize, n: usize) -> Result<(Vec<u8>, D), Stop> {
        if o + n > self.t.stack.len() {
            return Err(Stop::Bad(Why::Ub, format!("read outside the stack frame at offset {o}")));
        }
        let d = if self.c.deps { self.t.sdeps[o..o + n].iter().fold(0, |x, y| x | y) } else { 0 };
        Ok((self.t.stack[o..o + n].to_vec(), d))
    }
    pub fn private_write(&mut self, o: usize, b: &[u8], d: D) -> Result<(), Stop> {
        if o + b.len() > self.t.stack.len() {
            return Err(Stop::Bad(Why::Ub, format!("write outside the stack frame at offset {o}")));
        }
        self.t.stack[o..o + b.len()].copy_from_slice(b);
        if self.c.deps {
            for x in &mut self.t.sdeps[o..o + b.len()] {
                *x = d
            }
        }
        Ok(())
    }
    /// One access of memory (already no larger than what is single-copy atomic).
    pub fn load(&mut self, proto: Req) -> Result<(u128, D), Stop> {
        let (addr, size) = (proto.addr, proto.size);
        if let Some(o) = self.private(addr, size) {
            let (b, d) = self.private_read(o, size as usize)?;
            return Ok((self.c.from_bytes(&b), d | proto.adep));
        }
        if let Some(b) = self.const_at(addr, size) {
            let v = self.c.from_bytes(b);
            return Ok((v, proto.adep));
        }
        if self.c.arch == asm::Arch::Arm && addr == 0xffff_0ffc {
            return Ok((self.c.cpu.kuser_version as u128, proto.adep));
        }
        let (v, _, d) = self.ask(proto)?;
        Ok((v, d))
    }
    pub fn store(&mut self, proto: Req) -> Result<(), Stop> {
        let (addr, size) = (proto.addr, proto.size);
        if let Some(o) = self.private(addr, size) {
            let b = self.c.to_bytes(proto.val, size);
            return self.private_write(o, &b, proto.vdep);
        }
        self.ask(proto)?;
        Ok(())
    }
    /// A read-modify-write or compare-exchange; returns the old value and success.
    pub fn rmw(&mut self, proto: Req) -> Result<(u128, bool, D), Stop> {
        let (addr, size) = (proto.addr, proto.size);
        if let Some(o) = self.private(addr, size) {
            let (b, d) = self.private_read(o, size as usize)?;
            let old = self.c.from_bytes(&b);
            let (new, ok) = apply_rmw(&proto, old)?;
            if let Some(n) = new {
                let nb = self.c.to_bytes(n, size);
                self.private_write(o, &nb, d | proto.vdep)?;
            }
            return Ok((old, ok, d));
        }
        if self.const_at(addr, size).is_some() {
            return Err(Stop::Bad(Why::Ub, "atomic write to a constant".into()));
        }
        self.ask(proto)
    }
    fn garbage(&self) -> u128 {
        GARBAGE
    }
}

/// (new value to write, success) of a Store/Rmw/Cas on `old`.
pub fn apply_rmw(r: &Req, old: u128) -> Result<(Option<u128>, bool), Stop> {
    let w = r.size * 8;
    let old = mask(old, w);
    let v = mask(r.val, w);
    Ok(match r.k {
        K::Cas { .. } => {
            if old == mask(r.cmp, w) {
                (Some(v), true)
            } else {
                (None, false)
            }
        }
        K::Rmw(RmwOp::Nand) if r.asm && r.hw & HW_NEG != 0 => (Some(mask(0u128.wrapping_sub(old), w)), true),
        K::Rmw(op) => (Some(rmw_val(op, old, v, w)?), true),
        K::Store => (Some(v), true),
        _ => return unsup("apply_rmw"),
    })
}
pub fn rmw_val(op: RmwOp, old: u128, v: u128, w: u32) -> Result<u128, String> {
    let r = match op {
        RmwOp::Xchg => v,
        RmwOp::Add => old.wrapping_add(v),
        RmwOp::Sub => old.wrapping_sub(v),
        RmwOp::And => old & v,
        RmwOp::Nand => !(old & v),
        RmwOp::Or => old | v,
        RmwOp::Xor => old ^ v,
        RmwOp::Clr => old & !v,
        RmwOp::Max => {
            if sext(old, w) > sext(v, w) {
                old
            } else {
                v
            }
        }
        RmwOp::Min => {
            if sext(old, w) < sext(v, w) {
                old
            } else {
                v
            }
        }
        RmwOp::UMax => old.max(v),
        RmwOp::UMin => old.min(v),
        RmwOp::FAdd => fp::fbin(fp::FOp::Add, old, v, w)?,
        RmwOp::FSub => fp::fbin(fp::FOp::Sub, old, v, w)?,
        RmwOp::FMax => fp::fbin(fp::FOp::Max, old, v, w)?,
        RmwOp::FMin => fp::fbin(fp::FOp::Min, old, v, w)?,
    };
    Ok(mask(r, w))
}

fn cv(c: &Cv) -> V {
    match c {
        Cv::Int(n) => V::I(*n, 0),
        Cv::Agg(a) => V::A(Arc::new(a.iter().map(cv).collect())),
    }
}

enum Flow {
    Next,
    Jumped,
}

impl Ctx {
    /// Run until the next request. `t.micro` holds answers for the current instruction.
    pub fn advance(&self, t: &mut Thread) -> Status {
        let mut n = 0u64;
        loop {
            n += 1;
            if n > self.max_insts {
                return Status::Bad(Why::Unsupported, "thread runs without a visible step".into());
            }
            match self.step(t) {
                Ok(true) => {}
                Ok(false) => return Status::Done,
                Err(Stop::Req(r)) => {
                    self.tidy(t);
                    return Status::Req(r);
                }
                Err(Stop::Bad(w, m)) => {
                    let at = t.frames.last().map(|f| self.prog.funcs[f.func as usize].name.clone()).unwrap_or_default();
                    return Status::Bad(w, format!("{m} (in {at})"));
                }
            }
        }
    }
    /// Give the answer to the pending request. With `deps`, the answer depends on event `nev`.
    pub fn answer(&self, t: &mut Thread, v: u128, ok: bool) {
        let d = if self.deps { 1u64 << t.nev.min(63) } else { 0 };
        t.nev += if self.deps { 1 } else { 0 };
        t.micro.push((v, ok, d));
    }
    /// Forget what cannot be observed any more, so that equal futures compare equal.
    fn tidy(&self, t: &mut Thread) {
        for i in 0..t.frames.len() {
            let f = &mut t.frames[i];
            let live = self.live_at(f.func, f.bb, f.ip);
            for (k, s) in f.slots.iter_mut().enumerate() {
                if live[k / 64] >> (k % 64) & 1 == 0 {
                    *s = V::U;
                }
            }
        }
        let used = (t.sp as usize).max(OFF_FRAME as usize);
        if used < t.stack.len() {
            for b in &mut t.stack[used..] {
                *b = STACK_FILL;
            }
        }
    }
    fn step(&self, t: &mut Thread) -> Result<bool, Stop> {
        if t.frames.is_empty() {
            return self.driver(t);
        }
        if t.asm.is_some() {
            return asm::step(self, t).map(|_| true);
        }
        let fr = t.frames.last().unwrap();
        let f = &self.prog.funcs[fr.func as usize];
        let inst = &f.blocks[fr.bb as usize].insts[fr.ip as usize];
        let mut m = Mach { c: self, t, used: 0 };
        match m.exec(inst)? {
            Flow::Next => {
                let t = m.t;
                t.micro.clear();
                t.frames.last_mut().unwrap().ip += 1;
            }
            Flow::Jumped => m.t.micro.clear(),
        }
        Ok(true)
    }
    fn driver(&self, t: &mut Thread) -> Result<bool, Stop> {
        let steps = &self.steps[t.tid as usize];
        if t.step as usize >= steps.len() {
            return Ok(false);
        }
        let ix = t.step;
        let base = self.base(t.tid);
        match &steps[ix as usize] {
            Step::Op { func, obj, size, a, b, o1, o2 } => match t.phase {
                0 => {
                    let mut m = Mach { c: self, t, used: 0 };
                    m.ask(Req { addr: *obj, size: *size, ..Req::new(K::Call(ix)) })?;
                    let (ab, bb) = (self.to_bytes(*a, *size), self.to_bytes(*b, *size));
                    m.private_write(OFF_A as usize, &ab, 0)?;
                    m.private_write(OFF_B as usize, &bb, 0)?;
                    t.micro.clear();
                    t.sp = OFF_FRAME;
                    let f = &self.prog.funcs[*func as usize];
                    let mut slots = vec![V::U; f.nslots as usize];
                    let args = [*obj, base + OFF_A, base + OFF_B, *o1 as u64, *o2 as u64, base + OFF_OUT];
                    for (p, a) in f.params.iter().zip(args) {
                        slots[*p as usize] = V::I(a as u128, 0);
                    }
                    t.frames.push(Frame { func: *func, bb: 0, ip: 0, sp: t.sp, slots, args: vec![] });
                    t.phase = 1;
                }
                _ => {
                    // returned: micro[0] is the function's result (pushed by Ret)
                    let flag = t.pub_ctrl as u128;
                    let mut m = Mach { c: self, t, used: 0 };
                    let (o, od) = m.private_read(OFF_OUT as usize, *size as usize)?;
                    let (o1, _) = m.private_read(OFF_OUT as usize + *size as usize, *size as usize)?;
                    let (o, o1) = (self.from_bytes(&o), self.from_bytes(&o1));
                    m.ask(Req { val: o, cmp: o1, addr: flag as u64, vdep: od, size: *size, ..Req::new(K::Ret(ix)) })?;
                    t.micro.clear();
                    for b in &mut t.stack {
                        *b = STACK_FILL;
                    }
                    if self.deps {
                        t.sdeps.iter_mut().for_each(|x| *x = 0);
                    }
                    t.pub_ctrl = 0;
                    t.sp = 0;
                    t.phase = 0;
                    t.step += 1;
                }
            },
            Step::Read { addr, size } => {
                let mut m = Mach { c: self, t, used: 0 };
                let (v, _, _) = m.ask(Req { addr: *addr, size: *size, ..Req::new(K::Load) })?;
                m.ask(Req { val: v, size: *size, addr: 1, ..Req::new(K::Ret(ix)) })?;
                t.micro.clear();
                t.step += 1;
            }
            Step::Write { addr, size, val } => {
                let mut m = Mach { c: self, t, used: 0 };
                m.ask(Req { addr: *addr, size: *size, val: *val, ..Req::new(K::Store) })?;
                t.micro.clear();
                t.step += 1;
            }
            Step::Sys(k, v) => {
                let mut m = Mach { c: self, t, used: 0 };
                let (v, _, _) = m.ask(Req { val: *v, ..Req::new(*k) })?;
                if matches!(k, K::SysR(_)) {
                    m.ask(Req { val: v, addr: 1, ..Req::new(K::Ret(ix)) })?;
                }
                t.micro.clear();
                t.step += 1;
            }
        }
        Ok(true)
    }
}

fn bits_bytes(w: u32) -> u32 {
    (w + 7) / 8
}

impl<'a> Mach<'a> {
    fn opd(&self, o: &Opd) -> V {
        match o {
            Opd::Slot(s) => self.t.frames.last().unwrap().slots[*s as usize].clone(),
            Opd::Const(c) => cv(c),
        }
    }
    fn int(&self, o: &Opd) -> (u128, D) {
        match o {
            Opd::Slot(s) => match &self.t.frames.last().unwrap().slots[*s as usize] {
                V::I(v, d) => (*v, *d),
                _ => (self.garbage(), 0),
            },
            Opd::Const(Cv::Int(n)) => (*n, 0),
            Opd::Const(_) => (0, 0),
        }
    }
    fn set(&mut self, d: u32, v: V) {
        self.t.frames.last_mut().unwrap().slots[d as usize] = v;
    }
    fn pw(&self) -> u32 {
        self.c.prog.layout.ptr_bits
    }
    fn ty_bits(&self, t: &Ty) -> u32 {
        bits_of(t, &self.c.prog.layout)
    }
    fn ty_size(&self, t: &Ty) -> u64 {
        size_of(t, &self.c.prog.types, &self.c.prog.layout)
    }
    /// Non-atomic read of `n` bytes as a byte string.
    pub fn read_bytes(&mut self, proto: &Req, n: u32) -> Result<(Vec<u8>, D), Stop> {
        let mut out = vec![];
        let mut d = 0;
        let mut o = 0;
        while o < n {
            let mut s = self.c.split.min(n - o);
            while !s.is_power_of_two() {
                s -= 1;
            }
            let (v, dd) = self.load(Req { addr: proto.addr + o as u64, size: s, ..proto.clone() })?;
            out.extend(self.c.to_bytes(v, s));
            d |= dd;
            o += s;
        }
        Ok((out, d))
    }
    pub fn write_bytes(&mut self, proto: &Req, b: &[u8]) -> Result<(), Stop> {
        let n = b.len() as u32;
        let mut o = 0;
        while o < n {
            let mut s = self.c.split.min(n - o);
            while !s.is_power_of_two() {
                s -= 1;
            }
            let v = self.c.from_bytes(&b[o as usize..(o + s) as usize]);
            self.store(Req { addr: proto.addr + o as u64, size: s, val: v, ..proto.clone() })?;
            o += s;
        }
        Ok(())
    }
    fn load_ty(&mut self, ty: &Ty, proto: &Req) -> Result<V, Stop> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = self.ty_bits(ty);
                let n = bits_bytes(w);
                let single = n <= self.c.split && n.is_power_of_two();
                if proto.ord != Ord_::Na || single {
                    let (v, d) = self.load(Req { size: n, ..proto.clone() })?;
                    Ok(V::I(mask(v, w), d))
                } else {
                    let (b, d) = self.read_bytes(proto, n)?;
                    Ok(V::I(mask(self.c.from_bytes(&b), w), d))
                }
            }
            Ty::Vector(n, e) | Ty::Array(n, e) => {
                let es = self.ty_size(e);
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(e, &Req { addr: proto.addr + i * es, ..proto.clone() })?);
                }
                Ok(V::A(Arc::new(v)))
            }
            Ty::Struct(f, p) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let o = field_off(f, *p, i, &self.c.prog.types, &self.c.prog.layout);
                    v.push(self.load_ty(&f[i], &Req { addr: proto.addr + o, ..proto.clone() })?);
                }
                Ok(V::A(Arc::new(v)))
            }
            t => unsup(format!("load of {t:?}")),
        }
    }
    fn store_ty(&mut self, ty: &Ty, v: &V, proto: &Req) -> Result<(), Stop> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = self.ty_bits(ty);
                let n = bits_bytes(w);
                let single = n <= self.c.split && n.is_power_of_two();
                let val = mask(v.int(), w);
                if proto.ord != Ord_::Na || single {
                    self.store(Req { size: n, val, vdep: v.dep(), ..proto.clone() })
                } else {
                    let b = self.c.to_bytes(val, n);
                    self.write_bytes(&Req { vdep: v.dep(), ..proto.clone() }, &b)
                }
            }
            Ty::Vector(n, e) | Ty::Array(n, e) => {
                let es = self.ty_size(e);
                for i in 0..*n {
                    let x = elem(v, i as usize);
                    self.store_ty(e, &x, &Req { addr: proto.addr + i * es, ..proto.clone() })?;
                }
                Ok(())
            }
            Ty::Struct(f, p) => {
                for i in 0..f.len() {
                    let o = field_off(f, *p, i, &self.c.prog.types, &self.c.prog.layout);
                    let x = elem(v, i);
                    self.store_ty(&f[i], &x, &Req { addr: proto.addr + o, ..proto.clone() })?;
                }
                Ok(())
            }
            t => unsup(format!("store of {t:?}")),
        }
    }
    fn check_align(&self, addr: u64, n: u32) -> Result<(), Stop> {
        if n.is_power_of_two() && addr % n as u64 != 0 {
            return Err(Stop::Bad(Why::Ub, format!("misaligned atomic access of {n} bytes at {addr:#x}")));
        }
        // (what the compiler makes of an atomic access of 16 bytes)
        if n == 16 && self.c.arch == asm::Arch::X64 && !self.c.cpu.has("cmpxchg16b") {
            return Err(Stop::Bad(Why::Illegal, format!("16-byte atomic access needs cmpxchg16b, which CPU model {} lacks", self.c.cpu.name)));
        }
        Ok(())
    }
    fn jump(&mut self, to: u32) -> Result<Flow, Stop> {
        let fr = self.t.frames.last().unwrap();
        let from = fr.bb;
        let f = &self.c.prog.funcs[fr.func as usize];
        let b = &f.blocks[to as usize];
        let mut vals = vec![];
        for (d, inc) in &b.phis {
            let Some((_, o)) = inc.iter().find(|x| x.0 == from) else { return unsup("phi without incoming edge") };
            vals.push((*d, self.opd(o)));
        }
        for (d, v) in vals {
            self.set(d, v);
        }
        let fr = self.t.frames.last_mut().unwrap();
        fr.bb = to;
        fr.ip = 0;
        Ok(Flow::Jumped)
    }
    fn map1(&self, ty: &Ty, a: &V, f: &dyn Fn(&V, u32) -> Result<V, Stop>) -> Result<V, Stop> {
        if let Ty::Vector(n, e) = ty {
            let w = self.ty_bits(e);
            let mut o = vec![];
            for i in 0..*n {
                o.push(f(&elem(a, i as usize), w)?);
            }
            return Ok(V::A(Arc::new(o)));
        }
        f(a, self.ty_bits(ty))
    }
    fn map2(&self, ty: &Ty, a: &V, b: &V, f: &dyn Fn(u128, u128, u32) -> Result<u128, Stop>) -> Result<V, Stop> {
        if let Ty::Vector(n, e) = ty {
            let w = self.ty_bits(e);
            let mut o = vec![];
            for i in 0..*n {
                let (x, y) = (elem(a, i as usize), elem(b, i as usize));
                o.push(V::I(f(x.int(), y.int(), w)?, x.dep() | y.dep()));
            }
            return Ok(V::A(Arc::new(o)));
        }
        Ok(V::I(f(a.int(), b.int(), self.ty_bits(ty))?, a.dep() | b.dep()))
    }
    fn exec(&mut self, inst: &Inst) -> Result<Flow, Stop> {
        match inst {
            Inst::Nop => {}
            Inst::Alloca { dst, size, align } => {
                let sp = round_up(self.t.sp, (*align).max(1));
                let a = self.c.base(self.t.tid) + sp;
                if sp + size > self.c.nstack {
                    return unsup("private stack exhausted");
                }
                self.t.sp = sp + size;
                self.set(*dst, V::I(a as u128, 0));
            }
            Inst::Load { dst, ty, ptr, ord, volatile, singlethread } => {
                let (p, d) = self.int(ptr);
                let addr = p as u64 & self.c.pmask();
                if *ord != Ord_::Na {
                    self.check_align(addr, bits_bytes(self.ty_bits(ty)))?;
                }
                let proto = Req { addr, ord: *ord, volatile: *volatile, single: *singlethread, adep: d, ..Req::new(K::Load) };
                let v = self.load_ty(ty, &proto)?;
                self.set(*dst, v);
            }
            Inst::Store { ty, val, ptr, ord, volatile, singlethread } => {
                let (p, d) = self.int(ptr);
                let addr = p as u64 & self.c.pmask();
                if *ord != Ord_::Na {
                    self.check_align(addr, bits_bytes(self.ty_bits(ty)))?;
                }
                let v = self.opd(val);
                let proto = Req { addr, ord: *ord, volatile: *volatile, single: *singlethread, adep: d, ..Req::new(K::Store) };
                self.store_ty(ty, &v, &proto)?;
            }
            Inst::Rmw { dst, op, bits, ptr, val, ord, singlethread } => {
                let (p, d) = self.int(ptr);
                let addr = p as u64 & self.c.pmask();
                self.check_align(addr, bits / 8)?;
                let (v, vd) = self.int(val);
                let r = Req { addr, size: bits / 8, val: mask(v, *bits), ord: *ord, single: *singlethread, adep: d, vdep: vd, ..Req::new(K::Rmw(*op)) };
                let (old, _, d) = self.rmw(r)?;
                self.set(*dst, V::I(mask(old, *bits), d));
            }
            Inst::CmpXchg { dst, bits, ptr, cmp, new, succ, fail, weak, singlethread } => {
                let (p, d) = self.int(ptr);
                let addr = p as u64 & self.c.pmask();
                self.check_align(addr, bits / 8)?;
                let (cm, cd) = self.int(cmp);
                let (n, nd) = self.int(new);
                let r = Req {
                    addr,
                    size: bits / 8,
                    val: mask(n, *bits),
                    cmp: mask(cm, *bits),
                    ord: *succ,
                    ford: *fail,
                    single: *singlethread,
                    adep: d,
                    vdep: nd | cd,
                    ..Req::new(K::Cas { weak: *weak })
                };
                let (old, ok, d) = self.rmw(r)?;
                self.set(*dst, V::A(Arc::new(vec![V::I(mask(old, *bits), d), V::I(ok as u128, d)])));
            }
            Inst::Fence { ord, singlethread } => {
                self.ask(Req { ord: *ord, single: *singlethread, ..Req::new(K::Fence) })?;
            }
            Inst::Gep { dst, base, off, idx } => {
                let (b, mut d) = self.int(base);
                let mut a = (b as u64).wrapping_add(*off);
                for (o, w, scale) in idx {
                    let (v, dd) = self.int(o);
                    d |= dd;
                    a = a.wrapping_add((sext(v, *w) as i64 as u64).wrapping_mul(*scale));
                }
                self.set(*dst, V::I((a & self.c.pmask()) as u128, d));
            }
            Inst::Bin { dst, op, ty, a, b } => {
                let (a, b) = (self.opd(a), self.opd(b));
                let op = *op;
                let r = self.map2(ty, &a, &b, &|x, y, w| bin(op, x, y, w))?;
                self.set(*dst, r);
            }
            Inst::FNeg { dst, bits, a } => {
                let (v, d) = self.int(a);
                self.set(*dst, V::I(v ^ (1u128 << (bits - 1)), d));
            }
            Inst::Icmp { dst, pred, ty, a, b } => {
                let (a, b) = (self.opd(a), self.opd(b));
                let p = *pred;
                let r = self.map2(ty, &a, &b, &|x, y, w| Ok(icmp(p, x, y, w) as u128))?;
                self.set(*dst, r);
            }
            Inst::Fcmp { dst, pred, bits, a, b } => {
                let ((x, d), (y, e)) = (self.int(a), self.int(b));
                let r = fcmp(*pred, x, y, *bits)?;
                self.set(*dst, V::I(r as u128, d | e));
            }
            Inst::Select { dst, c, a, b } => {
                let cvv = self.opd(c);
                let (av, bv) = (self.opd(a), self.opd(b));
                let r = match &cvv {
                    V::A(cs) => {
                        let mut o = vec![];
                        for (i, x) in cs.iter().enumerate() {
                            o.push(if x.int() & 1 == 1 { elem(&av, i) } else { elem(&bv, i) });
                        }
                        V::A(Arc::new(o))
                    }
                    x => {
                        let d = x.dep() | if self.c.deps { av.dep() | bv.dep() } else { 0 };
                        (if x.int() & 1 == 1 { av } else { bv }).add_dep(d)
                    }
                };
                self.set(*dst, r);
            }
            Inst::Cast { dst, op, from, to, a } => {
                let v = self.opd(a);
                let r = self.cast(*op, from, to, &v)?;
                self.set(*dst, r);
            }
            Inst::Freeze { dst, a } => {
                let v = match self.opd(a) {
                    V::U => V::I(self.garbage(), 0),
                    v => v,
                };
                self.set(*dst, v);
            }
            Inst::ExtractValue { dst, a, path } => {
                let mut v = self.opd(a);
                for i in path {
                    v = elem(&v, *i as usize);
                }
                self.set(*dst, v);
            }
            Inst::InsertValue { dst, a, v, path } => {
                let (a, v) = (self.opd(a), self.opd(v));
                let r = insert(&a, &v, path);
                self.set(*dst, r);
            }
            Inst::ExtractElement { dst, a, i } => {
                let v = elem(&self.opd(a), self.int(i).0 as usize);
                self.set(*dst, v);
            }
            Inst::InsertElement { dst, a, v, i } => {
                let (a, v, i) = (self.opd(a), self.opd(v), self.int(i).0 as u32);
                let r = insert(&a, &v, &[i]);
                self.set(*dst, r);
            }
            Inst::Shuffle { dst, a, b, mask, n } => {
                let (a, b) = (self.opd(a), self.opd(b));
                let o = mask
                    .iter()
                    .map(|m| if *m < *n { elem(&a, *m as usize) } else if *m < 2 * *n { elem(&b, (*m - *n) as usize) } else { V::U })
                    .collect();
                self.set(*dst, V::A(Arc::new(o)));
            }
            Inst::Br { to } => return self.jump(*to),
            Inst::CondBr { c, t, f } => {
                let (v, d) = self.int(c);
                self.t.ctrl |= d;
                return self.jump(if v & 1 == 1 { *t } else { *f });
            }
            Inst::Switch { c, default, cases } => {
                let (v, d) = self.int(c);
                self.t.ctrl |= d;
                let to = cases.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(*default);
                return self.jump(to);
            }
            Inst::Unreachable => return Err(Stop::Bad(Why::Ub, "unreachable code reached".into())),
            Inst::Ret { v } => {
                let v = match v {
                    Some(o) => self.opd(o),
                    None => V::U,
                };
                let fr = self.t.frames.pop().unwrap();
                let end = self.t.stack.len();
                let (lo, hi) = (fr.sp.min(end as u64) as usize, self.t.sp.min(end as u64) as usize);
                for b in &mut self.t.stack[lo..hi] {
                    *b = STACK_FILL;
                }
                self.t.sp = fr.sp;
                match self.t.frames.last_mut() {
                    None => {
                        // the harness entry point returned: pass the flag to the driver
                        self.t.pub_ctrl = v.int() as u32 as u64;
                        return Ok(Flow::Jumped);
                    }
                    Some(caller) => {
                        let f = &self.c.prog.funcs[caller.func as usize];
                        if let Inst::Call { dst: Some(d), .. } = &f.blocks[caller.bb as usize].insts[caller.ip as usize] {
                            caller.slots[*d as usize] = v;
                        }
                        caller.ip += 1;
                        return Ok(Flow::Jumped);
                    }
                }
            }
            Inst::Call { dst, callee, args, argtys, ret } => return self.call(*dst, callee, args, argtys, ret),
        }
        Ok(Flow::Next)
    }
    fn cast(&mut self, op: Cast, from: &Ty, to: &Ty, a: &V) -> Result<V, Stop> {
        if op == Cast::BitCast {
            if matches!(from, Ty::Vector(..)) != matches!(to, Ty::Vector(..)) || matches!(from, Ty::Vector(..)) {
                let mut b = vec![];
                self.flatten(from, a, &mut b);
                let d = a.dep();
                return Ok(self.unflatten(to, &b, d));
            }
            return Ok(a.clone());
        }
        let (tw, el) = match to {
            Ty::Vector(_, e) => (self.ty_bits(e), true),
            t => (self.ty_bits(t), false),
        };
        let _ = el;
        self.map1(from, a, &|x, fw| {
            let (v, d) = (x.int(), x.dep());
            let f = |v: u128, w: u32| -> Result<f64, Stop> {
                Ok(match w {
                    32 => f32::from_bits(v as u32) as f64,
                    64 => f64::from_bits(v as u64),
                    16 => fp::f16_to_f32(v as u16) as f64,
                    _ => return unsup("float cast width"),
                })
            };
            let r = match op {
                Cast::Trunc | Cast::ZExt => mask(v, tw.min(fw)),
                Cast::SExt => mask(sext(v, fw) as u128, tw),
                Cast::FpExt | Cast::FpTrunc => {
                    let x = f(v, fw)?;
                    match tw {
                        64 => x.to_bits() as u128,
                        32 => (x as f32).to_bits() as u128,
                        16 => fp::f32_to_f16(x as f32) as u128,
                        128 => fp::f64_to_f128(x),
                        _ => return unsup("fp cast"),
                    }
                }
                Cast::FpToUi => f(v, fw)? as u128,
                Cast::FpToSi => mask(f(v, fw)? as i128 as u128, tw),
                Cast::UiToFp | Cast::SiToFp => match (tw, op) {
                    (32, Cast::UiToFp) => (v as f32).to_bits() as u128,
                    (64, Cast::UiToFp) => (v as f64).to_bits() as u128,
                    (32, _) => (sext(v, fw) as f32).to_bits() as u128,
                    (64, _) => (sext(v, fw) as f64).to_bits() as u128,
                    _ => return unsup("int to fp"),
                },
                Cast::BitCast => v,
            };
            Ok(V::I(r, d))
        })
    }
    fn flatten(&self, ty: &Ty, v: &V, out: &mut Vec<u8>) {
        match ty {
            Ty::Vector(n, e) => {
                for i in 0..*n {
                    self.flatten(e, &elem(v, i as usize), out);
                }
            }
            t => out.extend(self.c.to_bytes(v.int(), bits_bytes(self.ty_bits(t)))),
        }
    }
    fn unflatten(&self, ty: &Ty, b: &[u8], d: D) -> V {
        match ty {
            Ty::Vector(n, e) => {
                let s = bits_bytes(self.ty_bits(e)) as usize;
                V::A(Arc::new((0..*n as usize).map(|i| self.unflatten(e, &b[i * s..(i + 1) * s], d)).collect()))
            }
            t => V::I(mask(self.c.from_bytes(b), self.ty_bits(t)), d),
        }
    }
    fn call(&mut self, dst: Option<u32>, callee: &Callee, args: &[Opd], argtys: &[Ty], ret: &Ty) -> Result<Flow, Stop> {
        let fi = match callee {
            Callee::Asm(id) => {
                let av: Vec<V> = args.iter().map(|a| self.opd(a)).collect();
                asm::start(self.c, self.t, *id, &av)?;
                return Ok(Flow::Jumped);
            }
            Callee::Func(f) => *f,
            Callee::Ind(o) => {
                let (v, d) = self.int(o);
                self.t.ctrl |= d;
                let a = v as u64 & self.c.pmask();
                match func_at(&self.c.prog, a) {
                    Some(f) => f,
                    None if self.c.arch == asm::Arch::Arm && a >= 0xffff_0f00 => {
                        let av: Vec<V> = args.iter().map(|a| self.opd(a)).collect();
                        let v = self.kuser(a, &av)?;
                        if let Some(d) = dst {
                            self.set(d, v);
                        }
                        return Ok(Flow::Next);
                    }
                    None => return Err(Stop::Bad(Why::Ub, format!("call to address {a:#x}, which is no function"))),
                }
            }
        };
        let f = &self.c.prog.funcs[fi as usize];
        if f.defined {
            if self.t.frames.len() > 64 {
                return Err(Stop::Bad(Why::Ub, "unbounded recursion".into()));
            }
            let mut slots = vec![V::U; f.nslots as usize];
            for (p, a) in f.params.iter().zip(args) {
                slots[*p as usize] = self.opd(a);
            }
            let sp = self.t.sp;
            self.t.frames.push(Frame { func: fi, bb: 0, ip: 0, sp, slots, args: vec![] });
            return Ok(Flow::Jumped);
        }
        let av: Vec<V> = args.iter().map(|a| self.opd(a)).collect();
        let name = f.name.clone();
        let v = self.intrinsic(&name, &av, argtys, ret)?;
        if let Some(d) = dst {
            self.set(d, v);
        }
        Ok(Flow::Next)
    }
    fn intrinsic(&mut self, name: &str, a: &[V], at: &[Ty], ret: &Ty) -> Result<V, Stop> {
        let n = name.strip_prefix("llvm.").unwrap_or("");
        let stem = n.split('.').next().unwrap_or("");
        let int = |i: usize| a.get(i).map(|v| v.int()).unwrap_or(0);
        let dd = a.iter().fold(0, |x, v| x | v.dep());
        let w = if at.is_empty() { 0 } else { self.ty_bits(&at[0]) };
        let vec = at.first().map(|t| matches!(t, Ty::Vector(..))).unwrap_or(false);
        if vec && matches!(stem, "umin" | "umax" | "smin" | "smax") {
            let op = match stem {
                "umin" => RmwOp::UMin,
                "umax" => RmwOp::UMax,
                "smin" => RmwOp::Min,
                _ => RmwOp::Max,
            };
            return self.map2(&at[0], &a[0], &a[1], &|x, y, w| Ok(rmw_val(op, x, y, w)?));
        }
        let r: u128 = match stem {
            "umin" => int(0).min(int(1)),
            "umax" => int(0).max(int(1)),
            "smin" => mask(sext(int(0), w).min(sext(int(1), w)) as u128, w),
            "smax" => mask(sext(int(0), w).max(sext(int(1), w)) as u128, w),
            "scmp" => mask(match sext(int(0), w).cmp(&sext(int(1), w)) { std::cmp::Ordering::Less => -1i128, std::cmp::Ordering::Equal => 0, _ => 1 } as u128, self.ty_bits(ret)),
            "ucmp" => mask(match int(0).cmp(&int(1)) { std::cmp::Ordering::Less => -1i128, std::cmp::Ordering::Equal => 0, _ => 1 } as u128, self.ty_bits(ret)),
            "abs" => mask(sext(int(0), w).unsigned_abs(), w),
            "bswap" => {
                let mut b = int(0).to_le_bytes()[..(w / 8) as usize].to_vec();
                b.reverse();
                let mut x = [0u8; 16];
                x[..b.len()].copy_from_slice(&b);
                u128::from_le_bytes(x)
            }
            "bitreverse" => int(0).reverse_bits() >> (128 - w),
            "ctpop" => int(0).count_ones() as u128,
            "ctlz" => (int(0).leading_zeros() - (128 - w)) as u128,
            "cttz" => int(0).trailing_zeros().min(w) as u128,
            "fshl" | "fshr" => {
                let s = (int(2) % w as u128) as u32;
                let (hi, lo) = (int(0), int(1));
                let s = if stem == "fshl" { s } else { w - s };
                if s == 0 { hi } else if s == w { lo } else { mask((hi << s) | (lo >> (w - s)), w) }
            }
            "fabs" => int(0) & !(1u128 << (w - 1)),
            "copysign" => (int(0) & !(1u128 << (w - 1))) | (int(1) & (1u128 << (w - 1))),
            "maximumnum" | "maxnum" => fp::fbin(fp::FOp::Max, int(0), int(1), w)?,
            "minimumnum" | "minnum" => fp::fbin(fp::FOp::Min, int(0), int(1), w)?,
            "uadd" if n.starts_with("uadd.sat") => { let s = mask(int(0).wrapping_add(int(1)), w); if s < int(0) { mask(!0, w) } else { s } }
            "usub" if n.starts_with("usub.sat") => int(0).saturating_sub(int(1)),
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" if n.contains("with.overflow") => {
                let (x, y) = (int(0), int(1));
                let (sx, sy) = (sext(x, w), sext(y, w));
                let (r, o) = match stem {
                    "uadd" => { let r = mask(x.wrapping_add(y), w); (r, r < x) }
                    "usub" => (mask(x.wrapping_sub(y), w), x < y),
                    "umul" => { let (r, o) = x.overflowing_mul(y); (mask(r, w), o || mask(r, w) != r) }
                    "sadd" => { let (r, o) = sx.overflowing_add(sy); let m = mask(r as u128, w); (m, o || sext(m, w) != r) }
                    "ssub" => { let (r, o) = sx.overflowing_sub(sy); let m = mask(r as u128, w); (m, o || sext(m, w) != r) }
                    _ => { let (r, o) = sx.overflowing_mul(sy); let m = mask(r as u128, w); (m, o || sext(m, w) != r) }
                };
                return Ok(V::A(Arc::new(vec![V::I(r, dd), V::I(o as u128, dd)])));
            }
            "expect" => int(0),
            "is" if n.starts_with("is.constant") => 0,
            "threadlocal" => int(0),
            "ptrmask" => int(0) & int(1),
            "trap" | "debugtrap" => return Err(Stop::Bad(Why::Panic, "trap".into())),
            "memcpy" | "memmove" | "memcpyinline" => {
                let n = int(2) as u32;
                let pm = self.c.pmask();
                let (b, d) = self.read_bytes(&Req { addr: int(1) as u64 & pm, adep: a[1].dep(), ..Req::new(K::Load) }, n)?;
                self.write_bytes(&Req { addr: int(0) as u64 & pm, adep: a[0].dep(), vdep: d, ..Req::new(K::Store) }, &b)?;
                return Ok(V::U);
            }
            "memset" => {
                let n = int(2) as usize;
                let b = vec![int(1) as u8; n];
                self.write_bytes(&Req { addr: int(0) as u64 & self.c.pmask(), adep: a[0].dep(), ..Req::new(K::Store) }, &b)?;
                return Ok(V::U);
            }
            "x86" if n == "x86.sse2.pause" => { self.ask(Req::new(K::Pause))?; return Ok(V::U); }
            "x86" if n == "x86.xgetbv" => self.c.cpu.xgetbv(int(0) as u32) as u128,
            "x86" if n.contains("sfence") || n.contains("lfence") || n.contains("mfence") => {
                self.ask(Req { hw: 1, asm: true, ord: Ord_::Sc, ..Req::new(K::Fence) })?;
                return Ok(V::U);
            }
            "aarch64" if n == "aarch64.isb" || n == "aarch64.hint" => { self.ask(Req::new(K::Pause))?; return Ok(V::U); }
            "loongarch" if n.starts_with("loongarch.ibar") => { self.ask(Req::new(K::Pause))?; return Ok(V::U); }
            "arm" if n == "arm.hint" || n == "arm.isb" => { self.ask(Req::new(K::Pause))?; return Ok(V::U); }
            "riscv" if n.starts_with("riscv.pause") => { self.ask(Req::new(K::Pause))?; return Ok(V::U); }
            "" => return self.external(name, a, at, ret),
            _ => return unsup(format!("intrinsic {name}")),
        };
        Ok(V::I(r, dd))
    }
    /// Linux kernel helpers for Arm user space.
    fn kuser(&mut self, at: u64, a: &[V]) -> Result<V, Stop> {
        let int = |i: usize| a.get(i).map(|v| v.int()).unwrap_or(0);
        let dep = |i: usize| a.get(i).map(|v| v.dep()).unwrap_or(0);
        let need = |v: u32| {
            if self.c.cpu.kuser_version < v {
                return Err(Stop::Bad(Why::Illegal, format!("kernel helper at {at:#x} is absent from helper version {}", self.c.cpu.kuser_version)));
            }
            Ok(())
        };
        match at {
            0xffff_0fa0 => {
                need(3)?;
                self.ask(Req { hw: asm::FK_FULL, asm: true, ord: Ord_::Sc, ..Req::new(K::Fence) })?;
                Ok(V::U)
            }
            0xffff_0fc0 => {
                need(2)?;
                let addr = int(2) as u64;
                self.check_align(addr, 4)?;
                let r = Req { addr, size: 4, val: int(1), cmp: int(0), ord: Ord_::Sc, ford: Ord_::Sc, adep: dep(2), vdep: dep(1) | dep(0), ..Req::new(K::Cas { weak: false }) };
                let (_, ok, d) = self.rmw(r)?;
                Ok(V::I(!ok as u128, d))
            }
            0xffff_0f60 => {
                need(5)?;
                let addr = int(2) as u64;
                self.check_align(addr, 8)?;
                let (o, od) = self.read_bytes(&Req { addr: int(0) as u64, adep: dep(0), ..Req::new(K::Load) }, 8)?;
                let (n, nd) = self.read_bytes(&Req { addr: int(1) as u64, adep: dep(1), ..Req::new(K::Load) }, 8)?;
                let (cmp, val) = (self.c.from_bytes(&o), self.c.from_bytes(&n));
                let r = Req { addr, size: 8, val, cmp, ord: Ord_::Sc, ford: Ord_::Sc, adep: dep(2), vdep: od | nd, ..Req::new(K::Cas { weak: false }) };
                let (_, ok, d) = self.rmw(r)?;
                Ok(V::I(!ok as u128, d))
            }
            0xffff_0fe0 => Ok(V::I(0x1000 * (1 + self.t.tid as u128), 0)),
            _ => Err(Stop::Bad(Why::Ub, format!("call to address {at:#x}, which is no kernel helper"))),
        }
    }
    pub fn cstr(&mut self, mut p: u64) -> Result<String, Stop> {
        let mut s = vec![];
        loop {
            let (v, _) = self.load(Req { addr: p, size: 1, ..Req::new(K::Load) })?;
            if v == 0 {
                return Ok(String::from_utf8_lossy(&s).to_string());
            }
            s.push(v as u8);
            p += 1;
        }
    }
    fn external(&mut self, name: &str, a: &[V], _at: &[Ty], ret: &Ty) -> Result<V, Stop> {
        let int = |i: usize| a.get(i).map(|v| v.int()).unwrap_or(0);
        if name.contains("panicking") || name.contains("panic") || name.contains("unwrap_failed") || name.contains("expect_failed") || name.contains("option") {
            return Err(Stop::Bad(Why::Panic, format!("panic via {name}")));
        }
        match name {
            "getauxval" => Ok(V::I(self.c.cpu.getauxval(int(0) as u64) as u128, 0)),
            "dlsym" => {
                // (RTLD_DEFAULT, name)
                let s = self.cstr(int(1) as u64)?;
                Ok(V::I(self.c.cpu.dlsym(&self.c.prog, &s) as u128, 0))
            }
            "_critical_section_1_0_acquire" => {
                let (v, _, d) = self.ask(Req { ..Req::new(K::SysR(asm::SYS_CS)) })?;
                let w = if *ret == Ty::Void { 0 } else { self.ty_bits(ret) };
                let _ = w;
                Ok(V::I(v, d))
            }
            "_critical_section_1_0_release" => {
                self.ask(Req { val: int(0), ..Req::new(K::SysW(asm::SYS_CS)) })?;
                Ok(V::U)
            }
            "memcmp" | "bcmp" => {
                let n = int(2) as u32;
                let (x, _) = self.read_bytes(&Req { addr: int(0) as u64, ..Req::new(K::Load) }, n)?;
                let (y, _) = self.read_bytes(&Req { addr: int(1) as u64, ..Req::new(K::Load) }, n)?;
                Ok(V::I((x != y) as u128, 0))
            }
            "memcpy" | "memmove" | "memset" => {
                let r = self.intrinsic(&format!("llvm.{name}.p0"), a, _at, ret);
                r?;
                Ok(a[0].clone())
            }
            n if n.ends_with("abort") || n == "exit" || n == "_exit" => Err(Stop::Bad(Why::Panic, "abort".into())),
            n => asm::external(self, n, a, ret),
        }
    }
}

pub fn elem(v: &V, i: usize) -> V {
    match v {
        V::A(a) => a.get(i).cloned().unwrap_or(V::U),
        _ => V::U,
    }
}
fn insert(a: &V, v: &V, path: &[u32]) -> V {
    let Some((i, rest)) = path.split_first() else { return v.clone() };
    let mut e = match a {
        V::A(x) => (**x).clone(),
        _ => vec![],
    };
    while e.len() <= *i as usize {
        e.push(V::U);
    }
    e[*i as usize] = insert(&e[*i as usize], v, rest);
    V::A(Arc::new(e))
}

pub fn bin(op: Bin, x: u128, y: u128, w: u32) -> Result<u128, Stop> {
    let (x, y) = (mask(x, w), mask(y, w));
    let ub = |s: &str| Err(Stop::Bad(Why::Ub, s.into()));
    let r = match op {
        Bin::Add => x.wrapping_add(y),
        Bin::Sub => x.wrapping_sub(y),
        Bin::Mul => x.wrapping_mul(y),
        Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => return ub("division by zero"),
        Bin::UDiv => x / y,
        Bin::URem => x % y,
        Bin::SDiv => sext(x, w).wrapping_div(sext(y, w)) as u128,
        Bin::SRem => sext(x, w).wrapping_rem(sext(y, w)) as u128,
        // an out-of-range shift is poison; give a recognisable value
        Bin::Shl | Bin::LShr | Bin::AShr if y >= w as u128 => GARBAGE,
        Bin::Shl => x << y,
        Bin::LShr => x >> y,
        Bin::AShr => (sext(x, w) >> y) as u128,
        Bin::And => x & y,
        Bin::Or => x | y,
        Bin::Xor => x ^ y,
        Bin::FAdd => fp::fbin(fp::FOp::Add, x, y, w)?,
        Bin::FSub => fp::fbin(fp::FOp::Sub, x, y, w)?,
        Bin::FMul => fp::fbin(fp::FOp::Mul, x, y, w)?,
        Bin::FDiv => fp::fbin(fp::FOp::Div, x, y, w)?,
        Bin::FRem => fp::fbin(fp::FOp::Rem, x, y, w)?,
    };
    Ok(mask(r, w))
}
fn icmp(p: Pred, x: u128, y: u128, w: u32) -> bool {
    let (x, y) = (mask(x, w), mask(y, w));
    let (sx, sy) = (sext(x, w), sext(y, w));
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Sgt => sx > sy,
        Pred::Sge => sx >= sy,
        Pred::Slt => sx < sy,
        _ => sx <= sy,
    }
}
fn fcmp(p: Pred, x: u128, y: u128, w: u32) -> Result<bool, Stop> {
    let f = |v: u128| -> Result<f64, Stop> {
        Ok(match w {
            32 => f32::from_bits(v as u32) as f64,
            64 => f64::from_bits(v as u64),
            16 => fp::f16_to_f32(v as u16) as f64,
            _ => return unsup("fcmp width"),
        })
    };
    let (x, y) = (f(x)?, f(y)?);
    let un = x.is_nan() || y.is_nan();
    Ok(match p {
        Pred::FOeq => x == y,
        Pred::FOgt => x > y,
        Pred::FOge => x >= y,
        Pred::FOlt => x < y,
        Pred::FOle => x <= y,
        Pred::FOne => !un && x != y,
        Pred::FOrd => !un,
        Pred::FUeq => un || x == y,
        Pred::FUgt => un || x > y,
        Pred::FUge => un || x >= y,
        Pred::FUlt => un || x < y,
        Pred::FUle => un || x <= y,
        Pred::FUne => un || x != y,
        Pred::FUno => un,
        Pred::FTrue => true,
        _ => false,
    })
}
