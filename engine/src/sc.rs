//! Explicit-state exploration of all interleavings (sequentially consistent memory, TSO store buffers, or one core
//! with interrupts), with a linearizability monitor and state invariants.
use crate::asm;
use crate::auto::*;
use crate::interp::*;
use crate::ir::*;
use crate::lin::*;
use crate::spec::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Obj {
    pub addr: u64,
    pub e: Entry,
    pub init: u128,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// all threads run concurrently
    Smp,
    /// thread 0 is the program, the others are interrupt handlers on the same core
    Irq { nest: bool, masked: bool, fiq: bool },
}

#[derive(Clone, Debug)]
pub enum Act {
    Op(OpInfo),
    Read { addr: u64, size: u32, expect: Option<Vec<u128>> },
    Write { addr: u64, size: u32, val: u128 },
}

#[derive(Clone)]
pub struct Scen {
    pub name: String,
    pub threads: Vec<Vec<Act>>,
    /// run after all other threads are done
    pub tail: Vec<Act>,
    pub objs: Vec<Obj>,
    /// memory contents other than globals' initial values
    pub init: Vec<(u64, Vec<u8>)>,
    pub mode: Mode,
    pub tso: bool,
    /// check that each thread finishes when it runs alone
    pub solo: bool,
    pub progress: bool,
    pub spurious: bool,
    pub max_states: usize,
    /// a panic of this thread's (last) operation is what must happen
    pub expect_panic: Option<usize>,
    /// what queries must answer
    pub expect_flag: Option<u32>,
    /// judge accesses outside the object
    pub footprint: bool,
    /// no fair schedule keeps all unfinished threads running for ever
    pub fair: bool,
    /// the operations must not touch the interrupt state
    pub no_mask: bool,
    /// judge results and contents
    pub lin: bool,
    /// report conflicting accesses of which one is plain
    pub race: bool,
    /// loads must not write to the object
    pub ro_load: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub why: String,
    pub msg: String,
    pub trace: Vec<String>,
}
#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub states: u64,
    pub transitions: u64,
    pub violation: Option<Violation>,
    pub inconclusive: Option<String>,
    pub final_states: u64,
    /// results of complete executions, when asked for
    pub results: std::collections::BTreeSet<Vec<(u8, u16, Res)>>,
    pub panicked: bool,
}

/// Everything about one build of the crate that scenarios share.
pub struct World {
    pub name: String,
    pub prog: Arc<Program>,
    pub arch: asm::Arch,
    pub cpu: asm::CpuModel,
    pub caches: Arc<Caches>,
    pub alloc: u32,
    pub garbage: u32,
    pub contract: bool,
    pub deps: bool,
    autos: RefCell<HashMap<(u32, Vec<Step>), Rc<RefCell<Auto>>>>,
}
// Workers never touch another world's automata: they call `fork` (which reads the shared parts only) and use the copy.
unsafe impl Send for World {}
unsafe impl Sync for World {}
impl World {
    pub fn new(name: &str, prog: Arc<Program>, arch: asm::Arch, cpu: asm::CpuModel) -> World {
        World { name: name.into(), prog, arch, cpu, caches: Default::default(), alloc: 0, garbage: 0, contract: false, deps: false, autos: Default::default() }
    }
    pub fn fork(&self) -> World {
        World { name: self.name.clone(), prog: self.prog.clone(), arch: self.arch, cpu: self.cpu.clone(), caches: self.caches.clone(), alloc: self.alloc, garbage: self.garbage, contract: self.contract, deps: self.deps, autos: Default::default() }
    }
    /// a copy that does not track dependencies
    pub fn cold(&self) -> World {
        let mut w = self.fork();
        w.deps = false;
        w
    }
    pub fn auto(&self, tid: u32, steps: &[Step]) -> Rc<RefCell<Auto>> {
        let k = (tid, steps.to_vec());
        if let Some(a) = self.autos.borrow().get(&k) {
            return a.clone();
        }
        let a = Rc::new(RefCell::new(Auto::new(Arc::new(self.ctx(tid, steps)), tid)));
        let mut m = self.autos.borrow_mut();
        if m.len() > 400 {
            m.clear();
        }
        m.insert(k, a.clone());
        a
    }
    pub fn ctx(&self, tid: u32, steps: &[Step]) -> Ctx {
        let mut all = vec![vec![]; tid as usize];
        all.push(steps.to_vec());
        let mut c = Ctx::new(self.prog.clone(), self.arch, self.cpu.clone(), all);
        c.cache = self.caches.clone();
        c.alloc = self.alloc;
        c.garbage = self.garbage;
        c.check_contract = self.contract;
        c.deps = self.deps;
        c
    }
    pub fn obj_base(&self) -> u64 {
        addr_map(self.prog.layout.ptr_bits).obj_base
    }
    pub fn bytes(&self, v: u128, n: u32) -> Vec<u8> {
        let mut b = v.to_le_bytes()[..n as usize].to_vec();
        if self.prog.layout.big_endian {
            b.reverse();
        }
        b
    }
    pub fn value(&self, b: &[u8]) -> u128 {
        let mut x = [0u8; 16];
        for (i, c) in b.iter().enumerate() {
            x[if self.prog.layout.big_endian { b.len() - 1 - i } else { i }] = *c;
        }
        u128::from_le_bytes(x)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct St {
    nodes: Vec<u32>,
    mem: Vec<u64>,
    resv: Vec<u64>,
    /// store buffers: (addr, size, val), oldest first
    sb: Vec<Vec<(u64, u8, u128)>>,
    mon: u32,
    forced: u8,
    /// interrupt state register; for critical sections 1 + holder
    sys: u64,
    /// running contexts with the interrupt state to restore
    stack: Vec<(u8, u64)>,
    at_call: Vec<u64>,
}

const NONE: u8 = 255;
const GRAN: u64 = 16;

struct Ex<'a> {
    w: &'a World,
    s: &'a Scen,
    autos: Vec<Rc<RefCell<Auto>>>,
    lin: Lin,
    words: HashMap<u64, usize>,
    waddr: Vec<u64>,
    winit: Vec<u64>,
    init_bytes: HashMap<u64, u8>,
    states: Vec<St>,
    index: HashMap<St, u32>,
    parent: Vec<(u32, String)>,
    preds: Vec<Vec<u32>>,
    solo_next: Vec<Vec<(u32, bool)>>,
    succ: Vec<Vec<(u32, u8)>>,
    out: Outcome,
    n: usize,
    sys_id: u32,
    in_op: bool,
    sys_ie: u64,
    sys_disabled_when_set: bool,
}

pub fn steps_of(acts: &[Act], w: &World, objs: &[Obj]) -> Vec<Step> {
    let _ = w;
    acts.iter()
        .map(|a| match a {
            Act::Op(o) => Step::Op { func: o.e.func, obj: objs.get(o.obj).map(|x| x.addr).unwrap_or(0), size: o.e.bits / 8, a: o.a, b: o.b, o1: o.o1, o2: o.o2 },
            Act::Read { addr, size, .. } => Step::Read { addr: *addr, size: *size },
            Act::Write { addr, size, val } => Step::Write { addr: *addr, size: *size, val: *val },
        })
        .collect()
}

pub fn describe(acts: &[Act]) -> String {
    acts.iter()
        .map(|a| match a {
            Act::Op(o) => format!("{}#{}({:#x},{:#x},{}/{})", o.e.name, o.obj, o.a, o.b, ord_name(o.o1), ord_name(o.o2)),
            Act::Read { addr, size, .. } => format!("read{size}({addr:#x})"),
            Act::Write { addr, size, val } => format!("write{size}({addr:#x},{val:#x})"),
        })
        .collect::<Vec<_>>()
        .join("; ")
}

enum Fail {
    V(String, String),
    Inc(String),
}

thread_local! {
    static UNTIL: std::cell::Cell<Option<std::time::Instant>> = const { std::cell::Cell::new(None) };
    static TICK: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// limits how long this thread works on the next scenario
pub fn set_until(t: Option<std::time::Instant>) {
    UNTIL.with(|u| u.set(t));
}
/// is it time to give up? (looks at the clock now and then only)
pub fn late() -> bool {
    TICK.with(|k| {
        let n = k.get().wrapping_add(1);
        k.set(n);
        n % 512 == 0 && UNTIL.with(|u| u.get().map(|t| std::time::Instant::now() > t).unwrap_or(false))
    })
}
pub const TIME: &str = "out of time";

pub fn explore(w: &World, s: &Scen) -> Outcome {
    let mut threads = s.threads.clone();
    let has_tail = !s.tail.is_empty();
    if has_tail {
        threads.push(s.tail.clone());
    }
    let n = threads.len();
    let autos = threads.iter().enumerate().map(|(t, a)| w.auto(t as u32, &steps_of(a, w, &s.objs))).collect();
    let ops = threads.iter().map(|a| a.iter().map(|x| if let Act::Op(o) = x { Some(o.clone()) } else { None }).collect()).collect();
    let lin = Lin::new(ops, s.objs.iter().map(|o| o.init).collect());
    let mut init_bytes = HashMap::new();
    for o in &s.objs {
        for (i, b) in w.bytes(o.init, o.e.bits / 8).iter().enumerate() {
            init_bytes.insert(o.addr + i as u64, *b);
        }
    }
    for (a, b) in &s.init {
        for (i, c) in b.iter().enumerate() {
            init_bytes.insert(a + i as u64, *c);
        }
    }
    let (sys_id, sys_ie, dis) = match w.arch {
        asm::Arch::Rv32 | asm::Arch::Rv64 => if w.cpu.has("smode") { (asm::SYS_SSTATUS, 2, false) } else { (asm::SYS_MSTATUS, 8, false) },
        asm::Arch::Arm => if w.cpu.has("mclass") { (asm::SYS_PRIMASK, 1, true) } else if matches!(s.mode, Mode::Irq { fiq: true, .. }) { (asm::SYS_CPSR, 0x40, true) } else { (asm::SYS_CPSR, 0x80, true) },
        asm::Arch::Avr => (asm::SYS_SREG, 0x80, false),
        asm::Arch::Msp430 => (asm::SYS_MSPSR, 8, false),
        _ => (asm::SYS_CS, 0, false),
    };
    let mut ex = Ex {
        w,
        s,
        autos,
        lin,
        words: HashMap::new(),
        waddr: vec![],
        winit: vec![],
        init_bytes,
        states: vec![],
        index: HashMap::new(),
        parent: vec![],
        preds: vec![],
        solo_next: vec![],
        succ: vec![],
        out: Outcome::default(),
        n,
        sys_id,
        in_op: true,
        sys_ie,
        sys_disabled_when_set: dis,
    };
    ex.run(has_tail);
    ex.out
}

impl<'a> Ex<'a> {
    fn init_byte(&self, a: u64) -> u8 {
        if let Some(b) = self.init_bytes.get(&a) {
            return *b;
        }
        let p = &self.w.prog;
        if a >= p.gbase && a < p.gend {
            return p.image.get((a - p.gbase) as usize).copied().unwrap_or(0);
        }
        0x5A
    }
    fn word(&mut self, a: u64) -> usize {
        let k = a & !7;
        if let Some(i) = self.words.get(&k) {
            return *i;
        }
        let mut b = [0u8; 8];
        for i in 0..8 {
            b[i] = self.init_byte(k + i as u64);
        }
        let i = self.waddr.len();
        self.words.insert(k, i);
        self.waddr.push(k);
        self.winit.push(u64::from_le_bytes(b));
        i
    }
    fn rd_bytes(&mut self, mem: &[u64], a: u64, n: u32) -> [u8; 16] {
        let mut o = [0u8; 16];
        let mut i = 0u64;
        while i < n as u64 {
            let w = self.word(a + i);
            let v = mem.get(w).copied().unwrap_or(self.winit[w]);
            let b = v.to_le_bytes();
            let mut k = ((a + i) & 7) as usize;
            while k < 8 && i < n as u64 {
                o[i as usize] = b[k];
                k += 1;
                i += 1;
            }
        }
        o
    }
    fn read(&mut self, st: &St, t: usize, a: u64, n: u32) -> u128 {
        let mut b = self.rd_bytes(&st.mem, a, n);
        if self.s.tso {
            for (sa, sn, sv) in &st.sb[t] {
                let sbv = self.w.bytes(*sv, *sn as u32);
                for (i, x) in sbv.iter().enumerate() {
                    let p = sa + i as u64;
                    if p >= a && p < a + n as u64 {
                        b[(p - a) as usize] = *x;
                    }
                }
            }
        }
        self.w.value(&b[..n as usize])
    }
    fn write_mem(&mut self, st: &mut St, t: usize, a: u64, n: u32, v: u128) {
        let b = self.w.bytes(v, n);
        let mut i = 0u64;
        while i < n as u64 {
            let w = self.word(a + i);
            while st.mem.len() <= w {
                let k = st.mem.len();
                st.mem.push(self.winit[k]);
            }
            let mut x = st.mem[w].to_le_bytes();
            let mut k = ((a + i) & 7) as usize;
            while k < 8 && i < n as u64 {
                x[k] = b[i as usize];
                k += 1;
                i += 1;
            }
            st.mem[w] = u64::from_le_bytes(x);
        }
        while let Some(l) = st.mem.last() {
            if *l == self.winit[st.mem.len() - 1] {
                st.mem.pop();
            } else {
                break;
            }
        }
        // reservations of the other CPUs
        for (k, r) in st.resv.iter_mut().enumerate() {
            if *r != 0 && k != t && a < *r + GRAN && *r < a + n as u64 {
                *r = 0;
            }
        }
    }
    fn enabled_irq(&self, st: &St) -> bool {
        (st.sys & self.sys_ie != 0) != self.sys_disabled_when_set
    }
    fn is_start(&self, st: &St, t: usize) -> bool {
        st.nodes[t] == 0
    }
    fn done(&self, st: &St, t: usize) -> bool {
        matches!(self.autos[t].borrow().st(st.nodes[t]), NSt::Done)
    }
    fn run(&mut self, has_tail: bool) {
        let n = self.n;
        let (stack, sys) = match self.s.mode {
            Mode::Smp => (vec![], 0),
            Mode::Irq { masked, .. } => {
                // other bits of the register must survive
                let other = match self.w.arch {
                    asm::Arch::Rv32 | asm::Arch::Rv64 => 0x1800 | 0x22 | 0x88,
                    asm::Arch::Arm if self.w.cpu.has("mclass") => 0,
                    asm::Arch::Arm => 0x1f,
                    asm::Arch::Avr => 0x5b,
                    asm::Arch::Msp430 => 0x105,
                    _ => 0,
                } & !self.sys_ie;
                let dis = masked == self.sys_disabled_when_set;
                (vec![(0u8, 0u64)], other | if dis { self.sys_ie } else { 0 })
            }
        };
        let st = St { nodes: vec![0; n], mem: vec![], resv: vec![0; n], sb: vec![vec![]; if self.s.tso { n } else { 0 }], mon: 0, forced: NONE, sys, stack, at_call: vec![0; n] };
        self.add(st, u32::MAX, String::new());
        let mut i = 0;
        while i < self.states.len() {
            if late() {
                self.out.inconclusive = Some(TIME.into());
                break;
            }
            if self.states.len() > self.s.max_states {
                self.out.inconclusive = Some(format!("more than {} states", self.s.max_states));
                break;
            }
            if let Err(f) = self.expand(i as u32, has_tail) {
                match f {
                    Fail::Inc(m) => self.out.inconclusive = Some(m),
                    Fail::V(w, m) => {
                        let trace = self.trace(i as u32);
                        self.out.violation = Some(Violation { why: w, msg: m, trace });
                        break;
                    }
                }
                if self.out.inconclusive.is_some() && self.out.violation.is_none() {
                    break;
                }
            }
            i += 1;
        }
        self.out.states = self.states.len() as u64;
        if self.out.violation.is_none() && self.out.inconclusive.is_none() && self.s.expect_panic.is_none() {
            if self.s.progress {
                self.check_progress();
            }
            if self.s.solo && self.out.violation.is_none() {
                self.check_solo();
            }
            if self.s.fair && self.out.violation.is_none() {
                self.check_fair();
            }
        }
        if let Some(e) = self.lin.err.take() {
            self.out.inconclusive = Some(e);
        }
    }
    fn trace(&self, mut i: u32) -> Vec<String> {
        let mut v = vec![];
        while i != u32::MAX {
            let (p, s) = &self.parent[i as usize];
            if !s.is_empty() {
                v.push(s.clone());
            }
            i = *p;
        }
        v.reverse();
        v
    }
    fn add(&mut self, st: St, from: u32, label: String) -> u32 {
        self.out.transitions += (from != u32::MAX) as u64;
        if let Some(i) = self.index.get(&st) {
            let i = *i;
            if from != u32::MAX {
                self.preds[i as usize].push(from);
            }
            return i;
        }
        let i = self.states.len() as u32;
        self.index.insert(st.clone(), i);
        self.states.push(st);
        self.parent.push((from, label));
        self.preds.push(if from == u32::MAX { vec![] } else { vec![from] });
        self.solo_next.push(vec![(u32::MAX, false); self.n]);
        if self.s.fair {
            self.succ.push(vec![]);
        }
        i
    }
    fn all_done(&self, st: &St, upto: usize) -> bool {
        (0..upto).all(|t| self.done(st, t)) && st.sb.iter().take(upto).all(|b| b.is_empty())
    }
    fn expand(&mut self, i: u32, has_tail: bool) -> Result<(), Fail> {
        let st = self.states[i as usize].clone();
        let n = self.n;
        let body = if has_tail { n - 1 } else { n };
        let irq = matches!(self.s.mode, Mode::Irq { .. });
        // who may move
        let mut movers: Vec<usize> = vec![];
        let body_done = if irq { self.done(&st, 0) && st.stack.len() <= 1 } else { self.all_done(&st, body) };
        if body_done {
            if has_tail && !self.all_done(&st, n) && !self.done(&st, n - 1) {
                movers.push(n - 1);
            }
        } else if irq {
            let (top, _) = *st.stack.last().unwrap();
            movers.push(top as usize);
        } else if st.forced != NONE && !self.blocked(&st, st.forced as usize) {
            movers.push(st.forced as usize);
        } else {
            // steps nobody else can notice come first, alone
            let local = (0..body).find(|t| match self.autos[*t].borrow().st(st.nodes[*t]) {
                NSt::Req(r) => matches!(r.k, K::Choice(_) | K::Pause | K::Ret(_)) || (r.k == K::Fence && !self.s.tso),
                NSt::Bad(..) => true,
                _ => false,
            });
            match local {
                Some(t) => movers.push(t),
                None => movers.extend((0..body).filter(|t| !self.done(&st, *t))),
            }
        }
        let mut any = false;
        for t in movers {
            any |= self.step(i, &st, t, irq)?;
        }
        if irq && !body_done {
            let (top, _) = *st.stack.last().unwrap();
            if self.done(&st, top as usize) && st.stack.len() > 1 {
                // return from the handler
                let mut s2 = st.clone();
                let (_, saved) = s2.stack.pop().unwrap();
                s2.sys = saved;
                self.add(s2, i, format!("T{top}: returns from interrupt"));
                any = true;
            } else if self.enabled_irq(&st) && !matches!(self.autos[top as usize].borrow().st(st.nodes[top as usize]), NSt::Bad(..)) {
                for t in 1..body {
                    if self.is_start(&st, t) && !st.stack.iter().any(|x| x.0 as usize == t) {
                        let mut s2 = st.clone();
                        let saved = s2.sys;
                        let Mode::Irq { nest, .. } = self.s.mode else { unreachable!() };
                        if !nest && !self.w.cpu.has("mclass") {
                            if self.sys_disabled_when_set {
                                s2.sys |= self.sys_ie;
                            } else {
                                s2.sys &= !self.sys_ie;
                            }
                        }
                        s2.stack.push((t as u8, saved));
                        self.add(s2, i, format!("T{t}: interrupt arrives"));
                        any = true;
                    }
                }
            }
        }
        if self.s.tso {
            for t in 0..n {
                if !st.sb[t].is_empty() {
                    let mut s2 = st.clone();
                    let (a, sz, v) = s2.sb[t].remove(0);
                    self.write_mem(&mut s2, t, a, sz as u32, v);
                    self.add(s2, i, format!("T{t}: buffered write of {v:#x} to {a:#x} reaches memory"));
                    any = true;
                }
            }
        }
        let fin = body_done && (!has_tail || self.done(&st, n - 1));
        if fin && !any {
            self.out.final_states += 1;
            self.final_check(&st)?;
        }
        Ok(())
    }
    fn final_check(&mut self, st: &St) -> Result<(), Fail> {
        for k in 0..if self.s.lin { self.s.objs.len() } else { 0 } {
            let o = self.s.objs[k].clone();
            let b = self.rd_bytes(&st.mem, o.addr, o.e.bits / 8);
            let v = self.w.value(&b[..(o.e.bits / 8) as usize]);
            let allowed = self.lin.contents(st.mon, k);
            if !allowed.contains(&v) {
                return Err(Fail::V("final".into(), format!("final contents {v:#x} of object {k} ({}) do not match any order of the calls (allowed: {allowed:x?})", o.e.ty)));
            }
        }
        if self.w.arch != asm::Arch::Other && matches!(self.s.mode, Mode::Smp) && st.sys != 0 {
            return Err(Fail::V("cs".into(), "critical section still held at the end".into()));
        }
        if !self.s.footprint {
            return Ok(());
        }
        // everything outside objects and the crate's own statics
        for (i, a) in self.waddr.clone().into_iter().enumerate() {
            let p = &self.w.prog;
            if a >= p.gbase && a < p.gend {
                continue;
            }
            let v = st.mem.get(i).copied().unwrap_or(self.winit[i]).to_le_bytes();
            let w0 = self.winit[i].to_le_bytes();
            for k in 0..8 {
                let at = a + k as u64;
                if v[k] != w0[k] && !self.in_obj(at) && !self.client_writes(at) {
                    return Err(Fail::V("footprint".into(), format!("byte at {at:#x} outside every object changed from {:#x} to {:#x}", w0[k], v[k])));
                }
            }
        }
        Ok(())
    }
    fn in_obj(&self, a: u64) -> bool {
        self.s.objs.iter().any(|o| a >= o.addr && a < o.addr + (o.e.bits / 8) as u64)
    }
    fn client_writes(&self, a: u64) -> bool {
        self.s.threads.iter().flatten().any(|x| matches!(x, Act::Write { addr, size, .. } if a >= *addr && a < addr + *size as u64))
    }
    /// Is this access within what the crate may touch?
    fn footprint(&mut self, st: &St, t: usize, r: &Req, new: Option<u128>) -> Result<(), Fail> {
        if !self.s.footprint || !self.in_op {
            return Ok(());
        }
        let p = &self.w.prog;
        if r.addr >= p.gbase && r.addr + r.size as u64 <= p.gend {
            if new.is_some() {
                let i = match p.gaddr.binary_search(&r.addr) {
                    Ok(i) => i,
                    Err(i) => i.saturating_sub(1),
                };
                if p.globals[i].constant {
                    return Err(Fail::V("footprint".into(), format!("write to constant {}", p.globals[i].name)));
                }
            }
            return Ok(());
        }
        let (a, e) = (r.addr, r.addr + r.size as u64);
        if (a..e).all(|x| self.in_obj(x)) {
            return Ok(());
        }
        // the containing machine word may be accessed by instructions that preserve the neighbours
        let ws = (self.w.prog.layout.ptr_bits / 8) as u64;
        let touches = self.s.objs.iter().any(|o| {
            let lo = o.addr & !(ws - 1);
            let hi = (o.addr + (o.e.bits / 8) as u64 + ws - 1) & !(ws - 1);
            a >= lo && e <= hi
        });
        if !touches {
            return Err(Fail::V("footprint".into(), format!("T{t} accesses {} bytes at {a:#x}, outside the object", r.size)));
        }
        if let Some(nv) = new {
            if r.k == K::Store {
                return Err(Fail::V("footprint".into(), format!("T{t} stores {} bytes at {a:#x}, over memory next to the object", r.size)));
            }
            let old = self.rd_bytes(&st.mem, a, r.size);
            let nb = self.w.bytes(nv, r.size);
            for i in 0..r.size as usize {
                if old[i] != nb[i] && !self.in_obj(a + i as u64) {
                    return Err(Fail::V("footprint".into(), format!("T{t} changes the byte at {:#x} next to the object", a + i as u64)));
                }
            }
        }
        Ok(())
    }
    fn step(&mut self, i: u32, st: &St, t: usize, irq: bool) -> Result<bool, Fail> {
        let auto = self.autos[t].clone();
        let mut auto = auto.borrow_mut();
        let node = st.nodes[t];
        let r = match auto.st(node) {
            NSt::Done => return Ok(false),
            NSt::Bad(w, m) => {
                let m = format!("T{t}: {m}");
                return match w {
                    Why::Unsupported => Err(Fail::Inc(m)),
                    Why::Panic if self.s.expect_panic == Some(t) => {
                        drop(auto);
                        self.out.panicked = true;
                        self.panic_check(st)?;
                        Ok(true)
                    }
                    w => Err(Fail::V(format!("{w:?}").to_lowercase(), m)),
                };
            }
            NSt::Req(r) => r.clone(),
        };
        if self.s.race && r.is_mem() {
            self.race(st, t, &r)?;
        }
        if self.s.ro_load && (r.is_write() || matches!(r.k, K::Sc)) && self.touches_obj(&r) {
            let acts = if t < self.s.threads.len() { &self.s.threads[t] } else { &self.s.tail };
            if let Some(Act::Op(o)) = acts.get(auto.nodes[node as usize].th.step as usize) {
                if o.e.op == "load" {
                    return Err(Fail::V("read-only".into(), format!("T{t}: {} makes a write access ({:?}) to its object", o.e.name, r.k)));
                }
            }
        }
        if self.s.footprint {
            let acts = if t < self.s.threads.len() { &self.s.threads[t] } else { &self.s.tail };
            self.in_op = matches!(acts.get(auto.nodes[node as usize].th.step as usize), Some(Act::Op(_)));
        }
        let mut forced = NONE;
        let k = r.k;
        let mut go = |ex: &mut Self, auto: &mut Auto, mut s2: St, v: u128, ok: bool, label: String, solo: bool, ret: bool| {
            s2.nodes[t] = auto.next(node, v, ok);
            let j = ex.add(s2, i, label);
            if solo {
                ex.solo_next[i as usize][t] = (j, ret);
            }
            if ex.s.fair && (solo || matches!(k, K::Choice(_))) {
                ex.succ[i as usize].push((j, t as u8));
            }
        };
        match r.k {
            K::Choice(n) => {
                for c in 0..n {
                    go(self, &mut auto, st.clone(), c as u128, true, String::new(), c == 0, false);
                }
            }
            K::Pause => go(self, &mut auto, st.clone(), 0, true, String::new(), true, false),
            K::Fence => {
                if self.s.tso && !st.sb[t].is_empty() && (r.ord == Ord_::Sc || r.asm && r.hw == asm::FK_FULL) && !r.single {
                    return Ok(false);
                }
                let mut s2 = st.clone();
                s2.forced = if st.forced == t as u8 { st.forced } else { NONE };
                go(self, &mut auto, s2, 0, true, format!("T{t}: fence"), true, false)
            }
            K::Call(ix) => {
                let mut s2 = st.clone();
                if self.s.lin && self.lin.ops[t][ix as usize].is_some() {
                    match self.lin.event(st.mon, Ev::Call(t as u8, ix as u16)) {
                        Some(m) => s2.mon = m,
                        None => return Err(Fail::Inc("monitor".into())),
                    }
                }
                s2.at_call[t] = st.sys;
                if !irq {
                    forced = t as u8;
                }
                s2.forced = forced;
                let d = match &self.lin.ops[t][ix as usize] {
                    Some(o) => format!("{} object {} a={:#x} b={:#x} {}/{}", o.e.name, o.obj, o.a, o.b, ord_name(o.o1), ord_name(o.o2)),
                    None => String::new(),
                };
                go(self, &mut auto, s2, 0, true, format!("T{t}: call {d}"), true, false);
            }
            K::Ret(ix) => {
                let mut s2 = st.clone();
                s2.forced = NONE;
                let mut label = format!("T{t}: return");
                let acts = if t < self.s.threads.len() { &self.s.threads[t] } else { &self.s.tail };
                match &acts[ix as usize] {
                    Act::Op(o) => {
                        let flag = r.addr as u32;
                        let res = observed(&o.e, flag, r.val, r.cmp);
                        label = format!("T{t}: {} returns {:x?}", o.e.name, res);
                        if let (Some(f), Kind::Query) = (self.s.expect_flag, kind(&o.e.op)) {
                            if f != flag {
                                return Err(Fail::V("report".into(), format!("{} answers {flag}; elsewhere in the same process the answer is {f}", o.e.name)));
                            }
                        }
                        let next = if self.s.lin { self.lin.event(st.mon, Ev::Ret(t as u8, res)) } else { Some(st.mon) };
                        match next {
                            Some(m) => s2.mon = m,
                            None => return Err(Fail::V("linearizability".into(), format!("{label}, which no order of the calls explains"))),
                        }
                        if o.e.t == T::Bool && r.cmp > 1 && kind(&o.e.op) == Kind::Update {
                            return Err(Fail::V("bool".into(), format!("closure of {} was given {:#x}", o.e.name, r.cmp)));
                        }
                        if o.e.t == T::Bool && r.val > 1 && observed(&o.e, flag, r.val, 0).val.is_some() {
                            return Err(Fail::V("bool".into(), format!("{} returned {:#x}, not a bool", o.e.name, r.val)));
                        }
                        if flag > 1 && o.e.op != "layout" && !matches!(kind(&o.e.op), Kind::Query) {
                            return Err(Fail::V("bool".into(), format!("{} returned the flag {flag:#x}", o.e.name)));
                        }
                        if irq && st.sys != st.at_call[t] {
                            return Err(Fail::V("interrupt-state".into(), format!("{} leaves the interrupt state at {:#x}; it was {:#x} before the call", o.e.name, st.sys, st.at_call[t])));
                        }
                        if !irq && self.sys_id == asm::SYS_CS || !irq && st.sys != 0 {
                            if st.sys == t as u64 + 1 {
                                return Err(Fail::V("interrupt-state".into(), format!("{} returns while it holds the critical section", o.e.name)));
                            }
                        }
                    }
                    Act::Read { expect: Some(x), addr, .. } => {
                        if !x.contains(&r.val) {
                            return Err(Fail::V("footprint".into(), format!("T{t} reads {:#x} at {addr:#x} next to the object; expected one of {x:x?}", r.val)));
                        }
                    }
                    _ => {}
                }
                s2.at_call[t] = 0;
                go(self, &mut auto, s2, 0, true, label, true, true);
            }
            K::Load | K::Ll => {
                self.footprint(st, t, &r, None)?;
                let v = self.read(st, t, r.addr, r.size);
                let mut s2 = st.clone();
                s2.forced = NONE;
                if r.k == K::Ll {
                    s2.resv[t] = r.addr & !(GRAN - 1);
                }
                go(self, &mut auto, s2, v, true, format!("T{t}: read{} {:#x} -> {v:#x}", r.size * 8, r.addr), true, false);
            }
            K::Store => {
                self.footprint(st, t, &r, Some(r.val))?;
                let mut s2 = st.clone();
                s2.forced = NONE;
                let locked = !r.asm && r.ord == Ord_::Sc;
                if self.s.tso && locked && !st.sb[t].is_empty() {
                    return Ok(false);
                }
                if self.s.tso && !locked {
                    if s2.sb[t].len() >= 6 {
                        return Ok(false);
                    }
                    s2.sb[t].push((r.addr, r.size as u8, r.val));
                } else {
                    self.write_mem(&mut s2, t, r.addr, r.size, r.val);
                    self.invariant(&s2)?;
                }
                go(self, &mut auto, s2, 0, true, format!("T{t}: write{} {:#x} <- {:#x}", r.size * 8, r.addr, r.val), true, false);
            }
            K::Rmw(_) | K::Cas { .. } => {
                if self.s.tso && !st.sb[t].is_empty() {
                    return Ok(false);
                }
                let old = self.read(st, t, r.addr, r.size);
                let (new, ok) = match apply_rmw(&r, old) {
                    Ok(x) => x,
                    Err(Stop::Bad(_, m)) => return Err(Fail::Inc(m)),
                    Err(_) => return Err(Fail::Inc("rmw".into())),
                };
                // a compare-exchange is a write even when it fails
                self.footprint(st, t, &r, Some(new.unwrap_or(old)))?;
                let mut s2 = st.clone();
                s2.forced = NONE;
                if let Some(nv) = new {
                    self.write_mem(&mut s2, t, r.addr, r.size, nv);
                    self.invariant(&s2)?;
                }
                let label = format!("T{t}: {:?} {:#x} old {old:#x} operand {:#x} cmp {:#x} ok {ok}", r.k, r.addr, r.val, r.cmp);
                go(self, &mut auto, s2, old, ok, label, true, false);
                if ok && r.k == (K::Cas { weak: true }) && self.s.spurious {
                    let mut s2 = st.clone();
                    s2.forced = NONE;
                    go(self, &mut auto, s2, old, false, format!("T{t}: weak compare-exchange at {:#x} fails spuriously", r.addr), false, false);
                }
            }
            K::Sc => {
                if self.s.tso && !st.sb[t].is_empty() {
                    return Ok(false);
                }
                let holds = st.resv[t] != 0 && r.addr >= st.resv[t] && r.addr + r.size as u64 <= st.resv[t] + GRAN;
                if holds {
                    self.footprint(st, t, &r, Some(r.val))?;
                    let mut s2 = st.clone();
                    s2.forced = NONE;
                    s2.resv[t] = 0;
                    self.write_mem(&mut s2, t, r.addr, r.size, r.val);
                    self.invariant(&s2)?;
                    go(self, &mut auto, s2, 0, true, format!("T{t}: store-conditional {:#x} <- {:#x} succeeds", r.addr, r.val), true, false);
                }
                if !holds || self.s.spurious {
                    let mut s2 = st.clone();
                    s2.forced = NONE;
                    s2.resv[t] = 0;
                    go(self, &mut auto, s2, 0, false, format!("T{t}: store-conditional {:#x} fails", r.addr), !holds, false);
                }
            }
            K::SysR(asm::SYS_CS) | K::SysW(asm::SYS_CS) if self.s.no_mask => {
                return Err(Fail::V("lock-free".into(), format!("T{t} enters a critical section in an operation reported to be lock-free")));
            }
            K::SysR(id) => {
                if id == asm::SYS_CS {
                    if st.sys != 0 {
                        if st.sys == t as u64 + 1 {
                            return Err(Fail::Inc("nested critical section".into()));
                        }
                        // (one core: the handler could never get it)
                        return Ok(false);
                    }
                    let mut s2 = st.clone();
                    s2.forced = NONE;
                    s2.sys = t as u64 + 1;
                    go(self, &mut auto, s2, 1, true, format!("T{t}: enters the critical section"), true, false);
                } else {
                    if id != self.sys_id && !(id == asm::SYS_CPSR && self.sys_id == asm::SYS_CPSR) {
                        return Err(Fail::V("interrupt-state".into(), format!("T{t} reads interrupt state register {id}, which this privilege level does not have")));
                    }
                    let mut s2 = st.clone();
                    s2.forced = NONE;
                    go(self, &mut auto, s2, st.sys as u128, true, format!("T{t}: reads interrupt state {:#x}", st.sys), true, false);
                }
            }
            K::SysW(id) => {
                let mut s2 = st.clone();
                s2.forced = NONE;
                if id == asm::SYS_CS {
                    if st.sys != t as u64 + 1 {
                        return Err(Fail::V("interrupt-state".into(), format!("T{t} leaves a critical section it does not hold")));
                    }
                    s2.sys = 0;
                    go(self, &mut auto, s2, 0, true, format!("T{t}: leaves the critical section"), true, false);
                } else {
                    if id != self.sys_id {
                        return Err(Fail::V("interrupt-state".into(), format!("T{t} writes interrupt state register {id}, which this privilege level does not have")));
                    }
                    let m = r.cmp as u64;
                    s2.sys = (st.sys & !m) | (r.val as u64 & m);
                    go(self, &mut auto, s2.clone(), st.sys as u128, true, format!("T{t}: interrupt state {:#x} -> {:#x}", st.sys, s2.sys), true, false);
                }
            }
        }
        Ok(true)
    }
    fn touches_obj(&self, r: &Req) -> bool {
        self.s.objs.iter().any(|o| r.addr < o.addr + (o.e.bits / 8) as u64 && o.addr < r.addr + r.size as u64)
    }
    fn race(&self, st: &St, t: usize, r: &Req) -> Result<(), Fail> {
        let plain = |r: &Req| r.ord == Ord_::Na && !r.asm && !r.volatile;
        for u in 0..self.n {
            if u == t || matches!(self.s.mode, Mode::Irq { .. }) && !st.stack.iter().any(|x| x.0 as usize == u) {
                continue;
            }
            let a = self.autos[u].clone();
            let a = a.borrow();
            let NSt::Req(q) = a.st(st.nodes[u]) else { continue };
            if !q.is_mem() || !(q.addr < r.addr + r.size as u64 && r.addr < q.addr + q.size as u64) {
                continue;
            }
            // a handler runs between two instructions of the code it interrupts: only
            // accesses of the interrupted code that are not indivisible matter
            if matches!(self.s.mode, Mode::Irq { .. }) && !plain(q) {
                continue;
            }
            let wr = |x: &Req| !matches!(x.k, K::Load | K::Ll);
            if (wr(r) || wr(q)) && (plain(r) || plain(q)) {
                return Err(Fail::V("race".into(), format!("data race: T{t} {:?} of {} bytes at {:#x} (plain: {}) against T{u} {:?} of {} bytes at {:#x} (plain: {})", r.k, r.size, r.addr, plain(r), q.k, q.size, q.addr, plain(q))));
            }
        }
        Ok(())
    }
    fn panic_check(&mut self, st: &St) -> Result<(), Fail> {
        for k in 0..self.s.objs.len() {
            let o = self.s.objs[k].clone();
            let b = self.rd_bytes(&st.mem, o.addr, o.e.bits / 8);
            let v = self.w.value(&b[..(o.e.bits / 8) as usize]);
            if v != o.init {
                return Err(Fail::V("panic".into(), format!("the rejected call changed the object to {v:#x}")));
            }
        }
        let touched = st.mem.iter().enumerate().any(|(i, v)| *v != self.winit[i]);
        if touched {
            return Err(Fail::V("panic".into(), "the rejected call changed memory (a lock, the object or a neighbour) before it panicked".into()));
        }
        if matches!(self.s.mode, Mode::Irq { .. }) && st.sys != st.at_call[0] || matches!(self.s.mode, Mode::Smp) && st.sys != 0 {
            return Err(Fail::V("panic".into(), "the rejected call leaves interrupts masked".into()));
        }
        Ok(())
    }
    fn invariant(&mut self, st: &St) -> Result<(), Fail> {
        for k in 0..self.s.objs.len() {
            if self.s.objs[k].e.t == T::Bool {
                let a = self.s.objs[k].addr;
                let b = self.rd_bytes(&st.mem, a, 1)[0];
                if b > 1 {
                    return Err(Fail::V("bool".into(), format!("atomic bool holds {b:#x}")));
                }
            }
        }
        Ok(())
    }
    fn is_final(&self, i: usize) -> bool {
        let st = &self.states[i];
        let irq = matches!(self.s.mode, Mode::Irq { .. });
        if irq {
            return self.done(st, 0) && st.stack.len() <= 1 && (self.s.tail.is_empty() || self.done(st, self.n - 1));
        }
        (0..self.n).all(|t| self.done(st, t))
    }
    /// From every reachable state all threads can finish.
    fn check_progress(&mut self) {
        let n = self.states.len();
        let mut ok = vec![false; n];
        let mut todo: Vec<u32> = (0..n as u32).filter(|i| self.is_final(*i as usize)).collect();
        for i in &todo {
            ok[*i as usize] = true;
        }
        while let Some(i) = todo.pop() {
            for p in self.preds[i as usize].clone() {
                if !ok[p as usize] {
                    ok[p as usize] = true;
                    todo.push(p);
                }
            }
        }
        if let Some(i) = ok.iter().position(|x| !x) {
            let trace = self.trace(i as u32);
            self.out.violation = Some(Violation { why: "progress".into(), msg: "from here the calls can never all return".into(), trace });
        }
    }
    /// A thread that runs alone finishes its current call.
    fn check_solo(&mut self) {
        for t in 0..self.n {
            let mut mark = vec![0u32; self.states.len()];
            let mut pass = 0;
            for s0 in 0..self.states.len() {
                pass += 1;
                let mut i = s0;
                let mut path = 0;
                loop {
                    if mark[i] == u32::MAX {
                        break;
                    }
                    if mark[i] == pass {
                        let trace = self.trace(s0 as u32);
                        self.out.violation = Some(Violation { why: "lock-free".into(), msg: format!("T{t} never completes its call although it runs alone from here"), trace });
                        return;
                    }
                    mark[i] = pass;
                    let (j, ret) = self.solo_next[i][t];
                    if j == u32::MAX || ret {
                        if j == u32::MAX && !self.done(&self.states[i], t) {
                            // not this thread's turn in the reduced graph, or blocked
                            let st = &self.states[i];
                            if st.forced == NONE && self.blocked(st, t) {
                                let trace = self.trace(i as u32);
                                self.out.violation = Some(Violation { why: "lock-free".into(), msg: format!("T{t} waits for another thread"), trace });
                                return;
                            }
                        }
                        break;
                    }
                    i = j as usize;
                    path += 1;
                    if path > 1_000_000 {
                        return;
                    }
                }
                // everything on this path is known to finish
                let mut i = s0;
                while mark[i] == pass {
                    mark[i] = u32::MAX;
                    let (j, ret) = self.solo_next[i][t];
                    if j == u32::MAX || ret {
                        break;
                    }
                    i = j as usize;
                }
            }
        }
    }
    /// No cycle in which every unfinished thread keeps moving (spurious failures aside).
    fn check_fair(&mut self) {
        let n = self.states.len();
        let (mut idx, mut low, mut on) = (vec![u32::MAX; n], vec![0u32; n], vec![false; n]);
        let (mut stack, mut call): (Vec<u32>, Vec<(u32, usize)>) = (vec![], vec![]);
        let mut comp = vec![u32::MAX; n];
        let (mut next, mut nc) = (0u32, 0u32);
        let mut sizes: Vec<Vec<u32>> = vec![];
        for r in 0..n {
            if idx[r] != u32::MAX {
                continue;
            }
            call.push((r as u32, 0));
            while let Some((v, k)) = call.pop() {
                let vi = v as usize;
                if k == 0 {
                    idx[vi] = next;
                    low[vi] = next;
                    next += 1;
                    stack.push(v);
                    on[vi] = true;
                }
                if k > 0 {
                    let w = self.succ[vi][k - 1].0 as usize;
                    low[vi] = low[vi].min(low[w]);
                }
                let mut k = k;
                let mut descended = false;
                while k < self.succ[vi].len() {
                    let w = self.succ[vi][k].0 as usize;
                    k += 1;
                    if idx[w] == u32::MAX {
                        call.push((v, k));
                        call.push((w as u32, 0));
                        descended = true;
                        break;
                    } else if on[w] {
                        low[vi] = low[vi].min(idx[w]);
                    }
                }
                if descended {
                    continue;
                }
                if low[vi] == idx[vi] {
                    let mut c = vec![];
                    loop {
                        let w = stack.pop().unwrap();
                        on[w as usize] = false;
                        comp[w as usize] = nc;
                        c.push(w);
                        if w == v {
                            break;
                        }
                    }
                    nc += 1;
                    sizes.push(c);
                }
            }
        }
        for (c, members) in sizes.iter().enumerate() {
            let mut moved = 0u64;
            for m in members {
                for (j, t) in &self.succ[*m as usize] {
                    if comp[*j as usize] == c as u32 {
                        moved |= 1 << t;
                    }
                }
            }
            if moved == 0 {
                continue;
            }
            let st = &self.states[members[0] as usize];
            let body = if self.s.tail.is_empty() { self.n } else { self.n - 1 };
            let live: Vec<usize> = if (0..body).all(|t| self.done(st, t)) { vec![self.n - 1] } else { (0..body).filter(|t| !self.done(st, *t)).collect() };
            if live.iter().all(|t| moved & (1 << t) != 0) {
                let trace = self.trace(members[members.len() - 1]);
                self.out.violation = Some(Violation { why: "livelock".into(), msg: "from here all unfinished calls can keep running for ever without any completing".into(), trace });
                return;
            }
        }
    }
    fn blocked(&self, st: &St, t: usize) -> bool {
        match self.autos[t].borrow().st(st.nodes[t]) {
            NSt::Req(r) => r.k == K::SysR(asm::SYS_CS) && st.sys != 0,
            _ => false,
        }
    }
}

/// A single thread run to its end, with everything it wrote.
#[derive(Clone, Debug, Default)]
pub struct SeqOut {
    pub res: Vec<(u32, u128, u128)>,
    pub mem: std::collections::BTreeMap<u64, u8>,
    pub sys_used: bool,
    pub steps: u64,
}
pub fn run_seq(w: &World, objs: &[Obj], init: &[(u64, Vec<u8>)], acts: &[Act]) -> Result<SeqOut, (Why, String)> {
    let auto = w.auto(0, &steps_of(acts, w, objs));
    let mut auto = auto.borrow_mut();
    let mut o = SeqOut::default();
    let p = &w.prog;
    let mut first: HashMap<u64, u8> = HashMap::new();
    for x in objs {
        for (i, b) in w.bytes(x.init, x.e.bits / 8).iter().enumerate() {
            first.insert(x.addr + i as u64, *b);
        }
    }
    for (a, b) in init {
        for (i, c) in b.iter().enumerate() {
            first.insert(a + i as u64, *c);
        }
    }
    let rd = |mem: &std::collections::BTreeMap<u64, u8>, a: u64, n: u32| -> u128 {
        let b: Vec<u8> = (a..a + n as u64)
            .map(|x| mem.get(&x).or(first.get(&x)).copied().unwrap_or_else(|| if x >= p.gbase && x < p.gend { p.image.get((x - p.gbase) as usize).copied().unwrap_or(0) } else { 0x5A }))
            .collect();
        w.value(&b)
    };
    let wr = |mem: &mut std::collections::BTreeMap<u64, u8>, a: u64, n: u32, v: u128| {
        for (i, b) in w.bytes(v, n).iter().enumerate() {
            mem.insert(a + i as u64, *b);
        }
    };
    let mut n = 0u32;
    let mut sys = 0u64;
    let mut resv = false;
    loop {
        o.steps += 1;
        if o.steps > 2_000_000 {
            return Err((Why::Unsupported, "does not finish".into()));
        }
        let r = match auto.st(n) {
            NSt::Done => return Ok(o),
            NSt::Bad(w, m) => return Err((*w, m.clone())),
            NSt::Req(r) => r.clone(),
        };
        let (mut v, mut ok) = (0u128, true);
        match r.k {
            K::Call(_) | K::Choice(_) | K::Pause | K::Fence => {}
            K::Ret(_) => o.res.push((r.addr as u32, r.val, r.cmp)),
            K::Load => v = rd(&o.mem, r.addr, r.size),
            K::Ll => {
                v = rd(&o.mem, r.addr, r.size);
                resv = true;
            }
            K::Store => wr(&mut o.mem, r.addr, r.size, r.val),
            K::Rmw(_) | K::Cas { .. } => {
                v = rd(&o.mem, r.addr, r.size);
                match apply_rmw(&r, v) {
                    Ok((new, k)) => {
                        ok = k;
                        if let Some(x) = new {
                            wr(&mut o.mem, r.addr, r.size, x);
                        }
                    }
                    Err(Stop::Bad(w, m)) => return Err((w, m)),
                    Err(_) => return Err((Why::Unsupported, "rmw".into())),
                }
            }
            K::Sc => {
                ok = resv;
                resv = false;
                if ok {
                    wr(&mut o.mem, r.addr, r.size, r.val);
                }
            }
            K::SysR(_) => {
                o.sys_used = true;
                v = sys as u128;
            }
            K::SysW(_) => {
                o.sys_used = true;
                v = sys as u128;
                sys = (sys & !(r.cmp as u64)) | (r.val as u64 & r.cmp as u64);
            }
        }
        n = auto.next(n, v, ok);
    }
}
