//! Operational machine for the language's memory model (views and per-location message histories), explored
//! exhaustively. It runs code whose own state matters (global locks), which the axiomatic enumerator cannot.
//!
//! Every behaviour of this machine is a behaviour of RC11: messages of a location are kept in modification order, a
//! write may be placed anywhere its thread's view permits, a read may return any message its view permits, a
//! read-modify-write sits right after the message it read, seq-cst fences exchange views through one global view.
//! Sequentially consistent *accesses* are run as accesses with seq-cst fences, once with the leading and once with
//! the trailing mapping; both mappings are correct implementations of the language, so what they do is allowed.
use crate::asm;
use crate::auto::*;
use crate::interp::*;
use crate::ir::*;
use crate::sc::*;
use crate::spec::*;
use crate::weak;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

type View = Vec<u8>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Msg {
    val: u128,
    /// written by a read-modify-write that read the message before
    glued: bool,
    view: View,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Th {
    node: u32,
    cur: View,
    acq: View,
    rel: View,
    /// results so far (interned)
    res: u32,
    /// parts of the present access already done (fences of seq-cst accesses)
    sub: u8,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct St {
    th: Vec<Th>,
    cells: Vec<Vec<Msg>>,
    sc: View,
    /// holder + 1 of the external critical section, and what it publishes
    cs: u8,
    csv: View,
    /// thread + 1 that has read something and goes on alone up to its next write or fence: reads move after whatever
    /// others do, as what could be read stays readable
    forced: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Map {
    Leading,
    Trailing,
}

fn get(v: &View, l: usize) -> u8 {
    v.get(l).copied().unwrap_or(0)
}
fn set(v: &mut View, l: usize, x: u8) {
    if v.len() <= l {
        if x == 0 {
            return;
        }
        v.resize(l + 1, 0);
    }
    if v[l] < x {
        v[l] = x;
    }
}
fn join(a: &mut View, b: &View) {
    for (i, x) in b.iter().enumerate() {
        if *x > 0 {
            set(a, i, *x);
        }
    }
}
/// a message was inserted at index `at` of location `l`
fn shift(v: &mut View, l: usize, at: u8) {
    if let Some(x) = v.get_mut(l) {
        if *x >= at {
            *x += 1;
        }
    }
}
fn acq(o: Ord_) -> bool {
    matches!(o, Ord_::Acq | Ord_::AcqRel | Ord_::Sc)
}
fn rel(o: Ord_) -> bool {
    matches!(o, Ord_::Rel | Ord_::AcqRel | Ord_::Sc)
}

enum Fail {
    V(String, String),
    Inc(String),
    /// start again: the access is to a cell of this extent / to a cell that is written after all
    Again,
}

/// What earlier rounds learnt about the layout of memory.
#[derive(Default, Clone)]
struct Hints {
    /// extents of atomic accesses
    atomic: BTreeMap<u64, u32>,
    written: BTreeSet<u64>,
}

struct Ex<'a> {
    w: &'a World,
    s: &'a Scen,
    autos: Vec<Rc<RefCell<Auto>>>,
    init: &'a HashMap<u64, u8>,
    hints: Hints,
    map: Map,
    /// locations: cells first come first served, then pseudo locations counting plain reads
    locs: HashMap<(u64, u8), usize>,
    addr: Vec<(u64, u32)>,
    res: Vec<Vec<Res>>,
    resi: HashMap<Vec<Res>, u32>,
    saw_sc: bool,
    transitions: u64,
}

struct Step1 {
    st: St,
    t: u8,
    node: u32,
    what: u8,
    val: u128,
}

pub fn explore_c11(w: &World, s: &Scen) -> Outcome {
    let mut out = Outcome::default();
    let mut stats = weak::Stats::default();
    let ok = match weak::allowed(s, &mut stats) {
        Ok(d) => d,
        Err(e) => {
            out.inconclusive = Some(e);
            return out;
        }
    };
    let cold = w.cold();
    // what is cached for ever (detected features, the locks' stamps) starts warm
    let mut init: HashMap<u64, u8> = HashMap::new();
    for a in s.threads.iter().flatten() {
        let Act::Op(_) = a else { continue };
        match run_seq(&cold, &s.objs, &s.init, std::slice::from_ref(a)) {
            Ok(o) => {
                for (a, b) in o.mem {
                    if a >= w.prog.gbase && a < w.prog.gend {
                        init.insert(a, b);
                    }
                }
            }
            Err((_, m)) => {
                out.inconclusive = Some(format!("warming up: {m}"));
                return out;
            }
        }
    }
    for o in &s.objs {
        for (i, b) in w.bytes(o.init, o.e.bits / 8).iter().enumerate() {
            init.insert(o.addr + i as u64, *b);
        }
    }
    for (a, b) in &s.init {
        for (i, c) in b.iter().enumerate() {
            init.insert(a + i as u64, *c);
        }
    }
    let mut hints = Hints::default();
    let mut seen_outs: BTreeSet<(Vec<Vec<Res>>, Vec<u128>)> = BTreeSet::new();
    let mut maps = vec![Map::Leading];
    let mut i = 0;
    while i < maps.len() {
        let map = maps[i];
        let mut rounds = 0;
        loop {
            rounds += 1;
            if rounds > 60 {
                out.inconclusive = Some("memory layout does not settle".into());
                return out;
            }
            let autos = s.threads.iter().enumerate().map(|(t, a)| cold.auto(t as u32, &steps_of(a, &cold, &s.objs))).collect();
            let mut ex = Ex { w: &cold, s, autos, init: &init, hints: hints.clone(), map, locs: HashMap::new(), addr: vec![], res: vec![vec![]], resi: HashMap::from([(vec![], 0)]), saw_sc: false, transitions: 0 };
            let r = ex.run(&ok, &mut seen_outs, &mut out);
            hints = ex.hints;
            out.transitions += ex.transitions;
            match r {
                Ok(()) => {
                    if ex.saw_sc && map == Map::Leading {
                        maps.push(Map::Trailing);
                    }
                    break;
                }
                Err(Fail::Again) => continue,
                Err(Fail::Inc(m)) => {
                    out.inconclusive = Some(m);
                    return out;
                }
                Err(Fail::V(..)) => return out,
            }
        }
        i += 1;
    }
    out.final_states = seen_outs.len() as u64;
    if seen_outs.is_empty() {
        out.inconclusive = Some("no complete execution".into());
    }
    out
}

fn fp(s: &St) -> u128 {
    #[allow(deprecated)]
    let mut a = std::hash::SipHasher::new_with_keys(1, 2);
    #[allow(deprecated)]
    let mut b = std::hash::SipHasher::new_with_keys(3, 4);
    s.hash(&mut a);
    s.hash(&mut b);
    (a.finish() as u128) << 64 | b.finish() as u128
}

impl<'a> Ex<'a> {
    fn init_val(&self, a: u64, n: u32) -> u128 {
        let p = &self.w.prog;
        let b: Vec<u8> = (a..a + n as u64).map(|x| self.init.get(&x).copied().unwrap_or_else(|| if x >= p.gbase && x < p.gend { p.image.get((x - p.gbase) as usize).copied().unwrap_or(0) } else { 0x5A })).collect();
        self.w.value(&b)
    }
    /// the location of an atomic access
    fn loc(&mut self, st: &mut St, a: u64, n: u32) -> Result<usize, Fail> {
        if self.hints.atomic.get(&a) != Some(&n) {
            // overlaps another extent?
            for (x, m) in self.hints.atomic.range(a.saturating_sub(16)..a + n as u64) {
                if x + *m as u64 > a {
                    return Err(Fail::Inc(format!("atomic accesses of different extents at {a:#x}")));
                }
            }
            self.hints.atomic.insert(a, n);
            if !self.locs.is_empty() {
                return Err(Fail::Again);
            }
        }
        Ok(self.cell(st, a, n))
    }
    fn cell(&mut self, st: &mut St, a: u64, n: u32) -> usize {
        if let Some(l) = self.locs.get(&(a, 255)) {
            let l = *l;
            self.grow(st);
            return l;
        }
        let l = self.addr.len();
        self.addr.push((a, n));
        self.locs.insert((a, 255), l);
        self.grow(st);
        l
    }
    fn grow(&self, st: &mut St) {
        while st.cells.len() < self.addr.len() {
            let (a, n) = self.addr[st.cells.len()];
            // pseudo locations have no messages of their own
            let msgs = if n == 0 { vec![] } else { vec![Msg { val: self.init_val(a, n), glued: false, view: vec![] }] };
            st.cells.push(msgs);
        }
    }
    /// counts plain reads of the cell by thread t
    fn pseudo(&mut self, st: &mut St, a: u64, t: usize) -> usize {
        if let Some(l) = self.locs.get(&(a, t as u8)) {
            let l = *l;
            self.grow(st);
            return l;
        }
        let l = self.addr.len();
        self.addr.push((a, 0));
        self.locs.insert((a, t as u8), l);
        self.grow(st);
        l
    }
    /// the cells a plain access covers, with offset into the access, extent
    fn pieces(&self, a: u64, n: u32) -> Result<Vec<(u64, u32)>, Fail> {
        let mut v = vec![];
        let mut x = a;
        let end = a + n as u64;
        while x < end {
            if let Some((c, m)) = self.hints.atomic.range(..=x).next_back() {
                if c + *m as u64 > x {
                    v.push((*c, *m));
                    x = c + *m as u64;
                    continue;
                }
            }
            // aligned words, or bytes next to known extents
            let next = self.hints.atomic.range(x..).next().map(|(c, _)| *c).unwrap_or(u64::MAX);
            let m = if x % 4 == 0 && next >= x + 4 { 4 } else { 1 };
            v.push((x, m));
            x += m as u64;
        }
        Ok(v)
    }
    /// a plain write or a write of an atomic: nobody's plain read may be unordered with it
    fn check_reads(&mut self, st: &mut St, t: usize, a: u64) -> Result<(), Fail> {
        for u in 0..self.s.threads.len() {
            if u != t {
                if let Some(l) = self.locs.get(&(a, u as u8)).copied() {
                    self.grow(st);
                    let n = st.cells[l].len() as u8;
                    if get(&st.th[t].cur, l) < n {
                        return Err(Fail::V("race".into(), format!("T{t} writes {a:#x}, which T{u} reads with a plain access, and neither happens before the other")));
                    }
                }
            }
        }
        Ok(())
    }
    fn insert(&mut self, st: &mut St, l: usize, at: usize, m: Msg) {
        let p = at as u8;
        if at < st.cells[l].len() {
            for c in &mut st.cells {
                for x in c.iter_mut() {
                    shift(&mut x.view, l, p);
                }
            }
            for h in &mut st.th {
                shift(&mut h.cur, l, p);
                shift(&mut h.acq, l, p);
                shift(&mut h.rel, l, p);
            }
            shift(&mut st.sc, l, p);
            shift(&mut st.csv, l, p);
        }
        st.cells[l].insert(at, m);
    }
    fn fence(&self, st: &mut St, t: usize, o: Ord_) {
        if acq(o) {
            let a = st.th[t].acq.clone();
            join(&mut st.th[t].cur, &a);
        }
        if o == Ord_::Sc {
            let c = st.th[t].cur.clone();
            join(&mut st.sc, &c);
            let g = st.sc.clone();
            join(&mut st.th[t].cur, &g);
            join(&mut st.th[t].acq, &g);
        }
        if rel(o) {
            st.th[t].rel = st.th[t].cur.clone();
        }
    }
    fn order(r: &Req, o: Ord_) -> Ord_ {
        if r.asm {
            // x86: loads acquire, stores release, locked instructions are full barriers
            match r.k {
                K::Load => Ord_::Acq,
                K::Store => Ord_::Rel,
                _ => Ord_::Sc,
            }
        } else {
            o
        }
    }
    fn write(&mut self, st: &St, t: usize, l: usize, a: u64, val: u128, o: Ord_, out: &mut Vec<St>, base: Option<(usize, View)>) -> Result<(), Fail> {
        let mut st = st.clone();
        self.check_reads(&mut st, t, a)?;
        if !self.hints.written.contains(&a) {
            self.hints.written.insert(a);
            return Err(Fail::Again);
        }
        if st.cells[l].len() > 200 {
            return Err(Fail::Inc("too many writes to one location".into()));
        }
        let from = match &base {
            Some((i, _)) => *i..*i + 1,
            None => get(&st.th[t].cur, l) as usize..st.cells[l].len(),
        };
        for i in from {
            let at = i + 1;
            if st.cells[l].get(at).map(|m| m.glued).unwrap_or(false) {
                continue;
            }
            let mut s2 = st.clone();
            self.insert(&mut s2, l, at, Msg { val, glued: base.is_some(), view: vec![] });
            let p = at as u8;
            set(&mut s2.th[t].cur, l, p);
            set(&mut s2.th[t].acq, l, p);
            let mut v = if rel(o) { s2.th[t].cur.clone() } else { s2.th[t].rel.clone() };
            set(&mut v, l, p);
            if let Some((_, b)) = &base {
                // (views of messages at or before `i` are not shifted by the insertion at i + 1 for this location,
                // and no other location changed)
                join(&mut v, b);
            }
            s2.cells[l][at].view = v;
            out.push(s2);
        }
        Ok(())
    }
    /// what thread t may read at l: (index, value)
    fn readable(&self, st: &St, t: usize, l: usize) -> std::ops::Range<usize> {
        get(&st.th[t].cur, l) as usize..st.cells[l].len()
    }
    fn observe(&self, st: &mut St, t: usize, l: usize, i: usize, o: Ord_) {
        let v = st.cells[l][i].view.clone();
        set(&mut st.th[t].cur, l, i as u8);
        set(&mut st.th[t].acq, l, i as u8);
        if acq(o) {
            join(&mut st.th[t].cur, &v);
        }
        join(&mut st.th[t].acq, &v);
    }
    fn local(&self, st: &St, t: usize) -> bool {
        let a = self.autos[t].borrow();
        if st.th[t].sub == 2 {
            return false;
        }
        match a.st(st.th[t].node) {
            NSt::Done => false,
            NSt::Bad(..) => true,
            NSt::Req(r) => match r.k {
                K::Choice(_) | K::Pause | K::Call(_) | K::Ret(_) => true,
                K::Fence => r.single || !(r.ord == Ord_::Sc || r.asm),
                // a write moves before whatever others do: it can take any place in the modification order, and
                // they can still read what came before
                K::Store => !(r.ord == Ord_::Sc && !r.asm) || st.th[t].sub == 1 || self.map == Map::Trailing,
                K::Load => r.ord == Ord_::Na && !r.asm || !(r.addr..r.addr + r.size as u64).any(|x| self.hints.written.range(x.saturating_sub(15)..=x).any(|c| c + *self.hints.atomic.get(c).unwrap_or(&4) as u64 > x)),
                _ => false,
            },
        }
    }
    fn label(&self, t: u8, node: u32, what: u8, val: u128) -> String {
        let a = self.autos[t as usize].borrow();
        match a.st(node) {
            NSt::Req(r) => match r.k {
                K::Call(ix) => match self.s.threads[t as usize].get(ix as usize) {
                    Some(Act::Op(o)) => format!("T{t}: call {} object {} a={:#x} b={:#x} {}/{}", o.e.name, o.obj, o.a, o.b, ord_name(o.o1), ord_name(o.o2)),
                    _ => String::new(),
                },
                K::Ret(_) => format!("T{t}: return"),
                K::Fence => format!("T{t}: fence {:?}", r.ord),
                K::Load => format!("T{t}: load{} {:#x} {:?} -> {val:#x}{}", r.size * 8, r.addr, r.ord, if what > 0 { " (not the newest)" } else { "" }),
                K::Store => format!("T{t}: store{} {:#x} {:?} <- {:#x}{}", r.size * 8, r.addr, r.ord, r.val, if what > 0 { " (not the newest)" } else { "" }),
                K::Rmw(_) | K::Cas { .. } => format!("T{t}: {:?} {:#x} {:?} old {val:#x} operand {:#x} cmp {:#x}", r.k, r.addr, r.ord, r.val, r.cmp),
                _ => String::new(),
            },
            _ => String::new(),
        }
    }
    fn run(&mut self, ok: &weak::Outs, seen: &mut BTreeSet<(Vec<Vec<Res>>, Vec<u128>)>, out: &mut Outcome) -> Result<(), Fail> {
        let n = self.s.threads.len();
        let th = Th { node: 0, cur: vec![], acq: vec![], rel: vec![], res: 0, sub: 0 };
        let st0 = St { th: vec![th; n], cells: vec![], sc: vec![], cs: 0, csv: vec![], forced: 0 };
        let mut visited: HashSet<u128> = HashSet::new();
        visited.insert(fp(&st0));
        // frames: successors still to visit, and how they were reached
        struct Frame {
            todo: Vec<Step1>,
            cur: (u8, u32, u8, u128),
        }
        let mut stack: Vec<Frame> = vec![];
        let mut next: Option<St> = Some(st0);
        let r = loop {
            if let Some(mut st) = next.take() {
                if late() {
                    break Err(Fail::Inc(TIME.into()));
                }
                if visited.len() > self.s.max_states {
                    break Err(Fail::Inc(format!("more than {} states", self.s.max_states)));
                }
                let movers: Vec<usize> = match (0..n).find(|t| self.local(&st, *t)) {
                    Some(t) => vec![t],
                    None if st.forced > 0 => vec![st.forced as usize - 1],
                    None => (0..n).collect(),
                };
                let mut todo = vec![];
                let mut fail = None;
                let mut done = true;
                for t in movers {
                    let node = st.th[t].node;
                    if matches!(self.autos[t].borrow().st(node), NSt::Done) && st.th[t].sub == 0 {
                        continue;
                    }
                    done = false;
                    let mut v = vec![];
                    let loc = self.local(&st, t);
                    let was_store = st.forced == t as u8 + 1 && matches!(self.autos[t].borrow().st(node), NSt::Req(r) if r.k == K::Store);
                    if let Err(f) = self.step(&mut st, t, &mut v) {
                        fail = Some((f, t));
                        break;
                    }
                    let load = matches!(self.autos[t].borrow().st(node), NSt::Req(r) if r.k == K::Load) && st.th[t].sub != 2;
                    for (mut s2, what, val) in v {
                        // (a step of a seq-cst read may be its fence)
                        let fence = st.th[t].sub != s2.th[t].sub && s2.th[t].node == node;
                        if matches!(self.autos[t].borrow().st(s2.th[t].node), NSt::Done) && s2.th[t].sub != 2 {
                            s2.forced = 0;
                        } else if load && !fence && !loc {
                            s2.forced = t as u8 + 1;
                        } else if !loc || was_store {
                            s2.forced = 0;
                        }
                        self.tidy(&mut s2);
                        todo.push(Step1 { st: s2, t: t as u8, node, what, val });
                    }
                }
                if done {
                    let res: Vec<Vec<Res>> = st.th.iter().map(|h| self.res[h.res as usize].clone()).collect();
                    let fin: Vec<u128> = self.s.objs.iter().map(|o| self.newest(&st, o.addr, o.e.bits / 8)).collect();
                    let k = (res, fin);
                    if !ok.contains(&k) || std::env::var("PAMC_TR").is_ok() {
                        fail = Some((Fail::V("memory-order".into(), format!("outcome [{}] is not allowed by the language memory model", weak::show(&k))), 0));
                    }
                    seen.insert(k);
                }
                if let Some((f, t)) = fail {
                    if let Fail::V(w, m) = &f {
                        let mut trace: Vec<String> = stack.iter().map(|f| f.cur).map(|(t, node, what, val)| self.label(t, node, what, val)).filter(|x| !x.is_empty()).collect();
                        if !done {
                            trace.push(self.label(t as u8, st.th[t].node, 0, 0));
                        }
                        out.violation = Some(Violation { why: w.clone(), msg: m.clone(), trace });
                    }
                    break Err(f);
                }
                self.transitions += todo.len() as u64;
                todo.reverse();
                stack.push(Frame { todo, cur: (0, 0, 0, 0) });
            }
            // take the next unvisited successor
            let Some(f) = stack.last_mut() else { break Ok(()) };
            match f.todo.pop() {
                None => {
                    stack.pop();
                }
                Some(s1) => {
                    if visited.insert(fp(&s1.st)) {
                        f.cur = (s1.t, s1.node, s1.what, s1.val);
                        next = Some(s1.st);
                    }
                }
            }
        };
        out.states += visited.len() as u64;
        r
    }
    /// Forget what can no longer matter: views of finished threads, messages nobody can read any more.
    fn tidy(&self, st: &mut St) {
        let mut live = vec![];
        for t in 0..st.th.len() {
            if matches!(self.autos[t].borrow().st(st.th[t].node), NSt::Done) && st.th[t].sub != 2 {
                let h = &mut st.th[t];
                (h.cur, h.acq, h.rel) = (vec![], vec![], vec![]);
            } else {
                live.push(t);
            }
        }
        for l in 0..st.cells.len() {
            let pseudo = self.addr[l].1 == 0;
            let top = if pseudo { st.cells[l].len() } else { st.cells[l].len() - 1 };
            let k = live.iter().map(|t| get(&st.th[*t].cur, l) as usize).min().unwrap_or(top).min(top);
            if k > 0 {
                st.cells[l].drain(..k);
                let cut = |v: &mut View| {
                    if let Some(x) = v.get_mut(l) {
                        *x = x.saturating_sub(k as u8);
                    }
                };
                st.cells.iter_mut().flatten().for_each(|m| cut(&mut m.view));
                for h in &mut st.th {
                    cut(&mut h.cur);
                    cut(&mut h.acq);
                    cut(&mut h.rel);
                }
                cut(&mut st.sc);
                cut(&mut st.csv);
            }
            if let Some(m) = st.cells[l].first_mut() {
                m.glued = false;
            }
        }
        let trim = |v: &mut View| {
            while v.last() == Some(&0) {
                v.pop();
            }
        };
        st.cells.iter_mut().flatten().for_each(|m| trim(&mut m.view));
        for h in &mut st.th {
            trim(&mut h.cur);
            trim(&mut h.acq);
            trim(&mut h.rel);
        }
        if live.is_empty() {
            (st.sc, st.csv) = (vec![], vec![]);
        }
        trim(&mut st.sc);
        trim(&mut st.csv);
    }
    fn newest(&self, st: &St, a: u64, n: u32) -> u128 {
        let mut b: Vec<u8> = self.w.bytes(self.init_val(a, n), n);
        for ((c, k), l) in &self.locs {
            if *k == 255 && *c < a + n as u64 && c + self.addr[*l].1 as u64 > a {
                if let Some(m) = st.cells.get(*l).and_then(|m| m.last()) {
                    for (i, x) in self.w.bytes(m.val, self.addr[*l].1).iter().enumerate() {
                        let at = c + i as u64;
                        if at >= a && at < a + n as u64 {
                            b[(at - a) as usize] = *x;
                        }
                    }
                }
            }
        }
        self.w.value(&b)
    }
    fn step(&mut self, st: &mut St, t: usize, out: &mut Vec<(St, u8, u128)>) -> Result<(), Fail> {
        let auto = self.autos[t].clone();
        let mut auto = auto.borrow_mut();
        let node = st.th[t].node;
        if st.th[t].sub == 2 {
            let mut s2 = st.clone();
            self.fence(&mut s2, t, Ord_::Sc);
            s2.th[t].sub = 0;
            out.push((s2, 0, 0));
            return Ok(());
        }
        let r = match auto.st(node) {
            NSt::Done => return Ok(()),
            NSt::Bad(Why::Unsupported, m) => return Err(Fail::Inc(format!("T{t}: {m}"))),
            NSt::Bad(w, m) => return Err(Fail::V(format!("{w:?}").to_lowercase(), format!("T{t}: {m}"))),
            NSt::Req(r) => r.clone(),
        };
        if r.asm && r.is_mem() && !matches!(self.w.arch, asm::Arch::X86 | asm::Arch::X64 | asm::Arch::S390x) {
            return Err(Fail::Inc("assembly accesses of this architecture".into()));
        }
        let sc_acc = r.is_mem() && Self::order(&r, r.ord) == Ord_::Sc;
        // (a locked instruction is a barrier on both sides)
        let both = r.asm && !matches!(r.k, K::Load | K::Store);
        let trailing = sc_acc && (self.map == Map::Trailing || both);
        let go = |auto: &mut Auto, mut s2: St, v: u128, ok: bool| {
            s2.th[t].node = auto.next(node, v, ok);
            s2.th[t].sub = if trailing { 2 } else { 0 };
            s2
        };
        // seq-cst accesses are accesses and fences
        if sc_acc {
            self.saw_sc = true;
            let sub = st.th[t].sub;
            // leading: fence; access. trailing: access; fence.
            if sub == 0 && (self.map == Map::Leading || both) {
                let mut s2 = st.clone();
                self.fence(&mut s2, t, Ord_::Sc);
                s2.th[t].sub = 1;
                out.push((s2, 0, 0));
                return Ok(());
            }
        }
        match r.k {
            K::Choice(n) => {
                for c in 0..n {
                    out.push((go(&mut auto, st.clone(), c as u128, true), 0, 0));
                }
            }
            K::Pause | K::Call(_) => out.push((go(&mut auto, st.clone(), 0, true), 0, 0)),
            K::Ret(ix) => {
                let mut s2 = st.clone();
                if let Act::Op(o) = &self.s.threads[t][ix as usize] {
                    let x = observed(&o.e, r.addr as u32, r.val, r.cmp);
                    let mut v = self.res[st.th[t].res as usize].clone();
                    v.push(x);
                    let k = match self.resi.get(&v) {
                        Some(k) => *k,
                        None => {
                            let k = self.res.len() as u32;
                            self.res.push(v.clone());
                            self.resi.insert(v, k);
                            k
                        }
                    };
                    s2.th[t].res = k;
                }
                out.push((go(&mut auto, s2, 0, true), 0, 0));
            }
            K::Fence => {
                let mut s2 = st.clone();
                if !r.single {
                    let o = if r.asm {
                        if r.hw == asm::FK_FULL { Ord_::Sc } else { Ord_::AcqRel }
                    } else {
                        r.ord
                    };
                    self.fence(&mut s2, t, o);
                }
                out.push((go(&mut auto, s2, 0, true), 0, 0));
            }
            K::Load if r.ord == Ord_::Na && !r.asm => {
                let mut s2 = st.clone();
                let mut b = vec![0u8; r.size as usize];
                for (a, n) in self.pieces(r.addr, r.size)? {
                    let l = self.cell(&mut s2, a, n);
                    let i = s2.cells[l].len() - 1;
                    if (get(&s2.th[t].cur, l) as usize) < i {
                        return Err(Fail::V("race".into(), format!("T{t} reads {:#x} with a plain access while a write to it is not ordered before", r.addr)));
                    }
                    for (k, x) in self.w.bytes(s2.cells[l][i].val, n).iter().enumerate() {
                        let at = a + k as u64;
                        if at >= r.addr && at < r.addr + r.size as u64 {
                            b[(at - r.addr) as usize] = *x;
                        }
                    }
                    if self.hints.written.contains(&a) {
                        let p = self.pseudo(&mut s2, a, t);
                        s2.cells[p].push(Msg { val: 0, glued: false, view: vec![] });
                        let c = s2.cells[p].len() as u8;
                        set(&mut s2.th[t].cur, p, c);
                        set(&mut s2.th[t].acq, p, c);
                    }
                }
                let v = self.w.value(&b);
                out.push((go(&mut auto, s2, v, true), 0, v));
            }
            K::Store if r.ord == Ord_::Na && !r.asm => {
                let b = self.w.bytes(r.val, r.size);
                let mut cur = vec![st.clone()];
                for (a, n) in self.pieces(r.addr, r.size)? {
                    let mut nx = vec![];
                    for mut c in cur {
                        let l = self.cell(&mut c, a, n);
                        let i = c.cells[l].len() - 1;
                        if (get(&c.th[t].cur, l) as usize) < i {
                            return Err(Fail::V("race".into(), format!("T{t} writes {:#x} with a plain access while another write to it is not ordered before", r.addr)));
                        }
                        let mut old = self.w.bytes(c.cells[l][i].val, n);
                        for (k, x) in old.iter_mut().enumerate() {
                            let at = a + k as u64;
                            if at >= r.addr && at < r.addr + r.size as u64 {
                                *x = b[(at - r.addr) as usize];
                            }
                        }
                        let val = self.w.value(&old);
                        self.write(&c, t, l, a, val, Ord_::Na, &mut nx, None)?;
                    }
                    cur = nx;
                }
                for s2 in cur {
                    out.push((go(&mut auto, s2, 0, true), 0, 0));
                }
            }
            K::Load => {
                let o = Self::order(&r, r.ord);
                let l = self.loc(st, r.addr, r.size)?;
                for i in self.readable(st, t, l) {
                    let mut s2 = st.clone();
                    self.observe(&mut s2, t, l, i, o);
                    let v = st.cells[l][i].val;
                    out.push((go(&mut auto, s2, v, true), (i + 1 < st.cells[l].len()) as u8, v));
                }
            }
            K::Store => {
                let o = Self::order(&r, r.ord);
                let l = self.loc(st, r.addr, r.size)?;
                let mut v = vec![];
                self.write(st, t, l, r.addr, r.val, o, &mut v, None)?;
                for s2 in v {
                    let newest = get(&s2.th[t].cur, l) as usize + 1 == s2.cells[l].len();
                    out.push((go(&mut auto, s2, 0, true), !newest as u8, 0));
                }
            }
            K::Rmw(_) | K::Cas { .. } => {
                let l = self.loc(st, r.addr, r.size)?;
                for i in self.readable(st, t, l) {
                    let old = st.cells[l][i].val;
                    let (new, ok) = match apply_rmw(&r, old) {
                        Ok(x) => x,
                        Err(Stop::Bad(_, m)) => return Err(Fail::Inc(m)),
                        Err(_) => return Err(Fail::Inc("rmw".into())),
                    };
                    match new {
                        None => {
                            let mut s2 = st.clone();
                            self.observe(&mut s2, t, l, i, Self::order(&r, r.ford));
                            out.push((go(&mut auto, s2, old, ok), 0, old));
                        }
                        Some(nv) => {
                            if matches!(r.k, K::Cas { weak: true }) && self.s.spurious {
                                let mut s2 = st.clone();
                                self.observe(&mut s2, t, l, i, Self::order(&r, r.ford));
                                out.push((go(&mut auto, s2, old, false), 0, old));
                            }
                            if st.cells[l].get(i + 1).map(|m| m.glued).unwrap_or(false) {
                                continue;
                            }
                            let o = Self::order(&r, r.ord);
                            let mut s2 = st.clone();
                            let b = s2.cells[l][i].view.clone();
                            self.observe(&mut s2, t, l, i, o);
                            let mut v = vec![];
                            self.write(&s2, t, l, r.addr, nv, o, &mut v, Some((i, b)))?;
                            for s3 in v {
                                out.push((go(&mut auto, s3, old, ok), 0, old));
                            }
                        }
                    }
                }
            }
            K::SysR(asm::SYS_CS) => {
                if st.cs == 0 {
                    let mut s2 = st.clone();
                    s2.cs = t as u8 + 1;
                    let v = s2.csv.clone();
                    join(&mut s2.th[t].cur, &v);
                    join(&mut s2.th[t].acq, &v);
                    out.push((go(&mut auto, s2, 1, true), 0, 0));
                }
            }
            K::SysW(asm::SYS_CS) => {
                if st.cs != t as u8 + 1 {
                    return Err(Fail::V("interrupt-state".into(), format!("T{t} leaves a critical section it does not hold")));
                }
                let mut s2 = st.clone();
                s2.cs = 0;
                s2.csv = s2.th[t].cur.clone();
                out.push((go(&mut auto, s2, 0, true), 0, 0));
            }
            _ => return Err(Fail::Inc(format!("{:?} on several cores", r.k))),
        }
        Ok(())
    }
}
