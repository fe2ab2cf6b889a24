//! On-the-fly linearizability monitor: the set of all ways in which the calls so far can have taken effect.
use crate::spec::*;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum P {
    Idle,
    /// called, not yet in effect
    Open(u16),
    /// in effect, with this result
    Done(u16, Res),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Conf {
    pub objs: Vec<u128>,
    pub p: Vec<P>,
}
#[derive(Clone, Debug)]
pub struct OpInfo {
    pub e: Entry,
    pub obj: usize,
    pub a: u128,
    pub b: u128,
    pub o1: u32,
    pub o2: u32,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Call(u8, u16),
    Ret(u8, Res),
}
pub struct Lin {
    pub ops: Vec<Vec<Option<OpInfo>>>,
    pub sets: Vec<BTreeSet<Conf>>,
    index: HashMap<BTreeSet<Conf>, u32>,
    memo: HashMap<(u32, Ev), Option<u32>>,
    closed: HashMap<u32, BTreeSet<Conf>>,
    pub err: Option<String>,
}
impl Lin {
    pub fn new(ops: Vec<Vec<Option<OpInfo>>>, init: Vec<u128>) -> Lin {
        let n = ops.len();
        let mut l = Lin { ops, sets: vec![], index: HashMap::new(), memo: HashMap::new(), closed: HashMap::new(), err: None };
        let mut s = BTreeSet::new();
        s.insert(Conf { objs: init, p: vec![P::Idle; n] });
        l.intern(s);
        l
    }
    fn intern(&mut self, s: BTreeSet<Conf>) -> u32 {
        if let Some(i) = self.index.get(&s) {
            return *i;
        }
        let i = self.sets.len() as u32;
        self.index.insert(s.clone(), i);
        self.sets.push(s);
        i
    }
    pub fn closure(&mut self, m: u32) -> BTreeSet<Conf> {
        if let Some(c) = self.closed.get(&m) {
            return c.clone();
        }
        let mut out = self.sets[m as usize].clone();
        let mut todo: Vec<Conf> = out.iter().cloned().collect();
        while let Some(c) = todo.pop() {
            for t in 0..c.p.len() {
                if let P::Open(ix) = c.p[t] {
                    let o = self.ops[t][ix as usize].as_ref().unwrap();
                    match spec(&o.e, c.objs[o.obj], o.a, o.b) {
                        Ok(v) => {
                            for (n, r) in v {
                                let mut d = c.clone();
                                d.objs[o.obj] = n;
                                d.p[t] = P::Done(ix, r);
                                if out.insert(d.clone()) {
                                    todo.push(d);
                                }
                            }
                        }
                        Err(e) => self.err = Some(e),
                    }
                }
            }
        }
        self.closed.insert(m, out.clone());
        out
    }
    /// None: no way to explain this event.
    pub fn event(&mut self, m: u32, ev: Ev) -> Option<u32> {
        if let Some(r) = self.memo.get(&(m, ev.clone())) {
            return *r;
        }
        let r = match &ev {
            Ev::Call(t, ix) => {
                let s = self.sets[m as usize]
                    .iter()
                    .map(|c| {
                        let mut d = c.clone();
                        d.p[*t as usize] = P::Open(*ix);
                        d
                    })
                    .collect();
                Some(self.intern(s))
            }
            Ev::Ret(t, res) => {
                let cl = self.closure(m);
                let s: BTreeSet<Conf> = cl
                    .into_iter()
                    .filter_map(|mut c| match &c.p[*t as usize] {
                        P::Done(_, r) if r == res => {
                            c.p[*t as usize] = P::Idle;
                            Some(c)
                        }
                        _ => None,
                    })
                    .collect();
                if s.is_empty() { None } else { Some(self.intern(s)) }
            }
        };
        self.memo.insert((m, ev), r);
        r
    }
    /// possible contents of object `o` when no call is open
    pub fn contents(&self, m: u32, o: usize) -> BTreeSet<u128> {
        self.sets[m as usize].iter().map(|c| c.objs[o]).collect()
    }
}
