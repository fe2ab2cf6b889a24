//! Threads as lazily built automata: a node is a thread state waiting for an answer; edges are labelled with answers.
use crate::interp::*;
use std::collections::HashMap;
use std::sync::Arc;

pub enum NSt {
    Req(Req),
    Done,
    Bad(Why, String),
}
pub struct Node {
    pub st: NSt,
    pub th: Thread,
    pub next: HashMap<(u128, bool), u32>,
}
pub struct Auto {
    pub ctx: Arc<Ctx>,
    pub tid: u32,
    pub nodes: Vec<Node>,
    index: HashMap<Thread, u32>,
}
impl Auto {
    pub fn new(ctx: Arc<Ctx>, tid: u32) -> Auto {
        let mut a = Auto { ctx: ctx.clone(), tid, nodes: vec![], index: HashMap::new() };
        let t = ctx.thread(tid);
        a.settle(t);
        a
    }
    fn settle(&mut self, mut t: Thread) -> u32 {
        let st = match self.ctx.advance(&mut t) {
            Status::Req(r) => NSt::Req(r),
            Status::Done => NSt::Done,
            Status::Bad(w, m) => NSt::Bad(w, m),
        };
        if let Some(i) = self.index.get(&t) {
            // two states of one thread that are equal have the same request
            if !matches!(st, NSt::Bad(..)) && !matches!(self.nodes[*i as usize].st, NSt::Bad(..)) {
                return *i;
            }
        }
        let i = self.nodes.len() as u32;
        self.index.insert(t.clone(), i);
        self.nodes.push(Node { st, th: t, next: HashMap::new() });
        i
    }
    pub fn next(&mut self, n: u32, val: u128, ok: bool) -> u32 {
        if let Some(x) = self.nodes[n as usize].next.get(&(val, ok)) {
            return *x;
        }
        let mut t = self.nodes[n as usize].th.clone();
        self.ctx.answer(&mut t, val, ok);
        let m = self.settle(t);
        self.nodes[n as usize].next.insert((val, ok), m);
        m
    }
    pub fn st(&self, n: u32) -> &NSt {
        &self.nodes[n as usize].st
    }
}
