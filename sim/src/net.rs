//! Discrete-event kernel with a faulty network, used to decide every schedule.
use crate::rng::Rng;
use std::collections::{BTreeMap, BinaryHeap};
use std::cmp::Reverse;

pub type Faults = BTreeMap<String, u64>;

#[derive(Clone, Debug)]
pub struct NetCfg {
    pub loss: u64,   // per mille
    pub dup: u64,    // per mille
    pub lat: u64,    // minimal latency (µs)
    pub jitter: u64, // µs (reordering comes from it)
    pub spike: u64,  // per mille: a message delayed by 50 jitters
}

impl NetCfg {
    pub fn random(r: &mut Rng) -> NetCfg {
        // swarm: each fault kind is on or off for the run
        NetCfg {
            loss: if r.coin() { r.below(300) } else { 0 },
            dup: if r.coin() { r.below(300) } else { 0 },
            lat: 50 + r.below(500),
            jitter: if r.chance(3, 4) { 100 + r.below(20_000) } else { 0 },
            spike: if r.chance(1, 3) { r.below(150) } else { 0 },
        }
    }
}

pub enum Ev<M> {
    /// a message of `from` reaches `to`
    Deliver { from: usize, to: usize, msg: M },
    /// a local timer of `node` fires
    Timer { node: usize, msg: M },
}

pub struct Kernel<M> {
    pub now: u64,
    seq: u64,
    heap: BinaryHeap<Reverse<(u64, u64)>>,
    slab: BTreeMap<u64, Ev<M>>,
    pub cfg: NetCfg,
    pub group: Vec<u32>, // partition group of each node
    pub quiet: bool,     // no more faults
    pub faults: Faults,
    last_sent: u64,
}

impl<M: Clone> Kernel<M> {
    pub fn new(nodes: usize, cfg: NetCfg) -> Self {
        Kernel { now: 0, seq: 0, heap: BinaryHeap::new(), slab: BTreeMap::new(), cfg,
                 group: vec![0; nodes], quiet: false, faults: Faults::new(), last_sent: 0 }
    }
    pub fn fault(&mut self, k: &str) { *self.faults.entry(k.to_string()).or_default() += 1; }
    fn push(&mut self, at: u64, ev: Ev<M>) {
        self.seq += 1;
        self.heap.push(Reverse((at, self.seq)));
        self.slab.insert(self.seq, ev);
    }
    pub fn timer(&mut self, node: usize, delay: u64, msg: M) { let at = self.now + delay; self.push(at, Ev::Timer { node, msg }); }
    pub fn send(&mut self, r: &mut Rng, from: usize, to: usize, msg: M) {
        if self.group[from] != self.group[to] { self.fault("partition_drop"); return; }
        if !self.quiet && self.cfg.loss > 0 && r.chance(self.cfg.loss, 1000) { self.fault("message_lost"); return; }
        let copies = if !self.quiet && self.cfg.dup > 0 && r.chance(self.cfg.dup, 1000) { self.fault("message_duplicated"); 2 } else { 1 };
        for _ in 0..copies {
            let mut d = self.cfg.lat;
            if !self.quiet && self.cfg.jitter > 0 { d += r.below(self.cfg.jitter); }
            if !self.quiet && self.cfg.spike > 0 && r.chance(self.cfg.spike, 1000) { d += 50 * self.cfg.jitter.max(1000); self.fault("message_delayed"); }
            let at = self.now + d;
            if at < self.last_sent { self.fault("message_reordered"); }
            self.last_sent = self.last_sent.max(at);
            self.push(at, Ev::Deliver { from, to, msg: msg.clone() });
        }
    }
    /// next event, the clock jumping to it
    pub fn pop(&mut self) -> Option<Ev<M>> {
        loop {
            let Reverse((at, seq)) = self.heap.pop()?;
            self.now = at;
            let ev = self.slab.remove(&seq).unwrap();
            if let Ev::Deliver { from, to, .. } = &ev {
                if self.group[*from] != self.group[*to] { self.fault("partition_drop"); continue; }
            }
            return Some(ev);
        }
    }
    pub fn partition(&mut self, r: &mut Rng) {
        for g in self.group.iter_mut() { *g = r.below(2) as u32; }
        self.fault("partition");
    }
    pub fn heal(&mut self) { self.group.iter_mut().for_each(|g| *g = 0); }
}
