//! Reference model of a time graph: the minimal network of a set of difference constraints,
//! always recomputed as all-pairs longest paths (so independent of any incremental algorithm).
use super::is::{INF, NEG};
use serde::{Deserialize, Serialize};

/// lower <= t(j) - t(i) <= upper, with +-oo as INF/NEG
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct K { pub i: u32, pub j: u32, pub l: i64, pub u: i64 }

impl K {
    pub fn rev(self) -> K { K { i: self.j, j: self.i, l: -self.u, u: -self.l } }
    /// (an infinite end is not a delay: `[+oo,+oo]` and `[-oo,-oo]` hold nothing)
    pub fn is_empty(&self) -> bool { self.l > self.u || self.l == INF || self.u == NEG }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Mg { pub n: usize, low: Vec<i64> } // low[i*n+j]: least delay from i to j, NEG if none

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res { Unchanged, Propagated, Inconsistent }

impl Mg {
    pub fn new(n: usize) -> Mg {
        let mut g = Mg { n, low: vec![NEG; n * n] };
        for i in 0..n { g.low[i * n + i] = 0; }
        g
    }
    pub fn low(&self, i: usize, j: usize) -> i64 { if i < self.n && j < self.n { self.low[i * self.n + j] } else { NEG } }
    /// the reported constraint between any two instants
    pub fn span(&self, i: usize, j: usize) -> (i64, i64) {
        if i >= self.n || j >= self.n { (NEG, INF) } else { (self.low(i, j), -self.low(j, i)) }
    }
    pub fn resize(&mut self, n: usize) {
        let mut g = Mg::new(n);
        for i in 0..n.min(self.n) { for j in 0..n.min(self.n) { g.low[i * n + j] = self.low[i * self.n + j]; } }
        *self = g;
    }
    fn close(&mut self) -> bool {
        let n = self.n;
        for k in 0..n {
            for i in 0..n {
                let a = self.low[i * n + k];
                if a == NEG { continue; }
                for j in 0..n {
                    let b = self.low[k * n + j];
                    if b != NEG && a as i128 + b as i128 > self.low[i * n + j] as i128 { self.low[i * n + j] = a + b; }
                }
            }
            if (0..n).any(|i| self.low[i * n + i] > 0) { return false; }
        }
        true
    }
    /// the graph with more constraints, or None if inconsistent
    pub fn with(&self, ks: &[K]) -> Option<Mg> {
        if ks.iter().any(|k| k.is_empty()) { return None; }
        let m = ks.iter().map(|k| k.i.max(k.j) as usize + 1).max().unwrap_or(0);
        let mut g = self.clone();
        if m > g.n { g.resize(m); }
        let n = g.n;
        if ks.len() == 1 && n > 12 {
            // large graph: closure of one constraint added to a closed network (definition of
            // the longest path through at most one use of each direction of the new edge)
            let k = ks[0];
            for (a, b, w) in [(k.i as usize, k.j as usize, k.l), (k.j as usize, k.i as usize, -k.u)] {
                if w == NEG { continue; }
                if a == b { if w > 0 { return None; } continue; }
                let back = g.low[b * n + a];
                if back != NEG && w as i128 + back as i128 > 0 { return None; }
                if w <= g.low[a * n + b] { continue; }
                let col: Vec<i64> = (0..n).map(|i| g.low[i * n + a]).collect();
                let row: Vec<i64> = (0..n).map(|j| g.low[b * n + j]).collect();
                for i in 0..n { if col[i] == NEG { continue; } for j in 0..n {
                    if row[j] == NEG { continue; }
                    let v = col[i] as i128 + w as i128 + row[j] as i128;
                    if v > g.low[i * n + j] as i128 { g.low[i * n + j] = v as i64; }
                } }
            }
            return Some(g);
        }
        for k in ks {
            let (i, j) = (k.i as usize, k.j as usize);
            if k.l != NEG { let c = &mut g.low[i * n + j]; *c = (*c).max(k.l); }
            if k.u != INF { let c = &mut g.low[j * n + i]; *c = (*c).max(-k.u); }
        }
        g.close().then_some(g)
    }
    pub fn merged(&self, o: &Mg) -> Option<Mg> {
        let mut g = self.clone();
        if o.n > g.n { g.resize(o.n); }
        let n = g.n;
        for i in 0..o.n { for j in 0..o.n { let v = o.low(i, j); let c = &mut g.low[i * n + j]; *c = (*c).max(v); } }
        g.close().then_some(g)
    }
    pub fn reset(&mut self) { *self = Mg::new(self.n); }
    pub fn shrink_fit(&mut self) {
        let mut m = self.n;
        while m > 0 && !(0..self.n).any(|i| i != m - 1 && (self.low(i, m - 1) != NEG || self.low(m - 1, i) != NEG)) { m -= 1; }
        self.resize(m);
    }
    /// constrained pairs, i<j
    pub fn pairs(&self) -> Vec<K> {
        let mut v = vec![];
        for i in 0..self.n { for j in i + 1..self.n {
            let (l, u) = self.span(i, j);
            if l != NEG || u != INF { v.push(K { i: i as u32, j: j as u32, l, u }); }
        } }
        v
    }
    pub fn result(&self, after: &Option<Mg>) -> Res {
        match after { None => Res::Inconsistent, Some(g) if g == self => Res::Unchanged, _ => Res::Propagated }
    }
    pub fn hash(&self) -> u64 {
        let mut m = crate::rng::Mix::new();
        m.add(self.n as u64);
        self.low.iter().for_each(|x| m.add(*x as u64));
        m.0
    }
    /// largest finite magnitude
    pub fn spread(&self) -> i64 { self.low.iter().filter(|x| **x != NEG).map(|x| x.abs()).max().unwrap_or(0) }
}
