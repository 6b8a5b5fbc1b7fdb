//! Replicated / shared time graphs: clients submit constraints through a faulty network,
//! nodes crash and restart from exported constraints, sources of batches are interrupted,
//! maintenance operations interleave with everything. (C01-C06, C08)
use crate::engine::*;
use crate::model::is::{n as show_n, INF, NEG};
use crate::model::mg::{Mg, Res, K};
use crate::net::*;
use crate::rng::Rng;
use chronologic::graph::*;
use chronologic::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeMap;

pub fn tv(x: i64) -> TimeValue { TimeValue::from_ticks(x) }
pub fn span_of(k: &K) -> TimeSpan { if k.is_empty() { TimeSpan::empty() } else if k.l == k.u { TimeSpan::singleton(tv(k.l)) } else { TimeSpan::new(tv(k.l), tv(k.u)) } }

/// a user-defined constraint, whose accessors may be interrupted
#[derive(Clone, Debug)]
pub struct UserK { pub k: K, pub fuse: Cell<i32> } // fuse: accessor calls before an interruption (<0: never)
impl UserK {
    pub fn new(k: K) -> UserK { UserK { k, fuse: Cell::new(-1) } }
    fn tick(&self) {
        let f = self.fuse.get();
        if f == 0 { inject() }
        if f > 0 { self.fuse.set(f - 1) }
    }
}
impl TimeBounds for UserK {
    type TimePoint = TimeValue;
    fn is_empty(&self) -> bool { self.tick(); self.k.l > self.k.u }
    fn is_low_bounded(&self) -> bool { self.tick(); !self.k.is_empty() && self.k.l != NEG }
    fn is_up_bounded(&self) -> bool { self.tick(); !self.k.is_empty() && self.k.u != INF }
    fn lower_bound(&self) -> TimeValue { self.tick(); tv(self.k.l) }
    fn upper_bound(&self) -> TimeValue { self.tick(); tv(self.k.u) }
}
impl TimeConvex for UserK {}
impl TimeConstraint for UserK {
    fn from(&self) -> Instant { self.tick(); self.k.i }
    fn to(&self) -> Instant { self.tick(); self.k.j }
}

/// an iterator announcing a chosen (truthful) size hint, interrupted at will
pub struct Source<K> { items: std::vec::IntoIter<K>, hint: u8, left: usize, cut: Option<usize> }
impl<K> Source<K> {
    pub fn new(v: Vec<K>, hint: u8, cut: Option<usize>) -> Self { let left = v.len(); Source { items: v.into_iter(), hint, left, cut } }
}
impl<K> Iterator for Source<K> {
    type Item = K;
    fn next(&mut self) -> Option<K> {
        if let Some(c) = self.cut {
            if c == 0 { inject() }
            self.cut = Some(c - 1);
        }
        let r = self.items.next();
        if r.is_some() { self.left -= 1 }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left;
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n, None),
            3 => (0, Some(n)),
            4 => (n / 2, Some(n + 5)),
            _ => (0, Some(usize::MAX)),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cut { pub item: usize, pub access: Option<u8> }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Add { node: usize, k: K, form: u8 },
    Batch { node: usize, id: u32, ks: Vec<K>, form: u8, hint: u8, cut: Option<Cut> },
    Merge { node: usize, with: usize },
    MergeBuilt { node: usize, size: u32, ks: Vec<K> },
    Resize { node: usize, n: u32 },
    Reset { node: usize },
    ShrinkFit { node: usize },
    ShrinkTo { node: usize, n: u32 },
    Clone { node: usize, to: usize, #[serde(default)] over: bool },
    Export { node: usize },
    Crash { node: usize, lost: Vec<usize>, mode: u8, salt: u64, finish: bool },
    Query { node: usize },
    Converge,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg { pub nodes: usize, pub sizes: Vec<u32>, pub deep: bool }

struct Node {
    g: TimeGraph,
    m: Mg,
    hist: u32,
    tainted: Option<(u32, Mg)>, // interrupted batch, model before it
    export: Option<(Vec<K>, Mg)>,
}
const H_REFUSED: u32 = 1;
const H_FATAL: u32 = 2;
const H_CUT: u32 = 4;
const H_MAINT: u32 = 8;
const H_REBUILT: u32 = 16;

pub fn read_k<T: TimeConstraint>(k: &T) -> K { K { i: k.from(), j: k.to(), l: k.lower_bound().as_ticks(), u: k.upper_bound().as_ticks() } }

fn res_str(r: &Res) -> &'static str { match r { Res::Unchanged => "Ok(Unchanged)", Res::Propagated => "Ok(Propagated)", Res::Inconsistent => "Err" } }

/// adds one constraint in the given form
pub fn real_add(g: &mut TimeGraph, k: &K, form: u8) -> String {
    let ij = (k.i, k.j);
    let r = match form {
        1 => { // range notations
            if k.is_empty() {
                if k.l == INF && k.u == INF { if k.i & 1 == 0 { format!("{:?}", g.propagate((ij, tv(INF)..))) } else { format!("{:?}", g.propagate((ij, tv(INF)..=tv(INF)))) } }
                else if k.l == NEG && k.u == NEG { match k.i & 3 { 0 => format!("{:?}", g.propagate((ij, ..=tv(NEG)))), 1 => format!("{:?}", g.propagate((ij, ..tv(NEG + 1)))), 2 => format!("{:?}", g.propagate((ij, ..tv(NEG)))), _ => format!("{:?}", g.propagate((ij, tv(NEG)..=tv(NEG)))) } }
                else if k.l == k.u + 1 { format!("{:?}", g.propagate((ij, tv(k.l)..tv(k.l)))) }
                else { format!("{:?}", g.propagate((ij, tv(k.l)..=tv(k.u)))) }
            }
            else if k.l == NEG && k.u != INF { if k.u & 1 == 0 { format!("{:?}", g.propagate((ij, ..=tv(k.u)))) } else { format!("{:?}", g.propagate((ij, ..tv(k.u + 1)))) } }
            else if k.u == INF && k.l != NEG { format!("{:?}", g.propagate((ij, tv(k.l)..))) }
            else if k.u == INF { format!("{:?}", g.propagate((ij, TimeSpan::all()))) }
            else if k.u & 1 == 0 { format!("{:?}", g.propagate((ij, tv(k.l)..=tv(k.u)))) }
            else { format!("{:?}", g.propagate((ij, tv(k.l)..tv(k.u + 1)))) }
        }
        2 => { let r = k.rev(); format!("{:?}", g.propagate(((r.i, r.j), span_of(&r)))) }
        3 => format!("{:?}", g.propagate(UserK::new(*k))),
        4 if k.l == k.u => format!("{:?}", g.propagate((ij, tv(k.l)))),
        _ => format!("{:?}", g.propagate((ij, span_of(k)))),
    };
    r
}

fn real_batch(g: &mut TimeGraph, ks: &[K], form: u8, hint: u8, cut: &Option<Cut>) -> String {
    let before = cut.as_ref().filter(|c| c.access.is_none()).map(|c| c.item);
    let bomb = cut.as_ref().and_then(|c| c.access.map(|a| (c.item, a)));
    if form == 3 || bomb.is_some() {
        let v: Vec<UserK> = ks.iter().enumerate().map(|(x, k)| UserK { k: *k, fuse: Cell::new(match bomb { Some((i, a)) if i == x => a as i32, _ => -1 }) }).collect();
        format!("{:?}", g.extend(Source::new(v, hint, before)))
    } else if form == 2 {
        let v: Vec<_> = ks.iter().map(|k| { let r = k.rev(); ((r.i, r.j), span_of(&r)) }).collect();
        format!("{:?}", g.extend(Source::new(v, hint, before)))
    } else if form == 1 && ks.iter().all(|k| k.l != NEG && k.u != INF) {
        let v: Vec<_> = ks.iter().map(|k| ((k.i, k.j), tv(k.l)..=tv(k.u))).collect();
        format!("{:?}", g.extend(Source::new(v, hint, before)))
    } else {
        let v: Vec<_> = ks.iter().map(|k| ((k.i, k.j), span_of(k))).collect();
        if hint == 0 && before.is_none() { format!("{:?}", g.extend(v)) } else { format!("{:?}", g.extend(Source::new(v, hint, before))) }
    }
}

/// first difference between what the graph reports and the model
pub fn diff(g: &TimeGraph, m: &Mg) -> Option<String> {
    if g.size() as usize != m.n { return Some(format!("size is {} instead of {}", g.size(), m.n)); }
    for i in 0..m.n + 1 {
        for j in 0..m.n + 1 {
            let (l, u) = m.span(i, j);
            let s = g.timespan(i as u32, j as u32);
            if s.lower_bound().as_ticks() != l || s.upper_bound().as_ticks() != u {
                return Some(format!("timespan({},{}) is [{},{}] instead of [{},{}]", i, j, show_n(s.lower_bound().as_ticks()), show_n(s.upper_bound().as_ticks()), show_n(l), show_n(u)));
            }
        }
    }
    None
}

fn diff_spans(g: &TimeGraph, m: &Mg) -> Option<String> {
    for i in 0..m.n { for j in 0..m.n {
        let s = g.timespan(i as u32, j as u32);
        // instants beyond the rebuilt graph are unconstrained
        let (l, u) = if i == j && i >= g.size() as usize { (NEG, INF) } else { m.span(i, j) };
        if s.lower_bound().as_ticks() != l || s.upper_bound().as_ticks() != u {
            return Some(format!("timespan({},{}) is {:?} instead of [{},{}]", i, j, s, show_n(l), show_n(u)));
        }
    } }
    None
}

/// a fresh graph holding the same constraints
pub fn twin(m: &Mg) -> TimeGraph {
    let mut g = TimeGraph::with_size(m.n as u32);
    let ks: Vec<_> = m.pairs().iter().map(|k| ((k.i, k.j), span_of(k))).collect();
    let _ = format!("{:?}", g.extend(ks));
    g
}

struct World_<'a> { nodes: Vec<Node>, ctx: &'a mut Ctx, deep: bool }

impl World_<'_> {
    fn hist_tags(h: u32) -> Vec<&'static str> {
        let mut v = vec![];
        if h & H_REFUSED != 0 { v.push("C02") }
        if h & H_FATAL != 0 { v.push("C03") }
        if h & H_CUT != 0 { v.push("C06") }
        if h & H_MAINT != 0 { v.push("C08") }
        if h & H_REBUILT != 0 { v.push("C05") }
        v
    }

    /// checks node x after an operation; `base`: properties violated if what it reports is wrong;
    /// `redo` applies the same operation to a fresh graph (to tell whether history matters)
    fn state(&mut self, x: usize, base: &[&'static str], what: &str, pre: &Mg, hist: u32, redo: Option<&dyn Fn(&mut TimeGraph)>) {
        if self.ctx.stopped() { return; }
        let nd = &self.nodes[x];
        let g = &nd.g;
        let m = &nd.m;
        let d = match guarded(base, "reading the graph", || diff(g, m)) {
            Ok(d) => d,
            Err(Caught::Panic(p)) => Some(format!("reading the graph panicked: {}", p)),
            Err(_) => Some("injected?".into()),
        };
        self.ctx.checks += ((m.n + 1) * (m.n + 1)) as u64;
        if let Some(d) = d {
            let mut tags: Vec<&str> = base.to_vec();
            if hist != 0 {
                if let Some(redo) = redo {
                    let ok = guarded(base, "twin", || { let mut t = twin(pre); redo(&mut t); diff(&t, m).is_none() });
                    if matches!(ok, Ok(true)) { tags.extend(Self::hist_tags(hist)); }
                }
            }
            let text = format!("graph {} after {}: {}", x, what, d);
            if !self.ctx.mine(&tags) {
                // a graph built afresh, when it is right, takes over
                if let Ok(t) = guarded(base, "twin", || { let t = twin(m); diff(&t, m).is_none().then_some(t) }) { if let Some(t) = t {
                    self.ctx.soft_fail(&tags, &format!("state:{}", what), text);
                    self.nodes[x].g = t;
                    return;
                } }
            }
            self.ctx.fail(&tags, &format!("state:{}", what), text);
            return;
        }
        self.ctx.state(m.hash());
        // nothing else may have changed
        if self.nodes.len() > 1 && self.nodes.iter().all(|n| n.m.n <= 16) {
            for y in 0..self.nodes.len() {
                if y == x || self.nodes[y].tainted.is_some() { continue; }
                let (g, m) = (&self.nodes[y].g, &self.nodes[y].m);
                let d = guarded(base, "reading another graph", || diff(g, m));
                let d = match d { Ok(d) => d, Err(_) => Some("unreadable".into()) };
                if let Some(d) = d {
                    self.ctx.fail(&["C08", "C06", "C01"], &format!("other:{}", what), format!("graph {} changed by {} on graph {}: {}", y, what, x, d));
                    return;
                }
            }
        }
    }

    fn add(&mut self, x: usize, k: &K, form: u8) {
        if self.nodes[x].tainted.is_some() { return; }
        let pre = self.nodes[x].m.clone();
        let hist = self.nodes[x].hist;
        let after = pre.with(&[*k]);
        let want = pre.result(&after);
        let nd = &mut self.nodes[x];
        let r = match self.ctx.real(&["C02", "C01", "C04"], "propagate", || real_add(&mut nd.g, k, form)) { Some(r) => r, None => return };
        self.ctx.note(|| format!("add {} {:?} form {} -> {}", x, k, form, r));
        let ok_want = want != Res::Inconsistent;
        let ok_real = r.starts_with("Ok");
        if !ok_want { self.ctx.probe(if k.is_empty() { "refused_empty" } else if k.i == k.j { "refused_self" } else { "refused_inconsistent" }); }
        if k.i.max(k.j) as usize >= pre.n { self.ctx.probe("add_new_instant"); }
        let redo = |t: &mut TimeGraph| { real_add(t, k, form); };
        if ok_want != ok_real || (!ok_real && r != "Err(Recovered)") {
            let mut tags = vec!["C02"];
            if ok_want { tags.push("C01") }
            if hist != 0 {
                let t = guarded(&tags, "twin", || { let mut t = twin(&pre); real_add(&mut t, k, form).starts_with("Ok") == ok_want });
                if matches!(t, Ok(true)) { tags.extend(Self::hist_tags(hist)); }
            }
            self.ctx.fail(&tags, "admission", format!("graph {}: adding {:?} gave {} but it is {}", x, k, r, if ok_want { "consistent" } else { "inconsistent" }));
            return;
        }
        if ok_real && r != res_str(&want) {
            self.ctx.soft_fail(&["C04"], "report:add", format!("graph {}: adding {:?} reported {} but expected {}", x, k, r, res_str(&want)));
            if self.ctx.stopped() { return; }
        }
        self.ctx.checks += 1;
        match after {
            Some(m) => { self.nodes[x].m = m; self.state(x, &["C01"], "an accepted constraint", &pre, hist, Some(&redo)); }
            None => { self.nodes[x].hist |= H_REFUSED; self.state(x, &["C02"], "a refused constraint", &pre, hist, Some(&redo)); }
        }
    }

    fn batch(&mut self, x: usize, id: u32, ks: &[K], form: u8, hint: u8, cut: &Option<Cut>) {
        let pre = match &self.nodes[x].tainted {
            Some((t, pre)) if *t == id => { self.ctx.probe("batch_retried"); pre.clone() }
            Some(_) => return,
            None => self.nodes[x].m.clone(),
        };
        let retried = self.nodes[x].tainted.is_some();
        let hist = self.nodes[x].hist;
        let props: &[&str] = if retried { &["C06", "C03", "C01"] } else { &["C03", "C01"] };
        let nd = &mut self.nodes[x];
        let r = match guarded(props, "extend", || real_batch(&mut nd.g, ks, form, hint, cut)) {
            Ok(r) => r,
            Err(Caught::Injected) => {
                self.ctx.fault(if cut.as_ref().map_or(false, |c| c.access.is_some()) { "interrupted_inside_constraint" } else { "interrupted_between_constraints" });
                self.ctx.note(|| format!("batch {} #{} interrupted {:?}", x, id, cut));
                self.nodes[x].tainted = Some((id, pre.clone()));
                self.nodes[x].hist |= H_CUT;
                // others are never affected
                let keep = self.nodes[x].tainted.take();
                let (m, others) = (self.nodes[x].m.clone(), self.nodes.len());
                let _ = m;
                for y in 0..others {
                    if y == x || self.nodes[y].tainted.is_some() { continue; }
                    if let Some(d) = diff(&self.nodes[y].g, &self.nodes[y].m) {
                        self.ctx.fail(&["C06"], "other:interrupted", format!("graph {} changed by an interrupted batch on graph {}: {}", y, x, d));
                    }
                }
                self.nodes[x].tainted = keep;
                return;
            }
            Err(Caught::Panic(m)) => { self.ctx.fail(props, "panic:extend", format!("graph {}: batch {:?} panicked: {}", x, ks, m)); return; }
        };
        self.nodes[x].tainted = None;
        self.ctx.note(|| format!("batch {} #{} {:?} form {} hint {} -> {}", x, id, ks, form, hint, r));
        let after = if ks.is_empty() { Some(pre.clone()) } else { pre.with(ks) };
        let want = pre.result(&after);
        let redo = |t: &mut TimeGraph| { real_batch(t, ks, form, hint, &None); };
        let mut tags = vec!["C03"];
        if retried { tags.push("C06") }
        match after {
            Some(m) => {
                if !r.starts_with("Ok") {
                    tags.push("C01");
                    if hist != 0 && matches!(guarded(&tags, "twin", || { let mut t = twin(&pre); real_batch(&mut t, ks, form, hint, &None).starts_with("Ok") }), Ok(true)) { tags.extend(Self::hist_tags(hist)); }
                    self.ctx.fail(&tags, "batch-rejected", format!("graph {}: batch {:?} gave {} but it is consistent", x, ks, r));
                    return;
                }
                if r == "Ok(Unchanged)" && want == Res::Propagated {
                    self.ctx.soft_fail(&["C04"], "report:batch", format!("graph {}: batch {:?} reported unchanged but changed the graph", x, ks));
                    if self.ctx.stopped() { return; }
                }
                self.nodes[x].m = m;
                let base: &[&'static str] = if retried { &["C01", "C06"] } else { &["C01"] };
                self.state(x, base, "an accepted batch", &pre, hist, Some(&redo));
            }
            None => {
                self.ctx.probe("batch_fatal");
                if ks.len() == 1 && r == "Err(Recovered)" {
                    self.nodes[x].hist |= H_REFUSED;
                    self.state(x, &["C02", "C03"], "a refused one-constraint batch", &pre, hist, Some(&redo));
                    return;
                }
                if r != "Err(Fatal)" {
                    if hist != 0 && matches!(guarded(&tags, "twin", || { let mut t = twin(&pre); real_batch(&mut t, ks, form, hint, &None) == "Err(Fatal)" }), Ok(true)) { tags.extend(Self::hist_tags(hist)); }
                    self.ctx.fail(&tags, "batch-accepted", format!("graph {}: batch {:?} gave {} but it is inconsistent", x, ks, r));
                    return;
                }
                self.nodes[x].m = Mg::new(0);
                self.nodes[x].hist |= H_FATAL;
                let base: &[&'static str] = if retried { &["C03", "C06"] } else { &["C03"] };
                self.state(x, base, "a fatal batch", &pre, hist, None);
            }
        }
    }

    fn merge(&mut self, x: usize, other: TimeGraph, om: &Mg, oh: u32, how: &str) {
        let pre = self.nodes[x].m.clone();
        let hist = self.nodes[x].hist | oh;
        let after = pre.merged(om);
        let want = pre.result(&after);
        let nd = &mut self.nodes[x];
        let arg = other.clone();
        let r = match self.ctx.real(&["C03", "C01"], "merge", || format!("{:?}", nd.g.merge(arg))) { Some(r) => r, None => return };
        self.ctx.note(|| format!("merge {} with {} of size {} -> {}", x, how, om.n, r));
        let redo = |t: &mut TimeGraph| { let _ = format!("{:?}", t.merge(twin(om))); };
        match after {
            Some(m) => {
                if !r.starts_with("Ok") {
                    let mut tags = vec!["C03", "C01"];
                    if hist != 0 && matches!(guarded(&tags, "twin", || { let mut t = twin(&pre); format!("{:?}", t.merge(twin(om))).starts_with("Ok") }), Ok(true)) { tags.extend(Self::hist_tags(hist)); }
                    self.ctx.fail(&tags, "merge-rejected", format!("graph {}: merging gave {} but is consistent", x, r));
                    return;
                }
                let changed = m != pre;
                self.nodes[x].m = m;
                if r != res_str(&want) {
                    // a wrong report may also come from a state which is wrong
                    let ok = guarded(&["C04"], "reading", || diff(&self.nodes[x].g, &self.nodes[x].m).is_none());
                    if matches!(ok, Ok(true)) {
                        let mut tags = vec!["C04"];
                        if hist != 0 && matches!(guarded(&tags, "twin", || { let mut t = twin(&pre); format!("{:?}", t.merge(twin(om))) == res_str(&want) }), Ok(true)) { tags.extend(Self::hist_tags(hist)); }
                        self.ctx.soft_fail(&tags, "report:merge", format!("graph {}: merge reported {} but the graph {}", x, r, if changed { "changed" } else { "did not change" }));
                        if self.ctx.stopped() { return; }
                    }
                }
                self.state(x, &["C01"], "an accepted merge", &pre, hist, Some(&redo));
            }
            None => {
                self.ctx.probe("merge_fatal");
                if r != "Err(Fatal)" {
                    let mut tags = vec!["C03"];
                    if hist != 0 && matches!(guarded(&tags, "twin", || { let mut t = twin(&pre); format!("{:?}", t.merge(twin(om))) == "Err(Fatal)" }), Ok(true)) { tags.extend(Self::hist_tags(hist)); }
                    self.ctx.fail(&tags, "merge-accepted", format!("graph {}: merging gave {} but is inconsistent", x, r));
                    return;
                }
                self.nodes[x].m = Mg::new(0);
                self.nodes[x].hist |= H_FATAL;
                self.state(x, &["C03"], "a fatal merge", &pre, hist, None);
            }
        }
    }

    /// what the constraint iterators give
    fn query(&mut self, x: usize) {
        let nd = &self.nodes[x];
        if nd.tainted.is_some() { return; }
        let (g, m) = (&nd.g, &nd.m);
        let pairs = m.pairs();
        let n = m.n as u32;
        let r = self.ctx.look(&["C05"], "iterating over constraints", || -> Result<(), String> {
            let norm = |k: K| if k.i <= k.j { k } else { k.rev() };
            let list = |v: Vec<K>, want: &[K], what: String| -> Result<(), String> {
                let mut v: Vec<K> = v.into_iter().map(norm).collect();
                v.sort_by_key(|k| (k.i, k.j));
                if v != want { return Err(format!("{} gives {:?} instead of {:?}", what, v, want)); }
                Ok(())
            };
            list(g.iter().map(|k| read_k(&k)).collect(), &pairs, "iter()".into())?;
            if g.iter().count() != pairs.len() { return Err(format!("iter() counts {} constraints instead of {}", g.iter().count(), pairs.len())); }
            // (in the order of the iteration)
            let all: Vec<K> = g.iter().map(|k| read_k(&k)).collect();
            if g.iter().last().map(|k| read_k(&k)) != all.last().copied() { return Err("iter() has not the last constraint it delivers".into()); }
            for p in 0..3 { if g.iter().nth(p).map(|k| read_k(&k)) != all.get(p).copied() { return Err(format!("iter().nth({}) is not the constraint it delivers", p)); } }
            // what an export stores
            for k in g.iter() {
                let r = read_k(&k);
                let other = [r, r.rev(), K { l: r.l.saturating_add((r.l < r.u) as i64), ..r }, K { u: INF, ..r }, K { l: NEG, ..r }, K { i: r.j, j: r.i, ..r }, K { j: r.j + 1, ..r }];
                for o in other {
                    let t = ((o.i, o.j), TimeInterval::from((tv(o.l), tv(o.u))));
                    let same = o == r || o.rev() == r;
                    if o.is_empty() || o.i == o.j { continue; }
                    if k.equiv(&t) != same || t.equiv(&k) != same { return Err(format!("{:?} is {}said equivalent to {:?}", r, if same { "not " } else { "" }, o)); }
                }
                let ((a, b), t): ((Instant, Instant), TimeSpan) = k.into();
                let kt = ((a, b), t);
                let bounded = (kt.is_empty(), kt.is_low_bounded(), kt.is_up_bounded(), kt.is_bounded());
                if bounded != (false, kt.1.lower_bound().as_ticks() != NEG, kt.1.upper_bound().as_ticks() != INF, kt.1.lower_bound().as_ticks() != NEG && kt.1.upper_bound().as_ticks() != INF) { return Err(format!("{:?} misreports its boundedness once stored: {:?}", r, bounded)); }
                if (K { i: a, j: b, l: t.lower_bound().as_ticks(), u: t.upper_bound().as_ticks() }) != r { return Err(format!("{:?} is stored as ({},{}) {:?}", r, a, b, t)); }
            }
            // the announced sizes
            let mut it = g.iter();
            let mut left = pairs.len();
            loop {
                let (lo, hi) = it.size_hint();
                if lo > left || hi.map_or(false, |h| h < left) { return Err(format!("iter() announces {:?} constraints, {} are left", (lo, hi), left)); }
                if it.next().is_none() { break; }
                if left == 0 { return Err("iter() gives too many constraints".into()); }
                left -= 1;
            }
            if it.next().is_some() { return Err("iter() resumes after its end".into()); }
            for i in 0..n + 2 {
                let want: Vec<K> = pairs.iter().filter(|k| k.i == i || k.j == i).copied().collect();
                let f: Vec<_> = g.constraints_from(i).collect();
                if let Some(k) = f.iter().find(|k| k.from() != i) { return Err(format!("constraints_from({}) gives {:?}", i, read_k(k))); }
                list(f.iter().map(read_k).collect(), &want, format!("constraints_from({})", i))?;
                let mut it = g.constraints_from(i);
                let mut left = want.len();
                loop {
                    let (lo, hi) = it.size_hint();
                    if lo > left || hi.map_or(false, |h| h < left) { return Err(format!("constraints_from({}) announces {:?} constraints, {} are left", i, (lo, hi), left)); }
                    if it.next().is_none() { break; }
                    if left == 0 { return Err(format!("constraints_from({}) gives too many constraints", i)); }
                    left -= 1;
                }
                let t: Vec<_> = g.constraints_to(i).collect();
                if let Some(k) = t.iter().find(|k| k.to() != i) { return Err(format!("constraints_to({}) gives {:?}", i, read_k(k))); }
                list(t.iter().map(read_k).collect(), &want, format!("constraints_to({})", i))?;
            }
            Ok(())
        });
        self.ctx.checks += pairs.len() as u64 + 1;
        match r {
            Some(Err(e)) => self.ctx.soft_fail(&["C05"], "iterators", format!("graph {}: {}", x, e)),
            _ => {}
        }
        if self.ctx.stopped() { return; }
        let nd = &self.nodes[x];
        let (g, m) = (&nd.g, &nd.m);
        let r = self.ctx.look(&["C05", "C01"], "reading constraints", || -> Result<(), String> {
            for i in 0..n + 1 { for j in 0..n + 1 {
                let (l, u) = m.span(i as usize, j as usize);
                if i != j {
                    let want = if l == NEG && u == INF { None } else { Some(K { i, j, l, u }) };
                    let k = g.constraint(i, j);
                    if k.as_ref().map(read_k) != want { return Err(format!("constraint({},{}) is {:?} instead of {:?}", i, j, k.as_ref().map(read_k), want)); }
                    if let Some(k) = k {
                        if k.is_empty() || k.is_low_bounded() != (l != NEG) || k.is_up_bounded() != (u != INF) { return Err(format!("constraint({},{}) misreports its boundedness", i, j)); }
                        let s: TimeSpan = k.into();
                        if s.lower_bound().as_ticks() != l || s.upper_bound().as_ticks() != u { return Err(format!("constraint({},{}) converts to {:?}", i, j, s)); }
                    }
                }
                let want = if i >= n || j >= n { None } else if l > 0 { Some(Ordering::Less) } else if u < 0 { Some(Ordering::Greater) } else if l == 0 && u == 0 { Some(Ordering::Equal) } else { None };
                if g.instant_cmp(i, j) != want { return Err(format!("instant_cmp({},{}) is {:?} instead of {:?}", i, j, g.instant_cmp(i, j), want)); }
                let distinct = l > 0 || u < 0;
                if g.are_distinct_instants(i, j) != distinct { return Err(format!("are_distinct_instants({},{}) is {}", i, j, !distinct)); }
            } }
            Ok(())
        });
        if let Some(Err(e)) = r { self.ctx.soft_fail(&["C01"], "queries", format!("graph {}: {}", x, e)); }
    }

    fn crash(&mut self, x: usize, lost: &[usize], mode: u8, salt: u64, finish: bool) {
        let (exp, om) = match &self.nodes[x].export { Some((e, m)) => (e.clone(), m.clone()), None => (vec![], Mg::new(0)) };
        self.ctx.fault("crash");
        let mut kept = vec![];
        let mut missing = vec![];
        for (p, k) in exp.iter().enumerate() { if lost.contains(&p) { missing.push(*k) } else { kept.push(*k) } }
        if !missing.is_empty() { self.ctx.fault("torn_export"); }
        let mut r = Rng::new(salt);
        r.shuffle(&mut kept);
        if salt & 1 == 1 && !kept.is_empty() { for _ in 0..1 + r.idx(3) { let d = *r.pick(&kept); kept.push(d); } self.ctx.fault("duplicated_import"); }
        let want = Mg::new(0).with(&kept).expect("export is consistent");
        let old = std::mem::take(&mut self.nodes[x].g);
        let tainted = self.nodes[x].tainted.is_some();
        let g = self.ctx.real(&["C05"], "rebuilding a graph", || import(&kept, mode, salt, if tainted || !missing.is_empty() { None } else { Some(&old) }));
        let g = match g { Some(g) => g, None => return };
        self.ctx.note(|| format!("crash {}: {} of {} constraints survive, import mode {}", x, kept.len(), exp.len(), mode));
        let nd = &mut self.nodes[x];
        nd.g = g;
        nd.tainted = None;
        nd.hist = H_REBUILT;
        // direct feeding from the live graph reflects the live graph, not the export
        nd.m = if nd.g.size() as usize == 0 && want.n == 0 { Mg::new(0) } else { want };
        let pre = Mg::new(0);
        self.state(x, &["C05", "C01"], "a restart", &pre, 0, None);
        if self.ctx.stopped() { return; }
        if finish && !missing.is_empty() {
            let nd = &mut self.nodes[x];
            r.shuffle(&mut missing);
            let res = self.ctx.real(&["C05"], "delivering missing constraints", || {
                if salt & 2 == 0 { missing.iter().map(|k| real_add(&mut nd.g, k, (salt % 4) as u8)).all(|r| r.starts_with("Ok")) }
                else { real_batch(&mut nd.g, &missing, 0, (salt % 5) as u8, &None).starts_with("Ok") }
            });
            let res = match res { Some(r) => r, None => return };
            let ok = self.nodes[x].m.with(&missing).expect("consistent");
            let d = diff_spans(&self.nodes[x].g, &om);
            self.nodes[x].m = ok;
            self.ctx.check(res && d.is_none(), &["C05", "C01"], "completed-import", || format!("graph {}: rebuilt graph completed with its missing constraints differs: {:?}", x, d));
            let pre = Mg::new(0);
            self.state(x, &["C05", "C01"], "a completed restart", &pre, 0, None);
        } else if missing.is_empty() && self.nodes[x].export.is_some() {
            let d = diff_spans(&self.nodes[x].g, &om);
            self.ctx.check(d.is_none(), &["C05"], "rebuilt-differs", || format!("graph {}: rebuilt graph differs from the original: {}", x, d.unwrap()));
        }
    }
}

/// rebuilds a graph from exported constraints
fn import(ks: &[K], mode: u8, salt: u64, live: Option<&TimeGraph>) -> TimeGraph {
    let tuples: Vec<_> = ks.iter().enumerate().map(|(p, k)| { let k = if (salt >> (p % 60)) & 1 == 1 { k.rev() } else { *k }; ((k.i, k.j), span_of(&k)) }).collect();
    let mut g = TimeGraph::default();
    match mode {
        0 => tuples.into_iter().collect(),
        1 => { let _ = format!("{:?}", g.extend(Source::new(tuples, (salt % 5) as u8, None))); g }
        2 => { for t in tuples { let _ = format!("{:?}", g.propagate(t)); } g }
        3 => { Extend::extend(&mut g, tuples); g }
        4 => {
            let h = tuples.len() / 2;
            let mut a: TimeGraph = tuples[..h].iter().cloned().collect();
            let b: TimeGraph = tuples[h..].iter().cloned().collect();
            let _ = format!("{:?}", a.merge(b));
            a
        }
        _ => {
            // through another graph: constraints are moved from graph to graph as they are iterated
            let _ = live;
            let first: TimeGraph = tuples.into_iter().collect();
            match mode {
                5 => { let _ = format!("{:?}", g.extend(first.iter())); }
                6 => { for i in 0..first.size() { let _ = format!("{:?}", g.extend(first.constraints_from(i))); } }
                7 => { for i in (0..first.size()).rev() { let _ = format!("{:?}", g.extend(first.constraints_to(i))); } }
                _ => { for k in first.iter() { let _ = format!("{:?}", g.propagate(k)); } }
            }
            g
        }
    }
}

pub struct Graph;

impl World for Graph {
    const NAME: &'static str = "graph";
    type Cfg = Cfg;
    type Step = Step;

    fn exec(cfg: &Cfg, steps: &[Step], ctx: &mut Ctx) {
        let mut nodes = vec![];
        for x in 0..cfg.nodes {
            let s = cfg.sizes.get(x).copied().unwrap_or(0);
            let g = match ctx.real(&["C08"], "with_size", || if s == 0 { TimeGraph::default() } else { TimeGraph::with_size(s) }) { Some(g) => g, None => return };
            nodes.push(Node { g, m: Mg::new(s as usize), hist: 0, tainted: None, export: None });
        }
        let mut w = World_ { nodes, ctx, deep: cfg.deep };
        for (si, step) in steps.iter().enumerate() {
            if w.ctx.stopped() { return; }
            w.ctx.begin(si);
            let nn = w.nodes.len();
            match step {
                Step::Add { node, k, form } if *node < nn => w.add(*node, k, *form),
                Step::Batch { node, id, ks, form, hint, cut } if *node < nn => w.batch(*node, *id, ks, *form, *hint, cut),
                Step::Merge { node, with } if *node < nn && *with < nn && w.nodes[*node].tainted.is_none() && w.nodes[*with].tainted.is_none() => {
                    let (o, om, oh) = (w.nodes[*with].g.clone(), w.nodes[*with].m.clone(), w.nodes[*with].hist);
                    w.merge(*node, o, &om, oh, "another graph");
                }
                Step::MergeBuilt { node, size, ks } if *node < nn && w.nodes[*node].tainted.is_none() => {
                    let om = match Mg::new(*size as usize).with(ks) { Some(m) => m, None => if ks.is_empty() { Mg::new(*size as usize) } else { continue } };
                    let o = w.ctx.real(&["C01"], "building a graph", || { let mut g = TimeGraph::with_size(*size); for k in ks { real_add(&mut g, k, 0); } g });
                    let o = match o { Some(o) => o, None => return };
                    if let Some(d) = diff(&o, &om) { w.ctx.fail(&["C01"], "state:building a graph", d); return; }
                    w.merge(*node, o, &om, 0, "a built graph");
                }
                Step::Resize { node, n } if *node < nn && w.nodes[*node].tainted.is_none() => {
                    let pre = w.nodes[*node].m.clone();
                    let hist = w.nodes[*node].hist;
                    let nd = &mut w.nodes[*node];
                    if w.ctx.real(&["C08"], "resize", || nd.g.resize(*n)).is_none() { return; }
                    w.nodes[*node].m.resize(*n as usize);
                    w.nodes[*node].hist |= H_MAINT;
                    w.ctx.note(|| format!("resize {} to {}", node, n));
                    w.ctx.probe(if (*n as usize) < pre.n { "resize_down" } else { "resize_up" });
                    w.state(*node, &["C08"], "resize", &pre, hist, Some(&|t: &mut TimeGraph| t.resize(*n)));
                }
                Step::Reset { node } if *node < nn && w.nodes[*node].tainted.is_none() => {
                    let pre = w.nodes[*node].m.clone();
                    let hist = w.nodes[*node].hist;
                    let nd = &mut w.nodes[*node];
                    if w.ctx.real(&["C08"], "reset", || nd.g.reset()).is_none() { return; }
                    w.nodes[*node].m.reset();
                    w.nodes[*node].hist |= H_MAINT;
                    w.ctx.note(|| format!("reset {}", node));
                    w.state(*node, &["C08"], "reset", &pre, hist, Some(&|t: &mut TimeGraph| t.reset()));
                }
                Step::ShrinkFit { node } if *node < nn && w.nodes[*node].tainted.is_none() => {
                    let pre = w.nodes[*node].m.clone();
                    let hist = w.nodes[*node].hist;
                    let nd = &mut w.nodes[*node];
                    if w.ctx.real(&["C08"], "shrink_to_fit", || nd.g.shrink_to_fit()).is_none() { return; }
                    w.nodes[*node].m.shrink_fit();
                    w.nodes[*node].hist |= H_MAINT;
                    w.ctx.note(|| format!("shrink_to_fit {}", node));
                    if w.nodes[*node].m.n < pre.n { w.ctx.probe("shrunk"); }
                    w.state(*node, &["C08"], "shrink_to_fit", &pre, hist, Some(&|t: &mut TimeGraph| t.shrink_to_fit()));
                }
                Step::ShrinkTo { node, n } if *node < nn && w.nodes[*node].tainted.is_none() => {
                    let pre = w.nodes[*node].m.clone();
                    let hist = w.nodes[*node].hist;
                    let nd = &mut w.nodes[*node];
                    if w.ctx.real(&["C08"], "shrink_to", || nd.g.shrink_to(*n)).is_none() { return; }
                    w.nodes[*node].hist |= H_MAINT;
                    w.ctx.note(|| format!("shrink_to {} {}", node, n));
                    w.state(*node, &["C08"], "shrink_to", &pre, hist, Some(&|t: &mut TimeGraph| t.shrink_to(*n)));
                }
                Step::Clone { node, to, over } if *node < nn && *to < nn && node != to && w.nodes[*node].tainted.is_none() => {
                    let (m, h) = (w.nodes[*node].m.clone(), w.nodes[*node].hist);
                    let mut old = std::mem::take(&mut w.nodes[*to].g);
                    let nd = &w.nodes[*node];
                    // over another graph, or anew
                    let c = match w.ctx.real(&["C08"], "clone", || if *over { old.clone_from(&nd.g); old } else { nd.g.clone() }) { Some(c) => c, None => return };
                    let t = &mut w.nodes[*to];
                    t.g = c; t.m = m.clone(); t.hist = h | H_MAINT; t.tainted = None;
                    w.ctx.note(|| format!("clone {} to {}", node, to));
                    w.state(*to, &["C08"], "clone", &m, h, None);
                }
                Step::Export { node } if *node < nn && w.nodes[*node].tainted.is_none() => {
                    let nd = &w.nodes[*node];
                    let ks = match w.ctx.real(&["C05"], "exporting", || nd.g.iter().map(|k| read_k(&k)).collect::<Vec<_>>()) { Some(k) => k, None => return };
                    let want = nd.m.pairs();
                    let mut norm: Vec<K> = ks.iter().map(|k| if k.i <= k.j { *k } else { k.rev() }).collect();
                    norm.sort_by_key(|k| (k.i, k.j));
                    w.ctx.note(|| format!("export {} -> {:?}", node, ks));
                    if !w.ctx.check(norm == want, &["C05"], "export", || format!("graph {} exports {:?} instead of {:?}", node, norm, want)) { return; }
                    let m = w.nodes[*node].m.clone();
                    w.nodes[*node].export = Some((ks, m));
                }
                Step::Crash { node, lost, mode, salt, finish } if *node < nn => w.crash(*node, lost, *mode, *salt, *finish),
                Step::Query { node } if *node < nn => w.query(*node),
                Step::Converge => {
                    // every replica got everything: they must agree on every pair
                    let ok: Vec<usize> = (0..nn).filter(|x| w.nodes[*x].tainted.is_none()).collect();
                    if ok.iter().any(|x| w.nodes[*x].m.pairs() != w.nodes[ok[0]].m.pairs()) { continue; } // minimised trace
                    w.ctx.probe("converged");
                    for x in &ok[1.min(ok.len())..] {
                        let (a, b) = (&w.nodes[ok[0]].g, &w.nodes[*x].g);
                        let n = a.size().max(b.size());
                        let same = (0..n).all(|i| (0..n).all(|j| i == j || a.timespan(i, j) == b.timespan(i, j)));
                        w.ctx.check(same, &["C01"], "divergence", || format!("replicas {} and {} received the same constraints but differ", ok[0], x));
                    }
                }
                _ => {}
            }
            let _ = w.deep;
        }
    }

    fn plan(r: &mut Rng, focus: &str, tier: Tier) -> Plan<Cfg, Step> {
        let mut p = Planner::new(r, focus, tier);
        let cluster = match focus { "C01" => r.chance(6, 10), "C05" => r.chance(4, 10), "C06" => r.chance(3, 10), "C04" => r.chance(2, 10), _ => r.chance(1, 10) };
        if cluster && p.n < 250 { p.cluster(r) } else { p.history(r) }
        Plan { cfg: p.cfg, steps: p.steps, faults: p.faults, sim_us: p.sim_us }
    }

    fn simpler(s: &Step) -> Vec<Step> {
        let mut v = vec![];
        let simpler_k = |k: &K| -> Vec<K> {
            let mut v = vec![];
            for l in shrink_num(k.l) { v.push(K { l, ..*k }); }
            for u in shrink_num(k.u) { v.push(K { u, ..*k }); }
            if k.l != NEG { v.push(K { l: NEG, ..*k }); }
            if k.u != INF { v.push(K { u: INF, ..*k }); }
            for i in [0, 1, k.i.saturating_sub(1)] { if i < k.i { v.push(K { i, ..*k }); } }
            for j in [0, 1, k.j.saturating_sub(1)] { if j < k.j { v.push(K { j, ..*k }); } }
            v
        };
        match s {
            Step::Add { node, k, form } => {
                if *form != 0 { v.push(Step::Add { node: *node, k: *k, form: 0 }); }
                if *node != 0 { v.push(Step::Add { node: 0, k: *k, form: *form }); }
                for k in simpler_k(k) { v.push(Step::Add { node: *node, k, form: *form }); }
            }
            Step::Batch { node, id, ks, form, hint, cut } => {
                for x in 0..ks.len() {
                    let mut ks = ks.clone();
                    ks.remove(x);
                    v.push(Step::Batch { node: *node, id: *id, ks, form: *form, hint: *hint, cut: cut.clone() });
                }
                if cut.is_some() { v.push(Step::Batch { node: *node, id: *id, ks: ks.clone(), form: *form, hint: *hint, cut: None }); }
                if *form != 0 { v.push(Step::Batch { node: *node, id: *id, ks: ks.clone(), form: 0, hint: *hint, cut: cut.clone() }); }
                if *hint != 0 { v.push(Step::Batch { node: *node, id: *id, ks: ks.clone(), form: *form, hint: 0, cut: cut.clone() }); }
                for x in 0..ks.len() { for k in simpler_k(&ks[x]) {
                    let mut ks = ks.clone();
                    ks[x] = k;
                    v.push(Step::Batch { node: *node, id: *id, ks, form: *form, hint: *hint, cut: cut.clone() });
                } }
            }
            Step::MergeBuilt { node, size, ks } => {
                for x in 0..ks.len() { let mut ks = ks.clone(); ks.remove(x); v.push(Step::MergeBuilt { node: *node, size: *size, ks }); }
                if *size > 0 { v.push(Step::MergeBuilt { node: *node, size: size - 1, ks: ks.clone() }); }
                for x in 0..ks.len() { for k in simpler_k(&ks[x]) { let mut ks = ks.clone(); ks[x] = k; v.push(Step::MergeBuilt { node: *node, size: *size, ks }); } }
            }
            Step::Resize { node, n } => { for m in [0, 1, n / 2, n.saturating_sub(1)] { if m < *n { v.push(Step::Resize { node: *node, n: m }); } } }
            Step::Crash { node, lost, mode, salt, finish } => {
                if !lost.is_empty() { v.push(Step::Crash { node: *node, lost: vec![], mode: *mode, salt: *salt, finish: *finish }); }
                if *mode != 0 { v.push(Step::Crash { node: *node, lost: lost.clone(), mode: 0, salt: *salt, finish: *finish }); }
                if *salt != 0 { v.push(Step::Crash { node: *node, lost: lost.clone(), mode: *mode, salt: 0, finish: *finish }); }
            }
            _ => {}
        }
        v
    }
    fn simpler_cfg(c: &Cfg) -> Vec<Cfg> {
        let mut v = vec![];
        for x in 0..c.sizes.len() { if c.sizes[x] > 0 { let mut c = c.clone(); c.sizes[x] = 0; v.push(c.clone()); c.sizes[x] = 1; v.push(c); } }
        if c.nodes > 1 { let mut c = c.clone(); c.nodes -= 1; v.push(c); }
        v
    }
}

// ------------------------------------------------------------------ planning

struct PNode { g: Mg, export: Option<usize>, have: BTreeMap<usize, bool>, saved: Vec<usize> }

struct Planner {
    cfg: Cfg, steps: Vec<Step>, faults: Faults, sim_us: u64,
    n: u32,          // instants
    hidden: Vec<i64>,
    scale: i64,
    nodes: Vec<PNode>,
    focus: String,
    batch_id: u32,
    len: usize,
}

impl Planner {
    fn new(r: &mut Rng, focus: &str, tier: Tier) -> Planner {
        let big = tier == Tier::Thorough;
        let n: u32 = if r.chance(1, 2000) { if matches!(focus, "C01" | "C02" | "C04" | "C08") && r.chance(1, 20) { 250 + r.below(30) as u32 } else { 50 + r.below(50) as u32 } } else { match r.below(100) {
            0..=9 => 2 + r.below(2) as u32,
            10..=69 => 3 + r.below(4) as u32,
            70..=94 => 6 + r.below(6) as u32,
            95..=98 => 12 + r.below(13) as u32,
            _ => if big { 30 + r.below(60) as u32 } else { 25 + r.below(25) as u32 },
        } };
        let nn = n as i64 + 6;
        let max = (1i64 << 58) / (nn * nn);
        let scale = match r.below(6) { 0 | 1 => 1, 2 => 1 << 10, 3 => (1i64 << 30).min(max), 4 => (3600i64 << 30).min(max), _ => max };
        let hidden = (0..n as usize + 6).map(|_| r.range(-20, 20) * scale / 20 + if scale > 20 { r.range(-9, 9) } else { r.range(-8, 8) }).collect();
        let nodes = match r.below(10) { 0..=3 => 1, 4..=6 => 2, 7 | 8 => 3, _ => 4 };
        let sizes = (0..nodes).map(|_| match r.below(4) { 0 => 0, 1 => n, 2 => r.below(n as u64 + 1) as u32, _ => 0 }).collect::<Vec<u32>>();
        let len = if n > 49 { 6 + r.idx(8) } else if n < 8 && r.chance(1, 200) { 100 + r.idx(300) } else if n > 11 { 8 + r.idx(20) } else { 8 + r.idx(if big { 90 } else { 45 }) };
        Planner {
            nodes: sizes.iter().map(|s| PNode { g: Mg::new(*s as usize), export: None, have: BTreeMap::new(), saved: vec![] }).collect(),
            cfg: Cfg { nodes, sizes, deep: big }, steps: vec![], faults: Faults::new(), sim_us: 0, n, hidden, scale,
            focus: focus.to_string(), batch_id: 0, len,
        }
    }

    fn width(&self, r: &mut Rng) -> i64 {
        match r.below(6) { 0 => 0, 1 => 1, 2 => r.range(0, 5), _ => r.range(0, 10) * (self.scale / 10).max(1) + r.range(0, 3) }
    }

    /// consistent with the hidden dates, between instants below n
    fn hidden_k(&self, r: &mut Rng, n: u32) -> K {
        let n = n.max(2);
        let i = r.below(n as u64) as u32;
        let mut j = r.below(n as u64 - 1) as u32;
        if j >= i { j += 1 }
        let d = self.hidden[j as usize] - self.hidden[i as usize];
        let (a, b) = (self.width(r), self.width(r));
        match r.below(10) {
            0 | 1 => K { i, j, l: d - a, u: INF },
            2 | 3 => K { i, j, l: NEG, u: d + b },
            4 => K { i, j, l: d, u: d },
            _ => K { i, j, l: d - a, u: d + b },
        }
    }

    fn special_k(&self, r: &mut Rng, g: &Mg) -> K {
        let n = g.n as u32;
        if n < 2 { return self.hidden_k(r, self.n); }
        let i = r.below(n as u64) as u32;
        let mut j = r.below(n as u64 - 1) as u32;
        if j >= i { j += 1 }
        let (l, u) = g.span(i as usize, j as usize);
        let w = self.width(r);
        match r.below(16) {
            0 => K { i, j, l: if l == NEG { NEG } else { l - w }, u: if u == INF { INF } else { u + self.width(r) } }, // redundant
            1 => K { i, j, l, u },
            2 if u != INF => K { i, j, l: u, u: if r.coin() { INF } else { u + w } },     // just consistent
            3 if l != NEG => K { i, j, l: if r.coin() { NEG } else { l - w }, u: l },
            4 if u != INF => K { i, j, l: u + 1, u: if r.coin() { INF } else { u + 1 + w } }, // just inconsistent
            5 if l != NEG => K { i, j, l: if r.coin() { NEG } else { l - 1 - w }, u: l - 1 },
            6 if u != INF => K { i, j, l: u + 1 + self.scale * 3, u: INF },
            7 if l != NEG && u != INF && l < u => { let c = r.range(l, u); let d = r.range(c, u); K { i, j, l: c, u: d } } // inside
            8 => { let s = r.below(n as u64 + 2) as u32; let a = r.range(-2, 2); K { i: s, j: s, l: a, u: a + r.range(0, 2) } } // self
            9 => { let s = r.below(n as u64 + 2) as u32; *r.pick(&[K { i: s, j: s, l: NEG, u: INF }, K { i: s, j: s, l: 0, u: 0 }, K { i: s, j: s, l: NEG, u: 0 }, K { i: s, j: s, l: 0, u: INF }, K { i: s, j: s, l: 1, u: INF }, K { i: s, j: s, l: NEG, u: -1 }]) }
            10 if r.chance(1, 8) => { let x = if r.coin() { INF } else { NEG }; K { i, j, l: x, u: x } } // no delay at all
            10 => { let x = r.range(-5, 5); let (i, j) = if r.coin() { (i, j) } else { (i, r.below(n as u64 + 3) as u32) }; K { i, j, l: x + 1 + if r.coin() { 0 } else { w }, u: x } } // empty
            11 => K { i, j, l: NEG, u: INF },
            12 if l != NEG && u != INF => K { i, j, l: l + r.range(0, 1), u: u - r.range(0, 1) },
            _ => { let d = self.hidden[j as usize % self.hidden.len()] - self.hidden[i as usize % self.hidden.len()]; let a = self.width(r); let off = r.range(-2, 2) * (self.scale / 4).max(1); K { i, j, l: d + off, u: d + off + a } }
        }
    }

    fn cap(&self, k: &K) -> bool {
        let b = (1i64 << 59) / (self.n as i64 + 6);
        (k.l == NEG || k.l.abs() < b) && (k.u == INF || k.u.abs() < b) || k.l == k.u && k.l.abs() == INF
    }

    fn form(&self, r: &mut Rng) -> u8 { r.below(5) as u8 }

    fn push(&mut self, s: Step) { self.steps.push(s) }

    fn do_add(&mut self, r: &mut Rng, x: usize, k: K) {
        if !self.cap(&k) { return; }
        let form = self.form(r);
        if let Some(m) = self.nodes[x].g.with(&[k]) { self.nodes[x].g = m; }
        self.push(Step::Add { node: x, k, form });
    }

    fn do_batch(&mut self, r: &mut Rng, x: usize, ks: Vec<K>) {
        let ks: Vec<K> = ks.into_iter().filter(|k| self.cap(k)).collect();
        self.batch_id += 1;
        let id = self.batch_id;
        let form = self.form(r);
        let hint = r.below(6) as u8;
        let cuts = if self.focus == "C06" { if r.chance(7, 10) { 1 + r.idx(3) } else { 0 } } else if r.chance(1, 8) { 1 } else { 0 };
        for _ in 0..cuts {
            let item = r.idx(ks.len() + 1);
            let access = if r.coin() { Some(r.below(9) as u8) } else { None };
            self.push(Step::Batch { node: x, id, ks: ks.clone(), form, hint, cut: Some(Cut { item, access }) });
            // something else happens elsewhere before the retry
            if self.nodes.len() > 1 && r.chance(1, 3) {
                let y = (x + 1 + r.idx(self.nodes.len() - 1)) % self.nodes.len();
                let k = self.hidden_k(r, self.n);
                self.do_add(r, y, k);
            }
        }
        let g = &self.nodes[x].g;
        let after = if ks.is_empty() { Some(g.clone()) } else { g.with(&ks) };
        let one = ks.len() == 1;
        match after {
            Some(m) => self.nodes[x].g = m,
            // whether a single constraint is refused or fatal is not specified: the plan
            // supposes it is refused when the size hint tells it is alone
            None => if !(one && (hint == 0 || hint == 3)) { self.nodes[x].g = Mg::new(0) },
        }
        self.push(Step::Batch { node: x, id, ks, form, hint, cut: None });
    }

    fn random_batch(&mut self, r: &mut Rng, x: usize, bad: bool) -> Vec<K> {
        let len = match r.below(8) { 0 => 0, 1 => 1, 2 => 2, 3 | 4 => 3 + r.idx(3), 5 | 6 => 5 + r.idx(8), _ => if r.chance(1, 20) { 40 + r.idx(120) } else { 12 + r.idx(20) } };
        let top = self.n + if r.chance(1, 5) { r.below(4) as u32 } else { 0 };
        let mut ks: Vec<K> = (0..len).map(|_| self.hidden_k(r, top)).collect();
        if r.chance(1, 4) && !ks.is_empty() { let d = *r.pick(&ks); ks.push(d); }
        if bad {
            let g = self.nodes[x].g.with(&ks);
            if let Some(g) = if ks.is_empty() { Some(self.nodes[x].g.clone()) } else { g } {
                let pos = r.idx(ks.len() + 1);
                let pairs = g.pairs();
                if r.chance(1, 5) { ks.insert(pos, K { i: 0, j: r.below(3) as u32, l: 5, u: r.range(-5, 4) }); }
                else if !pairs.is_empty() {
                    let k = r.pick(&pairs);
                    let b = if k.u != INF && (k.l == NEG || r.coin()) { K { i: k.i, j: k.j, l: k.u + 1, u: INF } } else { K { i: k.i, j: k.j, l: NEG, u: k.l - 1 } };
                    ks.insert(pos, b);
                }
                else { ks.insert(pos, K { i: 1, j: 1, l: 1, u: 3 }); }
            }
        }
        ks
    }

    fn do_crash(&mut self, r: &mut Rng, x: usize, exp: usize) {
        // positions of the export which were not durable
        let lost: Vec<usize> = match r.below(4) {
            0 | 1 => vec![],
            2 => { let k = r.idx(exp + 1); (k..exp).collect() } // truncated
            _ => (0..exp).filter(|_| r.chance(1, 4)).collect(), // lost pages
        };
        let (mode, salt, finish) = (r.below(9) as u8, r.next() >> 1, r.chance(3, 4));
        self.push(Step::Crash { node: x, lost, mode, salt, finish });
    }

    /// clients and operators acting on a few graphs, in the order the kernel decides
    fn history(&mut self, r: &mut Rng) {
        let clients = 1 + r.idx(4);
        let mut k: Kernel<()> = Kernel::new(clients, NetCfg::random(r));
        for c in 0..clients { k.timer(c, r.below(1000), ()); }
        // swarm: a random subset of operations, biased by the property under check
        let f = self.focus.clone();
        let mut w: Vec<u32> = vec![
            30,                                                  // 0 hidden constraint
            if f == "C02" || f == "C04" { 45 } else { 12 },      // 1 special constraint
            if f == "C03" || f == "C06" || f == "C01" { 25 } else { 10 }, // 2 good batch
            if f == "C03" { 14 } else if f == "C08" || f == "C06" { 4 } else { 2 }, // 3 bad batch
            if f == "C03" || f == "C04" || f == "C01" { 12 } else { 4 },  // 4 merge of graphs
            if f == "C03" || f == "C04" || f == "C01" { 12 } else { 4 },  // 5 merge of a built graph
            if f == "C08" { 25 } else { 5 },                     // 6 resize
            if f == "C08" { 6 } else { 1 },                      // 7 reset
            if f == "C08" { 12 } else { 2 },                     // 8 shrink_to_fit
            if f == "C08" { 5 } else { 1 },                      // 9 shrink_to
            if f == "C08" { 10 } else { 3 },                     // 10 clone
            if f == "C05" { 15 } else { 2 },                     // 11 export
            if f == "C05" { 12 } else { 2 },                     // 12 crash
            8,                                                   // 13 query
            if f == "C02" { 8 } else { 2 },                      // 14 new instant with special bounds
        ];
        for x in w.iter_mut() { if *x < 10 && r.chance(1, 3) { *x = 0 } }
        // (rebuilding such a graph constraint by constraint takes too long)
        if self.n >= 250 { w[11] = 0; w[12] = 0; }
        w[0] = w[0].max(10);
        while self.steps.len() < self.len {
            let c = match k.pop() { Some(Ev::Timer { node, .. }) => node, Some(Ev::Deliver { to, .. }) => to, None => break };
            k.timer(c, 1 + r.below(2000), ());
            let x = r.idx(self.nodes.len());
            match r.weighted(&w) {
                0 => { let q = self.hidden_k(r, self.n); self.do_add(r, x, q) }
                1 => { let g = self.nodes[x].g.clone(); let q = self.special_k(r, &g); self.do_add(r, x, q) }
                2 => { let b = self.random_batch(r, x, false); self.do_batch(r, x, b) }
                3 => { let b = self.random_batch(r, x, true); self.do_batch(r, x, b) }
                4 if self.nodes.len() > 1 || r.chance(1, 4) => {
                    let y = r.idx(self.nodes.len());
                    let m = self.nodes[x].g.merged(&self.nodes[y].g);
                    self.nodes[x].g = m.unwrap_or(Mg::new(0));
                    self.push(Step::Merge { node: x, with: y });
                }
                5 => {
                    let size = r.below(self.n as u64 + 3) as u32;
                    let top = if r.coin() { self.n } else { (self.n / 2).max(2) };
                    let mut ks: Vec<K> = (0..r.idx(5)).map(|_| self.hidden_k(r, top)).collect();
                    if r.chance(1, 5) {
                        let g = self.nodes[x].g.clone();
                        let q = self.special_k(r, &g);
                        if Mg::new(size as usize).with(&[q]).is_some() { ks = vec![q]; }
                    }
                    ks.retain(|k| self.cap(k));
                    if let Some(o) = if ks.is_empty() { Some(Mg::new(size as usize)) } else { Mg::new(size as usize).with(&ks) } {
                        self.nodes[x].g = self.nodes[x].g.merged(&o).unwrap_or(Mg::new(0));
                        self.push(Step::MergeBuilt { node: x, size, ks });
                    }
                }
                6 => {
                    let n = match r.below(4) { 0 => r.below(3) as u32, 1 => self.n + r.below(5) as u32, _ => r.below(self.n as u64 + 2) as u32 };
                    self.nodes[x].g.resize(n as usize);
                    self.push(Step::Resize { node: x, n });
                }
                7 => { self.nodes[x].g.reset(); self.push(Step::Reset { node: x }) }
                8 => { self.nodes[x].g.shrink_fit(); self.push(Step::ShrinkFit { node: x }) }
                9 => { let n = r.below(2 * self.n as u64) as u32; self.push(Step::ShrinkTo { node: x, n }) }
                10 if self.nodes.len() > 1 => {
                    let y = (x + 1 + r.idx(self.nodes.len() - 1)) % self.nodes.len();
                    self.nodes[y].g = self.nodes[x].g.clone();
                    self.push(Step::Clone { node: x, to: y, over: r.coin() });
                }
                11 => { self.nodes[x].export = Some(self.nodes[x].g.pairs().len()); self.nodes[x].saved = vec![]; self.push(Step::Export { node: x }) }
                12 => {
                    let e = self.nodes[x].export.unwrap_or(0);
                    self.do_crash(r, x, e);
                    // the plan only needs an approximation of what survives
                    self.nodes[x].g = Mg::new(0);
                }
                13 => self.push(Step::Query { node: x }),
                14 => {
                    let n = self.nodes[x].g.n as u32;
                    let j = n + r.below(3) as u32;
                    let i = if r.chance(1, 5) { j } else { r.below(j as u64 + 1) as u32 };
                    let (l, u) = *r.pick(&[(1, 3), (0, 0), (NEG, INF), (NEG, 4), (-7, INF), (3, 1), (-2, -1), (5, 5)]);
                    let q = if r.coin() { K { i, j, l, u } } else { K { i: j, j: i, l, u } };
                    if j < self.hidden.len() as u32 + 6 { self.do_add(r, x, q) }
                }
                _ => {}
            }
        }
        for x in 0..self.nodes.len() { self.push(Step::Query { node: x }); }
        self.sim_us = k.now;
        self.faults = k.faults;
    }

    /// replicas of one set of constraints, over a faulty network, with crashes
    fn cluster(&mut self, r: &mut Rng) {
        let nn = self.nodes.len();
        #[derive(Clone)]
        enum M { K(usize), Ack(usize), Retry(usize, usize), Flush, Gossip, Snap(Vec<K>, u32), Save, Crash, Part, Heal, Client, End }
        let cs: Vec<K> = (0..3 + r.idx(if self.n > 11 { 12 } else { 22 })).map(|_| self.hidden_k(r, self.n)).collect();
        let cap = self.len * 2 + 40;
        let mut k: Kernel<M> = Kernel::new(nn + 1, NetCfg::random(r)); // node nn: the clients
        let mut acked = vec![vec![false; nn]; cs.len()];
        let mut inbox: Vec<Vec<usize>> = vec![vec![]; nn];
        let grouped: Vec<bool> = (0..nn).map(|_| r.coin()).collect();
        let mut t = 0;
        for c in 0..cs.len() { t += r.below(3000); k.timer(nn, t, M::Client); let _ = c; }
        let mut sent = 0;
        for x in 0..nn {
            if grouped[x] { k.timer(x, r.below(4000), M::Flush); }
            if nn > 1 && r.coin() { k.timer(x, 3000 + r.below(20_000), M::Gossip); }
            if r.chance(1, 3) || self.focus == "C05" { k.timer(x, 2000 + r.below(15_000), M::Save); }
            if r.chance(1, 4) || self.focus == "C05" { k.timer(x, 8000 + r.below(30_000), M::Crash); }
        }
        if nn > 1 && r.coin() { k.timer(nn, r.below(20_000), M::Part); k.timer(nn, 20_000 + r.below(30_000), M::Heal); }
        let end = 90_000;
        k.timer(nn, end, M::End);
        let mut ended = false;
        while let Some(ev) = k.pop() {
            if self.steps.len() > cap && !ended { continue_to_end(&mut k.quiet); }
            match ev {
                Ev::Timer { msg: M::Client, .. } => {
                    if sent < cs.len() {
                        let c = sent;
                        sent += 1;
                        for x in 0..nn { k.send(r, nn, x, M::K(c)); k.timer(nn, 6000, M::Retry(c, x)); }
                    }
                }
                Ev::Timer { msg: M::Retry(c, x), .. } => {
                    if !acked[c][x] && !ended { k.fault("retransmission"); k.send(r, nn, x, M::K(c)); k.timer(nn, 6000, M::Retry(c, x)); }
                }
                Ev::Deliver { to, msg: M::K(c), .. } if to < nn => {
                    if grouped[to] { inbox[to].push(c) } else { self.do_add(r, to, cs[c]); self.nodes[to].have.insert(c, true); }
                    k.send(r, to, nn, M::Ack(c));
                    // several nodes share the ack message: remember who acked
                    acked[c][to] = true;
                }
                Ev::Deliver { msg: M::Ack(_), .. } => {}
                Ev::Timer { node, msg: M::Flush } => {
                    let ids = std::mem::take(&mut inbox[node]);
                    if !ids.is_empty() {
                        let b: Vec<K> = ids.iter().map(|c| cs[*c]).collect();
                        self.do_batch(r, node, b);
                        for c in ids { self.nodes[node].have.insert(c, true); }
                    }
                    if !ended { k.timer(node, 1000 + r.below(8000), M::Flush); }
                }
                Ev::Timer { node, msg: M::Gossip } => {
                    let to = (node + 1 + r.idx(nn - 1)) % nn;
                    let snap = self.nodes[node].g.pairs();
                    k.send(r, node, to, M::Snap(snap, self.nodes[node].g.n as u32));
                    if !ended { k.timer(node, 5000 + r.below(20_000), M::Gossip); }
                }
                Ev::Deliver { to, msg: M::Snap(ks, n), .. } if to < nn => {
                    if let Some(o) = if ks.is_empty() { Some(Mg::new(n as usize)) } else { Mg::new(n as usize).with(&ks) } {
                        self.nodes[to].g = self.nodes[to].g.merged(&o).unwrap_or(Mg::new(0));
                        if r.coin() { self.push(Step::MergeBuilt { node: to, size: n, ks }); }
                        else { let id = { self.batch_id += 1; self.batch_id }; let hint = r.below(6) as u8; self.nodes[to].g = self.nodes[to].g.clone(); self.push(Step::Batch { node: to, id, ks, form: 0, hint, cut: None }); }
                    }
                }
                Ev::Timer { node, msg: M::Save } => {
                    self.nodes[node].export = Some(self.nodes[node].g.pairs().len());
                    self.push(Step::Export { node });
                    if !ended { k.timer(node, 5000 + r.below(20_000), M::Save); }
                }
                Ev::Timer { node, msg: M::Crash } => {
                    k.fault("crash_restart");
                    let e = self.nodes[node].export.unwrap_or(0);
                    self.do_crash(r, node, e);
                    self.nodes[node].g = Mg::new(0);
                    // what was received since is lost: everything will be sent again
                    inbox[node].clear();
                    for c in 0..cs.len() { if acked[c][node] { acked[c][node] = false; k.timer(nn, 3000, M::Retry(c, node)); } }
                    if !ended && r.chance(1, 2) { k.timer(node, 15_000 + r.below(30_000), M::Crash); }
                }
                Ev::Timer { msg: M::Part, .. } => { k.partition(r); }
                Ev::Timer { msg: M::Heal, .. } => { k.heal(); }
                Ev::Timer { msg: M::End, .. } => {
                    // faults stop: everything still missing is delivered
                    ended = true;
                    k.quiet = true;
                    k.heal();
                    for x in 0..nn {
                        let mut order: Vec<usize> = (0..cs.len()).collect();
                        r.shuffle(&mut order);
                        if r.coin() { for c in order { self.do_add(r, x, cs[c]); } }
                        else { let b: Vec<K> = order.iter().map(|c| cs[*c]).collect(); self.do_batch(r, x, b); }
                    }
                    break;
                }
                _ => {}
            }
            if self.steps.len() > cap { self.close_cluster(r, &cs); break; }
        }
        self.push(Step::Converge);
        for x in 0..nn { self.push(Step::Query { node: x }); }
        self.sim_us = k.now;
        self.faults = std::mem::take(&mut k.faults);
    }

    fn close_cluster(&mut self, r: &mut Rng, cs: &[K]) {
        for x in 0..self.nodes.len() {
            let mut b = cs.to_vec();
            r.shuffle(&mut b);
            self.do_batch(r, x, b);
        }
    }
}

fn continue_to_end(q: &mut bool) { *q = true }
