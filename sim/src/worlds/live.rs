//! A constraint edited by another party while it is being added: every accessor call is a
//! scheduling point where the scripted edits of the other party take place (C07), or where the
//! addition is interrupted (C24).
use super::graph::{diff, real_add, tv, Source};
use crate::engine::*;
use crate::model::is::{INF, NEG};
use crate::model::mg::{Mg, K};
use crate::net::Faults;
use crate::rng::Rng;
use chronologic::graph::*;
use chronologic::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// at the given accessor call, the other party sets a field (0 from, 1 to, 2 lower, 3 upper)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Edit { at: u8, field: u8, value: i64 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Item { k: K, edits: Vec<Edit> }

#[derive(Default, Debug)]
struct Answers { from: Vec<u32>, to: Vec<u32>, lower: Vec<i64>, upper: Vec<i64>, empty: bool }
fn ins<T: PartialEq>(v: &mut Vec<T>, x: T) { if !v.contains(&x) { v.push(x) } }

struct LiveK { cut: u32, k: Cell<K>, calls: Cell<u32>, edits: Vec<Edit>, ans: Rc<RefCell<Answers>>, fired: Rc<Cell<u32>> }
impl LiveK {
    fn tick(&self) -> K {
        let c = self.calls.get();
        self.calls.set(c + 1);
        if c == self.cut { inject() }
        for e in &self.edits {
            if e.at as u32 == c {
                let mut k = self.k.get();
                match e.field { 0 => k.i = e.value as u32, 1 => k.j = e.value as u32, 2 => k.l = e.value, _ => k.u = e.value }
                self.k.set(k);
                if c > 0 { self.fired.set(self.fired.get() + 1); }
            }
        }
        self.k.get()
    }
}
impl TimeBounds for LiveK {
    type TimePoint = TimeValue;
    fn is_empty(&self) -> bool { let e = self.tick().is_empty(); if e { self.ans.borrow_mut().empty = true } e }
    fn is_low_bounded(&self) -> bool { let k = self.tick(); let b = !k.is_empty() && k.l != NEG; if !b { ins(&mut self.ans.borrow_mut().lower, NEG) } b }
    fn is_up_bounded(&self) -> bool { let k = self.tick(); let b = !k.is_empty() && k.u != INF; if !b { ins(&mut self.ans.borrow_mut().upper, INF) } b }
    fn lower_bound(&self) -> TimeValue { let k = self.tick(); ins(&mut self.ans.borrow_mut().lower, k.l); tv(k.l) }
    fn upper_bound(&self) -> TimeValue { let k = self.tick(); ins(&mut self.ans.borrow_mut().upper, k.u); tv(k.u) }
}
impl TimeConvex for LiveK {}
impl TimeConstraint for LiveK {
    fn from(&self) -> Instant { let k = self.tick(); ins(&mut self.ans.borrow_mut().from, k.i); k.i }
    fn to(&self) -> Instant { let k = self.tick(); ins(&mut self.ans.borrow_mut().to, k.j); k.j }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step { Plain { k: K }, Live { item: Item }, Batch { items: Vec<Item>, hint: u8 },
    /// constraints added alone or in a batch, the addition being interrupted at some access of one
    /// of them (some times), then submitted again
    Cut { ks: Vec<K>, batch: bool, hint: u8, ats: Vec<(u8, u8)> } }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg { size: u32 }

/// every constraint made of parts which were answered
fn combos(a: &Answers) -> Vec<K> {
    let mut v = vec![];
    for i in &a.from { for j in &a.to { for l in &a.lower { for u in &a.upper { v.push(K { i: *i, j: *j, l: *l, u: *u }) } } } }
    v
}

pub struct Live;
impl World for Live {
    const NAME: &'static str = "live";
    type Cfg = Cfg;
    type Step = Step;

    fn exec(cfg: &Cfg, steps: &[Step], ctx: &mut Ctx) {
        const P: &[&str] = &["C07"];
        let mut g = TimeGraph::with_size(cfg.size);
        let mut m = Mg::new(cfg.size as usize);
        for (si, s) in steps.iter().enumerate() {
            if ctx.stopped() { return; }
            ctx.begin(si);
            match s {
                Step::Plain { k } => {
                    let r = match ctx.real(P, "propagate", || real_add(&mut g, k, 0)) { Some(r) => r, None => return };
                    ctx.note(|| format!("add {:?} -> {}", k, r));
                    let after = m.with(&[*k]);
                    if !ctx.check(r.starts_with("Ok") == after.is_some(), P, "admission", || format!("adding {:?} gave {}", k, r)) { return; }
                    if let Some(a) = after { m = a }
                    let d = match ctx.real(P, "reading the graph", || diff(&g, &m)) { Some(d) => d, None => return };
                    if !ctx.check(d.is_none(), P, "state:plain", || format!("after adding {:?}: {}", k, d.unwrap())) { return; }
                }
                Step::Live { item } => {
                    let (ans, fired) = (Rc::new(RefCell::new(Answers::default())), Rc::new(Cell::new(0)));
                    let lk = LiveK { cut: u32::MAX, k: Cell::new(item.k), calls: Cell::new(0), edits: item.edits.clone(), ans: ans.clone(), fired: fired.clone() };
                    let r = match ctx.real(P, "propagate", || format!("{:?}", g.propagate(lk))) { Some(r) => r, None => return };
                    for _ in 0..fired.get() { ctx.fault("edit_between_reads"); }
                    ctx.note(|| format!("live {:?} -> {}", item, r));
                    let a = ans.borrow();
                    let cs = combos(&a);
                    if cs.len() > 1 { ctx.probe("several_answers"); }
                    if cs.len() > 20_000 { ctx.probe("too_many_answers"); return; }
                    if r.starts_with("Ok") {
                        let mut ok = None;
                        for c in &cs { if let Some(x) = m.with(&[*c]) { if diff_quiet(&g, &x) { ok = Some(x); break; } } }
                        if !ctx.check(ok.is_some(), P, "snapshot", || format!("adding {:?} (answers {:?}) gave {} but the graph is not the previous one plus one constraint which was answered: {}", item, a, r, show(&g))) { return; }
                        m = ok.unwrap();
                        ctx.probe("live_accepted");
                    } else {
                        ctx.probe("live_refused");
                        let may = a.empty || cs.iter().any(|c| m.with(&[*c]).is_none());
                        if !ctx.check(may && r == "Err(Recovered)", P, "refusal", || format!("adding {:?} (answers {:?}) gave {} but no answered constraint is inconsistent", item, a, r)) { return; }
                        let d = match ctx.real(P, "reading the graph", || diff(&g, &m)) { Some(d) => d, None => return };
                        if !ctx.check(d.is_none(), P, "state:refused", || format!("refusing {:?}: {}", item, d.unwrap())) { return; }
                    }
                    ctx.state(m.hash());
                }
                Step::Cut { ks, batch, hint, ats } => {
                    const P: &[&str] = &["C24"];
                    if ks.is_empty() { continue; }
                    let item = |x: usize, at: Option<(u8, u8)>| LiveK { cut: match at { Some((y, a)) if y as usize % ks.len() == x => a as u32, _ => u32::MAX }, k: Cell::new(ks[x]), calls: Cell::new(0), edits: vec![], ans: Default::default(), fired: Default::default() };
                    let all = |at: Option<(u8, u8)>| -> Vec<LiveK> { (0..ks.len()).map(|x| item(x, at)).collect() };
                    let go = |g: &mut TimeGraph, at: Option<(u8, u8)>| -> String { if *batch { format!("{:?}", g.extend(Source::new(all(at), *hint, None))) } else { format!("{:?}", g.propagate(item(0, at))) } };
                    let mut other = match ctx.real(P, "clone", || g.clone()) { Some(o) => o, None => return };
                    for at in ats {
                        let at = (if *batch { at.0 } else { 0 }, at.1);
                        match guarded(P, "an interrupted addition", || go(&mut g, Some(at))) {
                            Err(Caught::Panic(p)) => { ctx.fail(P, "panic:interrupted", p); return }
                            Err(Caught::Injected) => {
                                ctx.fault(if *batch { "interrupted_batch" } else { "interrupted_addition" });
                                if !*batch {
                                    let d = match ctx.real(P, "reading the graph", || diff(&g, &m)) { Some(d) => d, None => return };
                                    if !ctx.check(d.is_none(), P, "interrupted", || format!("adding {:?} was interrupted at access {} but the graph changed: {}", ks[0], at.1, d.unwrap())) { return; }
                                }
                            }
                            // (the addition is over: started again from the same point)
                            Ok(_) => { ctx.probe("not_interrupted"); g = other.clone(); }
                        }
                    }
                    let r = match ctx.real(P, "adding again", || go(&mut g, None)) { Some(r) => r, None => return };
                    let r2 = match ctx.real(P, "adding", || go(&mut other, None)) { Some(r) => r, None => return };
                    ctx.note(|| format!("{:?} batch {} interrupted at {:?} -> {}", ks, batch, ats, r));
                    let ks = if *batch { &ks[..] } else { &ks[..1] };
                    let after = m.with(ks);
                    if !ctx.check(r == r2, P, "retried:result", || format!("{:?} (batch: {}) interrupted at {:?} then submitted again gave {}, never interrupted it gives {}", ks, batch, ats, r, r2)) { return; }
                    if !ctx.check(r.starts_with("Ok") == after.is_some(), P, "retried:admission", || format!("{:?} (batch: {}) interrupted at {:?} then submitted again gave {}", ks, batch, ats, r)) { return; }
                    match after { Some(a) => m = a, None => if r == "Err(Fatal)" { m = Mg::new(0) } }
                    let d = match ctx.real(P, "reading the graph", || diff(&g, &m)) { Some(d) => d, None => return };
                    if !ctx.check(d.is_none(), P, "retried:state", || format!("{:?} (batch: {}) interrupted at {:?} then submitted again: {}", ks, batch, ats, d.unwrap())) { return; }
                    ctx.state(m.hash());
                }
                Step::Batch { items, hint } => {
                    let anss: Vec<_> = items.iter().map(|_| Rc::new(RefCell::new(Answers::default()))).collect();
                    let fired = Rc::new(Cell::new(0));
                    let ks: Vec<LiveK> = items.iter().zip(&anss).map(|(it, a)| LiveK { cut: u32::MAX, k: Cell::new(it.k), calls: Cell::new(0), edits: it.edits.clone(), ans: a.clone(), fired: fired.clone() }).collect();
                    let r = match ctx.real(P, "extend", || format!("{:?}", g.extend(Source::new(ks, *hint, None)))) { Some(r) => r, None => return };
                    for _ in 0..fired.get() { ctx.fault("edit_between_reads_of_batch"); }
                    ctx.note(|| format!("batch {:?} hint {} -> {}", items, hint, r));
                    // the choices: one constraint per item which was read
                    let mut choices: Vec<Vec<K>> = vec![vec![]];
                    let mut empty = false;
                    let mut read = 0;
                    for a in &anss {
                        let a = a.borrow();
                        empty |= a.empty;
                        let cs = combos(&a);
                        if cs.is_empty() { continue; }
                        read += 1;
                        choices = choices.iter().flat_map(|c| cs.iter().map(move |k| { let mut c = c.clone(); c.push(*k); c })).take(30_000).collect();
                    }
                    if choices.len() > 1 { ctx.probe("several_answers"); }
                    if choices.len() >= 30_000 { ctx.probe("too_many_answers"); return; }
                    if r.starts_with("Ok") {
                        if !ctx.check(read == items.len(), P, "ignored", || format!("batch {:?}: {} constraints of {} were read", items, read, items.len())) { return; }
                        let mut ok = None;
                        for c in &choices { if let Some(x) = if c.is_empty() { Some(m.clone()) } else { m.with(c) } { if diff_quiet(&g, &x) { ok = Some(x); break; } } }
                        if !ctx.check(ok.is_some(), P, "snapshot:batch", || format!("batch {:?} gave {} but the graph is not the previous one plus constraints which were answered ({:?}): {}", items, r, anss, show(&g))) { return; }
                        m = ok.unwrap();
                        ctx.probe("batch_accepted");
                    } else {
                        ctx.probe("batch_refused");
                        let may = empty || choices.iter().any(|c| m.with(c).is_none());
                        if !ctx.check(may, P, "refusal:batch", || format!("batch {:?} (answers {:?}) gave {} but no answered constraint is inconsistent", items, anss, r)) { return; }
                        if r == "Err(Fatal)" { m = Mg::new(0) }
                        let d = match ctx.real(P, "reading the graph", || diff(&g, &m)) { Some(d) => d, None => return };
                        if !ctx.check(d.is_none(), P, "state:refused", || format!("batch {:?} gave {}: {}", items, r, d.unwrap())) { return; }
                    }
                    ctx.state(m.hash());
                }
            }
        }
    }

    fn plan(r: &mut Rng, focus: &str, tier: Tier) -> Plan<Cfg, Step> {
        let size = if r.chance(1, 100) { 8 + r.below(40) as u32 } else if r.chance(1, 4) { 0 } else { r.below(7) as u32 };
        let n = size.max(3) as i64;
        // half of the runs stay around hidden dates, so that most additions are accepted
        let hidden: Vec<i64> = (0..200).map(|_| r.range(-20, 20)).collect();
        let calm = r.chance(2, 3);
        let inst = |r: &mut Rng| -> i64 { match r.below(12) { 0 => n, 1 => n + r.range(0, 3), 2 => r.range(n, n + 30), _ => r.below(n as u64) as i64 } };
        let bounds = |r: &mut Rng, i: i64, j: i64| -> (i64, i64) {
            let d = if calm { hidden[j as usize % 200] - hidden[i as usize % 200] } else { r.range(-25, 25) };
            let (a, b) = (r.range(0, 12), r.range(0, 12));
            match r.below(12) { 0 => (NEG, d + b), 1 => (d - a, INF), 2 => (d, d), 3 => (NEG, INF), 4 => (d + 1 + a, d), _ => (d - a, d + b) }
        };
        let item = |r: &mut Rng| -> Item {
            let (i, j) = (inst(r), inst(r));
            let (l, u) = bounds(r, i, j);
            let ne = match r.below(6) { 0 => 0, 1 | 2 => 1, 3 | 4 => 2, _ => 3 + r.idx(4) };
            let edits = (0..ne).map(|_| {
                let field = r.below(4) as u8;
                let value = match field {
                    0 | 1 => if r.chance(1, 3) { n + r.range(0, 40) } else { inst(r) },
                    _ => { let (a, b) = bounds(r, i, j); if r.coin() { a } else { b } }
                };
                let far = if r.chance(1, 4) { 30 } else { 14 };
                Edit { at: 1 + r.below(far) as u8, field, value: if field == 2 && value == INF { 0 } else if field == 3 && value == NEG { 0 } else { value } }
            }).collect();
            Item { k: K { i: i as u32, j: j as u32, l, u }, edits }
        };
        let len = (2 + r.idx(if tier == Tier::Thorough { 30 } else { 14 })) * if r.chance(1, 150) { 10 } else { 1 };
        let mut steps = vec![];
        for _ in 0..len {
            if focus == "C24" && r.chance(2, 3) {
                let batch = r.coin();
                let k = if batch { 1 + r.idx(6) } else { 1 };
                let ks = (0..k).map(|_| item(r).k).collect();
                let many = if r.coin() { 1 } else { 1 + r.idx(4) };
                steps.push(Step::Cut { ks, batch, hint: r.below(6) as u8, ats: (0..many).map(|_| (r.below(6) as u8, r.below(10) as u8)).collect() });
                continue;
            }
            steps.push(match r.below(10) {
                0..=2 => { let (i, j) = (r.below(n as u64) as i64, r.below(n as u64) as i64); let (l, u) = bounds(r, i, j); Step::Plain { k: K { i: i as u32, j: j as u32, l, u } } }
                3..=6 => Step::Live { item: item(r) },
                _ => {
                    let k = 1 + r.idx(5);
                    let mut live = 0;
                    let items = (0..k).map(|_| { let mut it = item(r); if live >= 2 { it.edits.clear() } if !it.edits.is_empty() { live += 1 } it }).collect();
                    Step::Batch { items, hint: r.below(6) as u8 }
                }
            });
        }
        Plan { cfg: Cfg { size }, steps, faults: Faults::new(), sim_us: 0 }
    }

    fn simpler(s: &Step) -> Vec<Step> {
        let item = |it: &Item| -> Vec<Item> {
            let mut v = vec![];
            for x in 0..it.edits.len() { let mut c = it.clone(); c.edits.remove(x); v.push(c); }
            for x in 0..it.edits.len() { for y in shrink_num(it.edits[x].value) { if it.edits[x].field > 1 || y >= 0 { let mut c = it.clone(); c.edits[x].value = y; v.push(c); } } }
            let k = it.k;
            for l in shrink_num(k.l) { v.push(Item { k: K { l, ..k }, edits: it.edits.clone() }); }
            for u in shrink_num(k.u) { v.push(Item { k: K { u, ..k }, edits: it.edits.clone() }); }
            for i in [0, 1, k.i.saturating_sub(1)] { if i < k.i { v.push(Item { k: K { i, ..k }, edits: it.edits.clone() }) } }
            for j in [0, 1, k.j.saturating_sub(1)] { if j < k.j { v.push(Item { k: K { j, ..k }, edits: it.edits.clone() }) } }
            v
        };
        match s {
            Step::Plain { .. } => vec![],
            Step::Cut { ks, batch, hint, ats } => {
                let mut v = vec![];
                for x in 0..ats.len() { let mut a = ats.clone(); a.remove(x); v.push(Step::Cut { ks: ks.clone(), batch: *batch, hint: *hint, ats: a }); }
                for x in 0..ks.len() { let mut c = ks.clone(); c.remove(x); v.push(Step::Cut { ks: c, batch: *batch, hint: *hint, ats: ats.clone() }); }
                for x in 0..ks.len() { for y in item(&Item { k: ks[x], edits: vec![] }) { let mut c = ks.clone(); c[x] = y.k; v.push(Step::Cut { ks: c, batch: *batch, hint: *hint, ats: ats.clone() }); } }
                if *hint != 1 { v.push(Step::Cut { ks: ks.clone(), batch: *batch, hint: 1, ats: ats.clone() }); }
                v
            }
            Step::Live { item: it } => item(it).into_iter().map(|item| Step::Live { item }).collect(),
            Step::Batch { items, hint } => {
                let mut v = vec![];
                for x in 0..items.len() { let mut c = items.clone(); c.remove(x); v.push(Step::Batch { items: c, hint: *hint }); }
                for x in 0..items.len() { for y in item(&items[x]) { let mut c = items.clone(); c[x] = y; v.push(Step::Batch { items: c, hint: *hint }); } }
                if *hint != 1 { v.push(Step::Batch { items: items.clone(), hint: 1 }); }
                v
            }
        }
    }
    fn simpler_cfg(c: &Cfg) -> Vec<Cfg> { (0..c.size).map(|size| Cfg { size }).collect() }
}

fn diff_quiet(g: &TimeGraph, m: &Mg) -> bool { matches!(guarded(&["C07"], "reading the graph", || diff(g, m).is_none()), Ok(true)) }
fn show(g: &TimeGraph) -> String { guarded(&["C07"], "printing the graph", || format!("{:?}", g)).unwrap_or_default() }
