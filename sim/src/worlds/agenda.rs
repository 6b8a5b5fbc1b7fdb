//! Several clients restricting their own schedulers over one shared graph, forking them,
//! from several threads, and from inside each other's operations, some of them interrupted.
//! (C04, C09, C10, C11, C24)
use super::graph::{diff, twin};
use crate::engine::*;
use crate::model::is::{n as shown, Is, INF, NEG};
use crate::model::mg::{Mg, K};
use crate::net::{Ev, Kernel, NetCfg};
use crate::rng::{Mix, Rng};
use chronologic::graph::*;
use chronologic::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::sync::mpsc::{channel, Receiver, Sender};

type P = Vec<(i64, i64)>;

/// kind 0 interval, 1 date, 2 a..b, 3 a.., 4 a..=b, 5 ..b, 6 ..=b, 7 set, 8 user-defined window
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct W { kind: u8, p: P }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op { Retain { i: u8, w: W }, Remove { i: u8, w: W }, Deadline(i64), Startline(i64) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    New { c: u8, lane: u8 },
    /// `over`: over the scheduler already there; `alien`: over a scheduler of another graph
    Fork { from: u8, to: u8, lane: u8, #[serde(default)] over: bool, #[serde(default)] alien: u8 },
    Do { c: u8, op: Op, lane: u8 },
    /// while scheduler `c` reads a window for the at-th time, `inner` is applied to scheduler `d`
    Nested { c: u8, i: u8, w: (i64, i64), at: u8, d: u8, inner: Op, lane: u8 },
    Drop { c: u8 },
    /// a restriction of an instant the scheduler does not have
    Stray { c: u8, by: u8, op: Op, lane: u8 },
    /// a restriction interrupted when it accesses its window for the at-th time, some times, then submitted again
    Cut { c: u8, i: u8, w: (i64, i64), ats: Vec<u8>, lane: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    n: u8, ks: Vec<K>,
    /// how the graph is made: 0 batch, 1 one by one from nothing, 2 shrunk from a larger one, 3 merged, 4 after refusals and a fatal failure
    #[serde(default)] built: u8,
}

impl W {
    fn is(&self) -> Is {
        let Some(&(a, b)) = self.p.first() else { return Is::empty() };
        let before = |b: i64| if b == INF || b == NEG { b } else { b - 1 };
        match self.kind {
            1 => Is::iv(a, a),
            2 => if a < b { Is::iv(a, before(b)) } else { Is::empty() }, 3 => Is::iv(a, INF), 5 => Is::iv(NEG, before(b)), 6 => Is::iv(NEG, b),
            7 => Is::from_pieces(&self.p),
            _ => Is::iv(a, b),
        }
    }
}

// ---------------------------------------------------------------- real calls

fn ts(x: i64) -> Timestamp { Timestamp::from_origin(TimeValue::from_ticks(x)) }
fn rd(t: Timestamp) -> i64 { t.since_origin().as_ticks() }
fn slot(p: (i64, i64)) -> TimeSlot { if p.0 > p.1 { TimeSlot::empty() } else if p.0 == p.1 { TimeSlot::singleton(ts(p.0)) } else { TimeSlot::new(ts(p.0), ts(p.1)) } }

/// a window defined by a user, whose accessors are scheduling points
struct User<'a> { lo: i64, hi: i64, calls: &'a Cell<u32>, at: u32, hook: &'a dyn Fn() }
impl User<'_> {
    fn tick(&self) {
        let k = self.calls.get();
        self.calls.set(k + 1);
        if k == self.at { (self.hook)() }
    }
}
impl TimeBounds for User<'_> {
    type TimePoint = Timestamp;
    fn is_empty(&self) -> bool { self.tick(); self.lo > self.hi }
    fn is_low_bounded(&self) -> bool { self.tick(); self.lo <= self.hi && self.lo != NEG }
    fn is_up_bounded(&self) -> bool { self.tick(); self.lo <= self.hi && self.hi != INF }
    fn lower_bound(&self) -> Timestamp { self.tick(); ts(self.lo) }
    fn upper_bound(&self) -> Timestamp { self.tick(); ts(self.hi) }
}
impl From<User<'_>> for TimeSlot { fn from(u: User<'_>) -> TimeSlot { slot((u.lo, u.hi)) } }
impl TimeConvex for User<'_> {}

fn set(p: &P) -> TimeSlots { p.iter().map(|p| slot(*p)).collect() }
fn apply(s: &mut TimeScheduler<'_>, op: &Op) -> String {
    macro_rules! s { ($e:expr) => { format!("{:?}", $e) } }
    match op {
        Op::Retain { i, w } => {
            let i = *i as u32;
            let (a, b) = w.p.first().copied().unwrap_or((1, 0));
            match w.kind {
                1 => s!(s.retain(i, ts(a))),
                2 => s!(s.retain(i, ts(a)..ts(b))),
                3 => s!(s.retain(i, ts(a)..)),
                4 => s!(s.retain(i, ts(a)..=ts(b))),
                5 => s!(s.retain(i, ..ts(b))),
                6 => s!(s.retain(i, ..=ts(b))),
                7 => s!(s.retain(i, set(&w.p))),
                8 => { let calls = Cell::new(0); s!(s.retain(i, User { lo: a, hi: b, calls: &calls, at: u32::MAX, hook: &|| () })) }
                _ => s!(s.retain(i, slot((a, b)))),
            }
        }
        Op::Remove { i, w } => {
            let i = *i as u32;
            let (a, b) = w.p.first().copied().unwrap_or((1, 0));
            match w.kind { 1 => s!(s.remove(i, ts(a))), 0 => s!(s.remove(i, slot((a, b)))), _ => s!(s.remove(i, w.is().0.iter().map(|p| slot(*p)).collect::<TimeSlots>())) }
        }
        Op::Deadline(t) => s!(s.set_deadline(ts(*t))),
        Op::Startline(t) => s!(s.set_startline(ts(*t))),
    }
}
fn slots(s: &TimeScheduler<'_>) -> Vec<Is> { s.schedule().iter().map(pieces).collect() }
fn pieces(s: &TimeSlots) -> Is { Is(s.iter().map(|t| (rd(t.lower_bound()), rd(t.upper_bound()))).collect()) }

// ---------------------------------------------------------------- threads taking turns

type Job = Box<dyn FnOnce() + Send>;
struct Lane { tx: Sender<Job>, rx: Receiver<()> }
thread_local! { static LANES: RefCell<Vec<Lane>> = RefCell::new(vec![]); }
struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}

/// runs `f` on a parked thread of the pool, the caller being stopped meanwhile
fn on_lane<R>(lane: u8, f: impl FnOnce() -> R) -> R {
    if lane == 0 { return f(); }
    let mut out: Option<R> = None;
    let ptr = Any((&mut out as *mut Option<R>, f));
    let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || { let p = ptr; let Any((o, f)) = p; let r = f(); unsafe { *o = Some(r) } });
    // the caller waits for the end of the job: what it borrows lives long enough
    let job: Job = unsafe { std::mem::transmute(job) };
    LANES.with(|l| {
        let mut l = l.borrow_mut();
        while l.len() < lane as usize {
            let (tx, jobs) = channel::<Job>();
            let (done, rx) = channel();
            std::thread::Builder::new().stack_size(1 << 20).spawn(move || { for j in jobs { j(); if done.send(()).is_err() { return } } }).expect("thread");
            l.push(Lane { tx, rx });
        }
        l[lane as usize - 1].tx.send(job).expect("lane");
        l[lane as usize - 1].rx.recv().expect("lane");
    });
    out.unwrap()
}

// ---------------------------------------------------------------- what should happen

const CAP: usize = 150;
/// the dates of each instant taking part in a complete schedule; None if too costly
fn feasible(m: &Mg, win: &[Is]) -> Option<Vec<Is>> {
    let n = m.n;
    if win.iter().any(|w| w.is_empty()) { return Some(vec![Is::empty(); n]); }
    let mut combos = 1usize;
    for w in win { combos = combos.saturating_mul(w.0.len()); if combos > CAP { return None; } }
    let mut acc: Vec<P> = vec![vec![]; n];
    for c in 0..combos {
        let mut x = c;
        let b: P = win.iter().map(|w| { let k = w.0.len(); let p = w.0[x % k]; x /= k; p }).collect();
        let one: P = (0..n).map(|j| {
            let (mut lo, mut hi) = b[j];
            for i in 0..n {
                let (l, u) = m.span(i, j);
                if l != NEG && b[i].0 != NEG { lo = lo.max(b[i].0 + l); }
                if u != INF && b[i].1 != INF { hi = hi.min(b[i].1 + u); }
            }
            (lo, hi)
        }).collect();
        if one.iter().all(|(l, u)| l <= u) { for (a, p) in acc.iter_mut().zip(one) { a.push(p); } }
    }
    Some(acc.iter().map(|p| Is::from_pieces(p)).collect())
}

/// what is known about a scheduler
#[derive(Clone)]
struct Known { win: Vec<Is>, slots: Vec<Is>, convex: bool, past: Vec<(Op, String)> }

fn made(m: &Mg, how: u8) -> TimeGraph {
    let ks: Vec<_> = m.pairs().iter().map(|k| ((k.i, k.j), super::graph::span_of(k))).collect();
    let mut g = TimeGraph::default();
    let n = m.n as u32;
    match how {
        1 => for k in ks { let _ = g.propagate(k); },
        2 => { g = TimeGraph::with_size(n + 3); for k in ks { let _ = g.propagate(k); } let _ = g.propagate(((n + 1, 0), TimeValue::from_ticks(3)..)); g.resize(n); }
        3 => { let (a, b) = ks.split_at(ks.len() / 2); let _ = g.extend(a.to_vec()); let mut h = TimeGraph::default(); let _ = h.extend(b.to_vec()); let _ = g.merge(h); }
        _ => {
            let no = ((0, 1), TimeSpan::empty());
            let _ = g.extend(vec![((2, 5), TimeSpan::singleton(TimeValue::from_ticks(7))), no]);
            for k in ks { let _ = g.propagate(no); let _ = g.propagate(k); let _ = g.propagate(((k.0 .1, k.0 .0), k.1.upper_bound().max(-k.1.lower_bound()) + TimeValue::from_ticks(1)..)); }
        }
    }
    if g.size() < n { g.resize(n); }
    g
}

const SLOTS: &[&str] = &["C09"];
const REFUSED: &[&str] = &["C10"];
const ALONE: &[&str] = &["C11"];
const CUT: &[&str] = &["C24"];

/// checks the effect of an operation on the scheduler it was applied to
fn judge(ctx: &mut Ctx, m: &Mg, k: &mut Known, op: &Op, r: &str, got: Vec<Is>) -> bool {
    let n = m.n;
    let mut win = k.win.clone();
    let (mut one, mut convex) = (None, k.convex);
    match op {
        Op::Retain { i, w } => { let x = w.is(); convex &= x.0.len() <= 1; win[*i as usize] = win[*i as usize].inter(&x); one = Some(*i as usize); }
        Op::Remove { i, w } => { win[*i as usize] = win[*i as usize].minus(&w.is()); one = Some(*i as usize); convex &= win[*i as usize].0.len() <= 1; }
        Op::Deadline(t) => for w in win.iter_mut() { *w = w.inter(&Is::iv(NEG, *t)) },
        Op::Startline(t) => for w in win.iter_mut() { *w = w.inter(&Is::iv(*t, INF)) },
    }
    let pre = &k.slots;
    let txt = |got: &[Is]| got.iter().enumerate().map(|(i, s)| format!("t{} in {}", i, s.show())).collect::<Vec<_>>().join(", ");
    let same = got == *pre;
    if r == "Err(Recovered)" {
        ctx.probe("refused");
        if !k.convex { ctx.probe("refused_with_holes"); }
        if !ctx.soft(same, REFUSED, "untouched", || format!("{:?} was refused but the schedule went from {} to {}", op, txt(pre), txt(&got))) { return false; }
        if let Some(f) = feasible(m, &win) {
            if !ctx.soft(f.iter().any(|x| x.is_empty()), REFUSED, "wrongly-refused", || format!("{:?} was refused on {} although complete schedules satisfy it: {}", op, txt(pre), txt(&f))) { return false; }
        } else { ctx.probe("feasibility_too_costly"); }
        k.slots = got;
        k.past.push((op.clone(), r.into()));
        return true;
    }
    if r != "Ok(Unchanged)" && r != "Ok(Propagated)" { ctx.fail(&["C10"], "result", format!("{:?} on {} gave {}", op, txt(pre), r)); return false; }
    if !ctx.soft(same == (r == "Ok(Unchanged)"), &["C04"], if same { "report:unchanged" } else { "report:changed" }, || format!("{:?} reported {} but the schedule went from {} to {}", op, r, txt(pre), txt(&got))) { return false; }
    if !ctx.check(got.len() == n, SLOTS, "size", || format!("{} slots", got.len())) { return false; }
    ctx.probe(if same { "accepted_unchanged" } else { "accepted" });
    if !convex { ctx.probe("accepted_with_holes"); }
    for j in 0..n {
        if !ctx.soft(!got[j].is_empty(), &["C09", "C10"], "no-date-left", || format!("{:?} was accepted ({}) on {} but t{} has no date left: {}", op, r, txt(pre), j, txt(&got))) { return false; }
        if !ctx.soft(got[j].subset(&win[j]), SLOTS, "window", || format!("after {:?}, t{} is in {}, out of the windows placed on it: {}", op, j, got[j].show(), win[j].show())) { return false; }
        if !ctx.soft(got[j].subset(&pre[j]), SLOTS, "regained", || format!("after {:?}, t{} went from {} to {}", op, j, pre[j].show(), got[j].show())) { return false; }
    }
    if let (Some(i), false) = (one, same) {
        for j in 0..n {
            let (l, u) = m.span(i, j);
            if j == i || (l == NEG && u == INF) { continue; }
            let may = got[i].spread(l, u);
            if !ctx.soft(got[j].subset(&may), SLOTS, "graph", || format!("after {:?}, t{} is in {} but t{} in {} and the graph only allow {}", op, j, got[j].show(), i, got[i].show(), may.show())) { return false; }
        }
    }
    match feasible(m, &win) {
        Some(f) => {
            for j in 0..n {
                if !ctx.soft(f[j].subset(&got[j]), SLOTS, "lost", || format!("after {:?} on {}, t{} is in {} but complete schedules have it in {}", op, txt(pre), j, got[j].show(), f[j].show())) { return false; }
                if convex && !ctx.soft(f[j] == got[j], &["C09", "C10"], "exact", || format!("after {:?} on {}, t{} is in {} instead of {}", op, txt(pre), j, got[j].show(), f[j].show())) { return false; }
            }
        }
        None => ctx.probe("feasibility_too_costly"),
    }
    *k = Known { win, slots: got, convex, past: std::mem::take(&mut k.past) };
    k.past.push((op.clone(), r.into()));
    true
}

fn read(ctx: &mut Ctx, s: &TimeScheduler<'_>, n: usize) -> Option<Vec<Is>> {
    let r = ctx.real(SLOTS, "reading the schedule", || {
        let v = slots(s);
        let each: Vec<Is> = (0..n as u32).filter_map(|i| s.scheduling(i).map(pieces)).collect();
        let ends = if n > 0 { (rd(s.latest_beginning()), rd(s.earliest_ending())) } else { (0, 0) };
        (each == v && s.scheduling(n as u32).is_none(), v, ends)
    })?;
    let (ok, v, (lb, ee)) = r;
    if !ctx.soft(ok, SLOTS, "accessors", || "scheduling(i) and schedule() differ".to_string()) { return None; }
    if !ctx.check(v.iter().all(|s| s.0.iter().all(|p| p.0 <= p.1) && s.0.windows(2).all(|w| w[0].1 < w[1].0)), SLOTS, "slots", || format!("a schedule has disordered slots: {:?}", v)) { return None; }
    if n > 0 && v.iter().all(|x| !x.is_empty()) {
        let (a, b) = (v.iter().map(|x| x.hi()).min().unwrap(), v.iter().map(|x| x.lo()).max().unwrap());
        if !ctx.soft(lb == a && ee == b, SLOTS, "extremes", || format!("latest beginning {} and earliest ending {} instead of {} and {}", shown(lb), shown(ee), shown(a), shown(b))) { return None; }
    }
    Some(v)
}

/// an operation of a client; None: the run is over
fn call(ctx: &mut Ctx, what: &str, lane: u8, f: impl FnOnce() -> String) -> Option<String> {
    let props: &[&str] = &["C09", "C10"];
    match on_lane(lane, || guarded(props, what, f)) {
        Ok(r) => Some(r),
        Err(Caught::Panic(p)) => { ctx.fail(props, &format!("panic:{}", what), p); None }
        Err(Caught::Injected) => None,
    }
}
fn name(op: &Op) -> &'static str { match op { Op::Retain { .. } => "retain", Op::Remove { .. } => "remove", Op::Deadline(_) => "set_deadline", Op::Startline(_) => "set_startline" } }
fn target(op: &Op, n: usize) -> Op {
    match op { Op::Retain { i, w } => Op::Retain { i: *i % n as u8, w: w.clone() }, Op::Remove { i, w } => Op::Remove { i: *i % n as u8, w: w.clone() }, o => o.clone() }
}

pub struct Agenda;
impl World for Agenda {
    const NAME: &'static str = "agenda";
    type Cfg = Cfg;
    type Step = Step;

    fn exec(cfg: &Cfg, steps: &[Step], ctx: &mut Ctx) {
        let n = cfg.n as usize;
        let mut m = Mg::new(n);
        for k in &cfg.ks { if (k.i.max(k.j) as usize) < n { if let Some(x) = m.with(&[*k]) { m = x } } }
        if m.spread() > 1 << 58 { return; }
        let Some(mut g) = ctx.real(ALONE, "building the graph", || twin(&m)) else { return };
        if cfg.built > 0 {
            // another history leading to the same graph
            let made = guarded(&["C01"], "building the graph", || { let g = made(&m, cfg.built); diff(&g, &m).map_or(Ok(g), Err) });
            match made { Ok(Ok(x)) => { g = x; ctx.probe("graph_with_a_history"); } Ok(Err(d)) => ctx.soft_fail(&["C01", "C08"], "building", d), Err(Caught::Panic(d)) => ctx.soft_fail(&["C01", "C08"], "building", d), _ => {} }
        }
        let g = g;
        // other graphs: without constraint, with others, larger
        let aliens: Vec<TimeGraph> = (0..3).map(|x| {
            let mut a = TimeGraph::with_size(n as u32 + x / 2);
            if x > 0 { for i in 1..a.size() { let _ = a.propagate(((i - 1, i), TimeValue::from_ticks(3)..=TimeValue::from_ticks(5))); } }
            a
        }).collect();
        ctx.note(|| format!("graph of {} instants: {:?}", n, m.pairs()));
        const C: usize = 6;
        let cells: Vec<RefCell<Option<TimeScheduler<'_>>>> = (0..C).map(|_| RefCell::new(None)).collect();
        let mut known: Vec<Option<Known>> = vec![None; C];
        let mut lanes = 0u32;
        for (si, s) in steps.iter().enumerate() {
            if ctx.stopped() { return; }
            ctx.begin(si);
            let mut touched: Vec<usize> = vec![];
            match s {
                Step::New { c, lane } => {
                    let c = *c as usize % C;
                    let Some(s) = ctx.real(SLOTS, "new scheduler", || on_lane(*lane, || TimeScheduler::new(&g))) else { return };
                    let Some(v) = read(ctx, &s, n) else { return };
                    if !ctx.check(v.len() == n && v.iter().all(|x| *x == Is::all()), &["C09", "C11"], "new", || format!("a new scheduler has {:?}", v)) { return; }
                    *cells[c].borrow_mut() = Some(s);
                    known[c] = Some(Known { win: vec![Is::all(); n], slots: v, convex: true, past: vec![] });
                    ctx.note(|| format!("scheduler {} created", c));
                    touched.push(c);
                }
                Step::Fork { from, to, lane, over, alien } => {
                    let (a, b) = (*from as usize % C, *to as usize % C);
                    if a == b || known[a].is_none() { continue; }
                    // over another scheduler, or anew
                    let old = if *alien > 0 { Some(TimeScheduler::new(&aliens[(*alien - 1) as usize % 3])) } else if *over { cells[b].borrow_mut().take() } else { None };
                    if *alien > 0 { ctx.probe("fork_over_another_graph"); }
                    let f = ctx.real(ALONE, "clone", || on_lane(*lane, || match old {
                        Some(mut o) => { o.clone_from(cells[a].borrow().as_ref().unwrap()); Some(o) }
                        None => cells[a].borrow().clone(),
                    }));
                    let Some(Some(f)) = f else { return };
                    let Some(v) = read(ctx, &f, n) else { return };
                    if !ctx.soft(v == known[a].as_ref().unwrap().slots, ALONE, "fork", || format!("a fork has {:?} instead of {:?}", v, known[a].as_ref().unwrap().slots)) { return; }
                    *cells[b].borrow_mut() = Some(f);
                    known[b] = known[a].clone();
                    if v.len() != n { return; }
                    known[b].as_mut().unwrap().slots = v;
                    ctx.fault("fork");
                    ctx.note(|| format!("scheduler {} forked from {}", b, a));
                    touched.push(b);
                }
                Step::Drop { c } => { let c = *c as usize % C; if known[c].take().is_some() { *cells[c].borrow_mut() = None; ctx.fault("client_crash"); } }
                Step::Do { c, op, lane } => {
                    let c = *c as usize % C;
                    if known[c].is_none() || n == 0 && matches!(op, Op::Retain { .. } | Op::Remove { .. }) { continue; }
                    let op = if n > 0 { target(op, n) } else { op.clone() };
                    if *lane > 0 { ctx.fault("thread_switch"); lanes += 1; }
                    let mut sch = cells[c].borrow_mut();
                    let Some(r) = call(ctx, name(&op), *lane, || apply(sch.as_mut().unwrap(), &op)) else { return };
                    ctx.note(|| format!("scheduler {} {:?} -> {}", c, op, r));
                    let Some(v) = read(ctx, sch.as_ref().unwrap(), n) else { return };
                    if !judge(ctx, &m, known[c].as_mut().unwrap(), &op, &r, v) { return; }
                    touched.push(c);
                }
                Step::Stray { c, by, op, lane } => {
                    let c = *c as usize % C;
                    if known[c].is_none() { continue; }
                    let far = (n + *by as usize).min(255) as u8;
                    let op = match op { Op::Retain { w, .. } => Op::Retain { i: far, w: w.clone() }, Op::Remove { w, .. } => Op::Remove { i: far, w: w.clone() }, _ => continue };
                    let mut sch = cells[c].borrow_mut();
                    let r = match on_lane(*lane, || guarded(REFUSED, "restricting a missing instant", || apply(sch.as_mut().unwrap(), &op))) { Ok(r) => r, Err(_) => "panic".into() };
                    ctx.fault("missing_instant");
                    ctx.note(|| format!("scheduler {} {:?} -> {}", c, op, r));
                    if !ctx.soft(r != "Ok(Propagated)", REFUSED, "missing-instant", || format!("{:?} was accepted by a scheduler of {} instants", op, n)) { return; }
                    let Some(v) = read(ctx, sch.as_ref().unwrap(), n) else { return };
                    let k = known[c].as_mut().unwrap();
                    if !ctx.soft(v == k.slots, REFUSED, "missing-instant:untouched", || format!("{:?} on a missing instant changed the schedule from {:?} to {:?}", op, k.slots, v)) { return; }
                    if v.len() != n { return; }
                    k.slots = v;
                    touched.push(c);
                }
                Step::Cut { c, i, w, ats, lane } => {
                    let c = *c as usize % C;
                    if n == 0 || known[c].is_none() { continue; }
                    let i = *i % n as u8;
                    let mut sch = cells[c].borrow_mut();
                    let sch = sch.as_mut().unwrap();
                    let Some(mut other) = ctx.real(ALONE, "clone", || sch.clone()) else { return };
                    let go = |s: &mut TimeScheduler<'_>, at: u32| { let calls = Cell::new(0); format!("{:?}", s.retain(i as u32, User { lo: w.0, hi: w.1, calls: &calls, at, hook: &|| inject() })) };
                    for at in ats {
                        match on_lane(*lane, || guarded(CUT, "an interrupted restriction", || go(sch, *at as u32))) {
                            Err(Caught::Panic(p)) => { ctx.fail(CUT, "panic:interrupted", p); return }
                            Err(Caught::Injected) => {
                                ctx.fault("interrupted_restriction");
                                let Some(v) = ctx.real(CUT, "reading the schedule", || slots(sch)) else { return };
                                if !ctx.check(v == known[c].as_ref().unwrap().slots, CUT, "interrupted", || format!("restricting t{} to {:?} was interrupted at access {} but the schedule went from {:?} to {:?}", i, w, at, known[c].as_ref().unwrap().slots, v)) { return; }
                            }
                            Ok(_) => { ctx.probe("not_interrupted"); let Some(v) = ctx.real(CUT, "reading the schedule", || slots(sch)) else { return }; if v != known[c].as_ref().unwrap().slots { *sch = other.clone(); } }
                        }
                    }
                    let Some(r) = call(ctx, "retain", *lane, || go(sch, u32::MAX)) else { return };
                    let Some(r2) = call(ctx, "retain", 0, || go(&mut other, u32::MAX)) else { return };
                    let op = Op::Retain { i, w: W { kind: 8, p: vec![*w] } };
                    ctx.note(|| format!("scheduler {} {:?} interrupted at {:?} -> {}", c, op, ats, r));
                    let Some(v) = read(ctx, sch, n) else { return };
                    let Some(v2) = ctx.real(CUT, "reading the schedule", || slots(&other)) else { return };
                    if !ctx.check(r == r2 && v == v2, CUT, "retried", || format!("{:?} interrupted at {:?} then submitted again gave {} {:?}, never interrupted it gives {} {:?}", op, ats, r, v, r2, v2)) { return; }
                    if !judge(ctx, &m, known[c].as_mut().unwrap(), &op, &r, v) { return; }
                    touched.push(c);
                }
                Step::Nested { c, i, w, at, d, inner, lane } => {
                    let (c, d) = (*c as usize % C, *d as usize % C);
                    if c == d || n == 0 || known[c].is_none() || known[d].is_none() { continue; }
                    let inner = target(inner, n);
                    let (calls, out) = (Cell::new(0), RefCell::new(None));
                    let i = *i % n as u8;
                    let r = {
                        let (cells, out, inner) = (&cells, &out, &inner);
                        let hook = move || {
                            let r = apply(cells[d].borrow_mut().as_mut().unwrap(), inner);
                            *out.borrow_mut() = Some(r);
                        };
                        let mut sch = cells[c].borrow_mut();
                        call(ctx, "nested operations", *lane, || format!("{:?}", sch.as_mut().unwrap().retain(i as u32, User { lo: w.0, hi: w.1, calls: &calls, at: *at as u32, hook: &hook })))
                    };
                    let Some(r) = r else { return };
                    let op = Op::Retain { i, w: W { kind: 8, p: vec![*w] } };
                    let ri = out.borrow_mut().take();
                    ctx.note(|| format!("scheduler {} {:?} -> {} with, inside, scheduler {} {:?} -> {:?}", c, op, r, d, inner, ri));
                    if ri.is_some() { ctx.fault("operation_inside_another"); }
                    let Some(v) = read(ctx, cells[c].borrow().as_ref().unwrap(), n) else { return };
                    if !judge(ctx, &m, known[c].as_mut().unwrap(), &op, &r, v) { return; }
                    touched.push(c);
                    if let Some(ri) = ri {
                        let Some(v) = read(ctx, cells[d].borrow().as_ref().unwrap(), n) else { return };
                        if !judge(ctx, &m, known[d].as_mut().unwrap(), &inner, &ri, v) { return; }
                        touched.push(d);
                    }
                }
            }
            // nobody else is concerned
            for x in 0..C {
                if touched.contains(&x) { continue; }
                let Some(k) = &known[x] else { continue };
                let b = cells[x].borrow();
                let Some(v) = ctx.real(ALONE, "reading another schedule", || slots(b.as_ref().unwrap())) else { return };
                if !ctx.soft(v == k.slots, ALONE, "others", || format!("{:?} changed scheduler {}: {:?} instead of {:?}", s, x, v, k.slots)) { return; }
                if v.len() != n { return; }
                drop(b);
                known[x].as_mut().unwrap().slots = v;
            }
            let d = match ctx.real(ALONE, "reading the graph", || diff(&g, &m)) { Some(d) => d, None => return };
            if !ctx.check(d.is_none(), ALONE, "graph", || format!("the shared graph changed: {}", d.unwrap())) { return; }
            for x in touched { if let Some(k) = &known[x] {
                let mut h = Mix::new();
                h.add(m.hash());
                for s in &k.slots { h.add(s.0.len() as u64); for p in &s.0 { h.add(p.0 as u64); h.add(p.1 as u64); } }
                ctx.state(h.0);
            } }
        }
        if ctx.stopped() { return; }
        if lanes > 0 { ctx.probe("run_with_threads"); }
        // each one, alone, on a fresh graph
        ctx.begin(steps.len());
        for x in 0..C {
            let Some(k) = &known[x] else { continue };
            let d = match ctx.real(ALONE, "constraints", || diff(cells[x].borrow().as_ref().unwrap().constraints(), &m)) { Some(d) => d, None => return };
            if !ctx.check(d.is_none(), ALONE, "constraints", || format!("the constraints of scheduler {} are not those of the shared graph: {}", x, d.unwrap())) { return; }
            if k.past.is_empty() { continue; }
            let r = ctx.real(ALONE, "replay alone", || {
                let g = twin(&m);
                let mut s = TimeScheduler::new(&g);
                let rs: Vec<String> = k.past.iter().map(|(op, _)| apply(&mut s, op)).collect();
                (rs, slots(&s))
            });
            let Some((rs, v)) = r else { return };
            ctx.probe("replayed_alone");
            let bad = rs.iter().zip(&k.past).position(|(a, b)| *a != b.1);
            if !ctx.check(bad.is_none(), ALONE, "alone:result", || { let b = bad.unwrap(); format!("scheduler {}: {:?} gives {} alone, gave {}", x, k.past[b].0, rs[b], k.past[b].1) }) { return; }
            if !ctx.check(v == k.slots, ALONE, "alone:slots", || format!("scheduler {} alone has {:?}, has {:?}", x, v, k.slots)) { return; }
        }
    }

    fn plan(r: &mut Rng, focus: &str, tier: Tier) -> Plan<Cfg, Step> {
        let n = if r.chance(1, 1000) { 12 + r.idx(16) } else { match r.below(20) { 0 => 1, 1..=4 => 2, 5..=10 => 3, 11..=15 => 4, 16 | 17 => 5, 18 => 6 + r.idx(2), _ => 6 + r.idx(6) } };
        let many = if r.chance(1, 60) { 45 } else { 5 };
        let width = *r.pick(&[6i64, 20, 20, 100, 1 << 40]);
        let base = match r.below(4) { 0 => 0, 1 => -(1 << 60), 2 => 1 << 60, _ => r.range(-1000, 1000) };
        let hidden: Vec<i64> = (0..n).map(|_| r.range(0, width)).collect();
        let calm = r.chance(3, 4); // most restrictions keep a hidden schedule possible
        let holes = r.chance(2, 3);
        let slack = width / *r.pick(&[1i64, 2, 6]) + 1;
        let mut ks = vec![];
        let dense = 1 + r.below(10);
        for i in 0..n { for j in i + 1..n {
            if !r.chance(dense, 10) { continue; }
            let d = hidden[j] - hidden[i];
            let (mut l, mut u) = (d - r.range(0, slack), d + r.range(0, slack));
            match r.below(10) { 0 => l = NEG, 1 => u = INF, 2 => { l = d; u = d } _ => {} }
            let k = K { i: i as u32, j: j as u32, l, u };
            ks.push(if r.coin() { k } else { k.rev() });
        } }
        let window = |r: &mut Rng, i: usize, keep: bool, set: bool| -> W {
            let h = base + if calm { hidden[i] } else { r.range(0, width) };
            let s = |r: &mut Rng| match r.below(3) { 0 => r.range(0, 2), 1 => r.range(0, slack), _ => r.range(0, 2 * width) };
            if set {
                let k = 1 + r.idx(many);
                let mut p: P = (0..k).map(|_| { let a = base + r.range(-width, 2 * width); (a, a + match r.below(3) { 0 => 0, 1 => 1, _ => r.range(0, width / 2 + 1) }) }).collect();
                if keep { p.push((h - if r.coin() { 0 } else { s(r) }, h + if r.coin() { 0 } else { s(r) })); }
                if r.chance(1, 10) { p[0].0 = NEG; }
                if r.chance(1, 10) { let a = base + r.range(-width, 2 * width); p.push((a, INF)); }
                W { kind: 7, p: Is::from_pieces(&p).0 }
            } else {
                let (a, b) = if keep { (h - s(r), h + s(r)) } else { let a = base + r.range(-width, 2 * width); (a, a + s(r)) };
                let kind = *r.pick(&[0u8, 0, 1, 2, 3, 4, 5, 6, 8]);
                match kind { 1 => W { kind, p: vec![(if keep { h } else { a }, 0)] }, 2 | 5 => W { kind, p: vec![(a, b + 1)] }, _ => W { kind, p: vec![(a, b)] } }
            }
        };
        let op = |r: &mut Rng| -> Op {
            let i = r.idx(n);
            let keep = r.chance(if calm { 9 } else { 5 }, 10);
            match r.below(20) {
                0 | 1 => { let h = base + hidden.iter().max().unwrap(); Op::Deadline(if keep { h + r.range(0, width) } else { base + r.range(-width, 2 * width) }) }
                2 | 3 => { let h = base + hidden.iter().min().unwrap(); Op::Startline(if keep { h - r.range(0, width) } else { base + r.range(-width, 2 * width) }) }
                4..=7 if holes => {
                    // remove a window beside the hidden date
                    let kind = *r.pick(&[0u8, 1, 7]);
                    let h = base + hidden[i];
                    let side = |r: &mut Rng| { let a = r.range(1, width); let l = match r.below(3) { 0 => 0, 1 => 1, _ => r.range(0, width) }; if r.coin() { (h + a, h + a + l) } else { (h - a - l, h - a) } };
                    let k = if kind == 7 { 1 + r.idx(3) } else { 1 };
                    let p: P = (0..k).map(|_| if keep { side(r) } else { let a = base + r.range(-width, 2 * width); (a, a + r.range(0, width)) }).collect();
                    Op::Remove { i: i as u8, w: W { kind, p: if kind == 7 { Is::from_pieces(&p).0 } else { p } } }
                }
                4 => Op::Remove { i: i as u8, w: { let a = base + r.range(-width, 2 * width); if r.coin() { W { kind: 7, p: vec![(NEG, a)] } } else { W { kind: 7, p: vec![(a, INF)] } } } },
                // windows and limits which only have an infinite end
                5 if r.chance(1, 4) => { let x = if r.coin() { INF } else { NEG }; match r.below(4) {
                    0 => Op::Deadline(x),
                    1 => Op::Startline(x),
                    _ => Op::Retain { i: i as u8, w: match r.below(5) { 0 => W { kind: 0, p: vec![(x, x)] }, 1 => W { kind: 2, p: vec![(NEG, NEG + 1)] }, 2 => W { kind: 3, p: vec![(x, 0)] }, 3 => W { kind: 5, p: vec![(0, if r.coin() { x } else { NEG + 1 })] }, _ => W { kind: *r.pick(&[4u8, 6]), p: vec![(x, x)] } } },
                } }
                5 => Op::Retain { i: i as u8, w: W { kind: *r.pick(&[0u8, 2, 4, 7, 8]), p: if r.coin() { vec![(base + 1, base)] } else { vec![(NEG, INF)] } } },
                _ => { let set = holes && r.chance(2, 5); Op::Retain { i: i as u8, w: window(r, i, keep, set) } }
            }
        };
        let built = if r.coin() { 0 } else { 1 + r.below(4) as u8 };
        let clients = if focus == "C11" { 2 + r.idx(4) } else { 1 + r.idx(3) };
        let threads = r.chance(if focus == "C11" { 8 } else { 2 }, 20);
        let mut k: Kernel<u8> = Kernel::new(clients, NetCfg::random(r));
        let mut left: Vec<usize> = { let long = r.chance(1, 150); (0..clients).map(|_| if long { 30 + r.idx(80) } else { 2 + r.idx(if tier == Tier::Thorough { 24 } else { 12 }) }).collect() };
        let mut alive = vec![false; 6];
        let mut steps = vec![];
        for c in 0..clients { let d = r.below(2000); k.timer(c, d, 0); }
        let mut lastc = usize::MAX;
        while let Some(Ev::Timer { node, .. }) = k.pop() {
            if left[node] == 0 { continue; }
            left[node] -= 1;
            if lastc != node { if lastc != usize::MAX { k.fault("client_switch"); } lastc = node; }
            let lane = if threads { r.below(4) as u8 } else { 0 };
            let c = node as u8;
            let d = r.below(6) as u8;
            steps.push(if !alive[node] { alive[node] = true; Step::New { c, lane } } else {
                if focus == "C24" && r.chance(2, 5) {
                    let i = r.idx(n);
                    let keep = r.chance(5, 6);
                    let w = window(r, i, keep, false).is();
                    let many = if r.coin() { 1 } else { 1 + r.idx(4) };
                    steps.push(Step::Cut { c, i: i as u8, w: if w.is_empty() { (base + 1, base) } else { (w.lo(), w.hi()) }, ats: (0..many).map(|_| r.below(10) as u8).collect(), lane });
                    k.timer(node, 500, 0);
                    continue;
                }
                match r.below(24) {
                    0 | 1 => { alive[d as usize] = true; Step::Fork { from: c, to: d, lane, over: r.coin(), alien: if r.chance(1, 4) { 1 + r.below(3) as u8 } else { 0 } } }
                    2 if r.chance(1, 3) => { alive[node] = false; Step::Drop { c } }
                    2 if r.chance(1, 2) => Step::Stray { c, by: r.below(4) as u8, op: op(r), lane },
                    3 | 4 => {
                        let i = r.idx(n);
                        let w = window(r, i, true, false);
                        let w = w.is();
                        Step::Nested { c, i: i as u8, w: (w.lo(), w.hi()), at: r.below(8) as u8, d, inner: op(r), lane }
                    }
                    _ => Step::Do { c: if r.chance(1, 6) { d } else { c }, op: op(r), lane },
                }
            });
            let w = if r.chance(1, 12) { k.fault("client_stalled"); 100_000 } else { 100 + r.below(3000) };
            k.timer(node, w, 0);
        }
        let sim_us = k.now;
        Plan { cfg: Cfg { n: n as u8, ks, built }, steps, faults: k.faults, sim_us }
    }

    fn simpler(s: &Step) -> Vec<Step> {
        let win = |w: &W| -> Vec<W> {
            let mut v = vec![];
            if w.p.len() > 1 { for i in 0..w.p.len() { let mut c = w.clone(); c.p.remove(i); v.push(c); } }
            for i in 0..w.p.len() { let (a, b) = w.p[i];
                for x in shrink_num(a) { let mut c = w.clone(); c.p[i].0 = x; v.push(c); }
                for x in shrink_num(b) { let mut c = w.clone(); c.p[i].1 = x; v.push(c); } }
            if w.kind == 7 && w.p.len() == 1 { v.push(W { kind: 0, p: w.p.clone() }); }
            v.retain(|w| w.kind != 7 || (w.p.iter().all(|p| p.0 <= p.1) && w.p.windows(2).all(|x| x[0].1 + 1 < x[1].0)));
            v
        };
        let ops = |o: &Op| -> Vec<Op> {
            match o {
                Op::Retain { i, w } => win(w).into_iter().map(|w| Op::Retain { i: *i, w }).collect(),
                Op::Remove { i, w } => win(w).into_iter().map(|w| Op::Remove { i: *i, w }).collect(),
                Op::Deadline(t) => shrink_num(*t).into_iter().map(Op::Deadline).collect(),
                Op::Startline(t) => shrink_num(*t).into_iter().map(Op::Startline).collect(),
            }
        };
        match s {
            Step::New { c, lane } => if *lane > 0 { vec![Step::New { c: *c, lane: 0 }] } else { vec![] },
            Step::Fork { from, to, lane, over, alien } => {
                let mut v = vec![];
                if *lane > 0 { v.push(Step::Fork { from: *from, to: *to, lane: 0, over: *over, alien: *alien }); }
                if *alien > 0 { v.push(Step::Fork { from: *from, to: *to, lane: *lane, over: *over, alien: 0 }); }
                if *over { v.push(Step::Fork { from: *from, to: *to, lane: *lane, over: false, alien: *alien }); }
                v
            }
            Step::Do { c, op, lane } => {
                let mut v = vec![];
                if *lane > 0 { v.push(Step::Do { c: *c, op: op.clone(), lane: 0 }); }
                v.extend(ops(op).into_iter().map(|op| Step::Do { c: *c, op, lane: *lane }));
                v
            }
            Step::Nested { c, i, w, at, d, inner, lane } => {
                let o = Op::Retain { i: *i, w: W { kind: 0, p: vec![*w] } };
                let mut v = vec![Step::Do { c: *c, op: o, lane: *lane }, Step::Do { c: *d, op: inner.clone(), lane: *lane }];
                if *lane > 0 { v.push(Step::Nested { c: *c, i: *i, w: *w, at: *at, d: *d, inner: inner.clone(), lane: 0 }); }
                for x in ops(inner) { v.push(Step::Nested { c: *c, i: *i, w: *w, at: *at, d: *d, inner: x, lane: *lane }); }
                v
            }
            Step::Stray { c, by, op, lane } => {
                let mut v = vec![];
                if *lane > 0 { v.push(Step::Stray { c: *c, by: *by, op: op.clone(), lane: 0 }); }
                if *by > 0 { v.push(Step::Stray { c: *c, by: 0, op: op.clone(), lane: *lane }); }
                v.extend(ops(op).into_iter().map(|op| Step::Stray { c: *c, by: *by, op, lane: *lane }));
                v
            }
            Step::Cut { c, i, w, ats, lane } => {
                let mut v = vec![];
                if *lane > 0 { v.push(Step::Cut { c: *c, i: *i, w: *w, ats: ats.clone(), lane: 0 }); }
                for x in 0..ats.len() { let mut a = ats.clone(); a.remove(x); v.push(Step::Cut { c: *c, i: *i, w: *w, ats: a, lane: *lane }); }
                for x in shrink_num(w.0) { v.push(Step::Cut { c: *c, i: *i, w: (x, w.1), ats: ats.clone(), lane: *lane }); }
                for x in shrink_num(w.1) { v.push(Step::Cut { c: *c, i: *i, w: (w.0, x), ats: ats.clone(), lane: *lane }); }
                v
            }
            Step::Drop { .. } => vec![],
        }
    }
    fn simpler_cfg(c: &Cfg) -> Vec<Cfg> {
        let mut v = vec![];
        if c.built > 0 { v.push(Cfg { built: 0, ..c.clone() }); }
        for i in 0..c.ks.len() { let mut x = c.clone(); x.ks.remove(i); v.push(x); }
        if c.n > 1 { let mut x = c.clone(); x.n -= 1; x.ks.retain(|k| k.i.max(k.j) < x.n as u32); v.push(x); }
        for i in 0..c.ks.len() {
            for l in shrink_num(c.ks[i].l) { let mut x = c.clone(); x.ks[i].l = l; v.push(x); }
            for u in shrink_num(c.ks[i].u) { let mut x = c.clone(); x.ks[i].u = u; v.push(x); }
        }
        v
    }
}
