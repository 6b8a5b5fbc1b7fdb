//! Trees of stream operators over simulated live sources, pulled by interleaved consumers.
//! Every edge of every tree carries a probe. (C15, C16)
use crate::engine::*;
use crate::model::is::{n as shown, show, Is, INF, NEG};
use crate::net::{Ev, Kernel, NetCfg};
use crate::rng::{Mix, Rng};
use chronologic::iter::*;
use chronologic::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::ops::Add;
use std::rc::Rc;

type P = Vec<(i64, i64)>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Src {
    pieces: P,
    /// (period, length): after the pieces, endlessly more of them
    endless: Option<(i64, i64)>,
    /// reports its end after so many intervals...
    end_at: Option<u8>,
    /// ...and would deliver the others if asked again
    resume: bool,
    /// unwinds when asked for this one
    break_at: Option<u8>,
    hint: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum E {
    Src(Src),
    /// a set or interval given directly to the operator
    Lit(P, u8),
    Union(Box<E>, Box<E>), Inter(Box<E>, Box<E>), Excl(Box<E>, Box<E>),
    Compl(Box<E>), Shift(i64, Box<E>), Spread(i64, i64, Box<E>),
    /// (every date, multiplied by a positive integer, the type of which depends on the second one)
    Scale(i64, u8, Box<E>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sess { e: E, slots: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg { sess: Vec<Sess> }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step { Pull { s: u8 }, Nth { s: u8, n: u8 }, Drain { s: u8, how: u8 }, Hint { s: u8 }, Drop { s: u8 } }

const ENDLESS: usize = 60;

impl Src {
    /// every interval the source has, in order (an endless one: the first ones)
    fn all(&self) -> P {
        let mut v = self.pieces.clone();
        if let Some((p, l)) = self.endless {
            let from = match v.last() { Some((_, b)) if *b == INF => return v, Some((_, b)) => *b + 2, None => 0 };
            for k in 0..ENDLESS as i64 { v.push((from + k * p, from + k * p + l)); }
        }
        v
    }
    fn ends(&self) -> bool { self.end_at.map_or(false, |n| (n as usize) < self.all().len()) || self.endless.is_none() || self.pieces.last().map_or(false, |p| p.1 == INF) }
    /// what it delivers before its (first) end
    fn delivered(&self) -> P { let mut v = self.all(); if let Some(n) = self.end_at { v.truncate(n as usize); } v }
}

// ---------------------------------------------------------------- what should happen

/// expected deliveries of a node: known for sure up to (excluding) `h`
#[derive(Clone, Debug)]
struct Exp { full: Is, list: P, h: i64, complete: bool }
impl Exp {
    fn new(full: Is, h: i64, complete: bool) -> Exp {
        let list = full.0.iter().copied().filter(|(_, b)| complete || *b < h).collect();
        Exp { full, list, h: if complete { INF } else { h }, complete }
    }
}
fn shift_h(h: i64, d: i64) -> i64 { if h == INF { INF } else { h + d } }

fn expect(e: &E) -> Exp {
    match e {
        E::Src(s) => {
            let d = Is(s.delivered());
            if s.ends() { Exp::new(d, INF, true) } else { let h = d.0[d.0.len() - 2].0 - 1; Exp::new(d, h, false) }
        }
        E::Lit(p, _) => Exp::new(Is(p.clone()), INF, true),
        E::Union(a, b) => { let (a, b) = (expect(a), expect(b)); Exp::new(a.full.union(&b.full), a.h.min(b.h), a.complete && b.complete) }
        E::Inter(a, b) => { let (a, b) = (expect(a), expect(b)); inter(&a, &b) }
        E::Excl(a, b) => { let (a, b) = (expect(a), expect(b)); inter(&a, &Exp::new(b.full.compl(), b.h, b.complete)) }
        E::Compl(a) => { let a = expect(a); Exp::new(a.full.compl(), a.h, a.complete) }
        E::Shift(d, a) => { let a = expect(a); Exp::new(a.full.shift(*d), shift_h(a.h, *d), a.complete) }
        E::Scale(n, _, a) => {
            let a = expect(a);
            let m = |x: i64| if x == INF || x == NEG { x } else { x * n };
            Exp::new(Is(a.full.0.iter().map(|(x, y)| (m(*x), m(*y))).collect()), m(a.h), a.complete)
        }
        E::Spread(l, u, a) => { let a = expect(a); Exp::new(a.full.spread(*l, *u), shift_h(a.h, *l), a.complete) }
    }
}
fn inter(a: &Exp, b: &Exp) -> Exp {
    let done = a.complete && b.complete || a.complete && a.full.hi() < b.h || b.complete && b.full.hi() < a.h;
    Exp::new(a.full.inter(&b.full), a.h.min(b.h), done)
}

// ---------------------------------------------------------------- the real operators

trait Pt: TimePoint + 'static { fn mk(x: i64) -> Self; fn rd(self) -> i64; fn scale(d: Dyn<Self>, n: i64, form: u8) -> Dyn<Self>; }
impl Pt for TimeValue { fn mk(x: i64) -> Self { TimeValue::from_ticks(x) } fn rd(self) -> i64 { self.as_ticks() }
    fn scale(d: Dyn<Self>, n: i64, form: u8) -> Dyn<Self> {
        match form % 8 {
            0 => Dyn(Box::new(d.scaling(n as u8))), 1 => Dyn(Box::new(d.scaling(n as i32))), 2 => Dyn(Box::new(d.scaling(n as usize))),
            3 => Dyn(Box::new(d.scaling(n as i128))), 4 => Dyn(Box::new(d.scaling(n as f64))), 5 => Dyn(Box::new(d.scaling(n as i16))),
            6 => Dyn(Box::new(d.scaling(n as u64))), _ => Dyn(Box::new(d.scaling(n))),
        }
    }
}
impl Pt for Timestamp { fn mk(x: i64) -> Self { Timestamp::from_origin(TimeValue::from_ticks(x)) } fn rd(self) -> i64 { self.since_origin().as_ticks() }
    // only durations can be scaled
    fn scale(d: Dyn<Self>, n: i64, form: u8) -> Dyn<Self> { Dyn(Box::new(As(TimeValue::scale(Dyn(Box::new(As(d))), n, form)))) }
}
/// the same intervals with another type of date
struct As<T: Pt>(Dyn<T>);
impl Iterator for As<TimeValue> { type Item = TimeSlot; fn next(&mut self) -> Option<TimeSlot> { self.0.next().map(|i| iv(un(&i))) } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
impl Iterator for As<Timestamp> { type Item = TimeSpan; fn next(&mut self) -> Option<TimeSpan> { self.0.next().map(|i| iv(un(&i))) } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
impl TimeConvexIterator for As<TimeValue> { type TimePoint = Timestamp; }
impl TimeConvexIterator for As<Timestamp> { type TimePoint = TimeValue; }
fn iv<T: Pt>(p: (i64, i64)) -> TimeInterval<T> { TimeInterval::new(T::mk(p.0), T::mk(p.1)) }
fn un<T: Pt>(i: &TimeInterval<T>) -> (i64, i64) { (i.lower_bound().rd(), i.upper_bound().rd()) }

/// an iterator whose own count and last can be called through a box
trait It<T: Pt>: Iterator<Item = TimeInterval<T>> { fn cnt(self: Box<Self>) -> usize; fn lst(self: Box<Self>) -> Option<TimeInterval<T>>; }
impl<T: Pt, I: Iterator<Item = TimeInterval<T>>> It<T> for I {
    fn cnt(self: Box<Self>) -> usize { (*self).count() }
    fn lst(self: Box<Self>) -> Option<TimeInterval<T>> { (*self).last() }
}
struct Dyn<T: Pt>(Box<dyn It<T>>);
impl<T: Pt> Iterator for Dyn<T> {
    type Item = TimeInterval<T>;
    fn next(&mut self) -> Option<Self::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn nth(&mut self, n: usize) -> Option<Self::Item> { self.0.nth(n) }
    fn count(self) -> usize { self.0.cnt() }
    fn last(self) -> Option<Self::Item> { self.0.lst() }
}
impl<T: Pt> TimeConvexIterator for Dyn<T> { type TimePoint = T; }

struct Source<T: Pt> { s: Src, all: P, pos: usize, ended: bool, sh: Sh, t: std::marker::PhantomData<T> }
impl<T: Pt> Iterator for Source<T> {
    type Item = TimeInterval<T>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.s.break_at.map_or(false, |b| b as usize == self.pos) { self.sh.borrow_mut().broke = Some("source_broken"); inject() }
        if !self.ended && self.s.end_at.map_or(false, |n| n as usize <= self.pos) && self.pos < self.all.len() {
            self.ended = true;
            self.sh.borrow_mut().faults.push("source_ended_early");
            return None;
        }
        if self.ended { if !self.s.resume { return None; } self.sh.borrow_mut().faults.push("source_resumed"); }
        if self.pos >= self.all.len() {
            if self.s.endless.is_some() && self.all.last().map_or(true, |l| l.1 != INF) { self.sh.borrow_mut().broke = Some("source_stalled"); inject() }
            self.ended = true;
            return None;
        }
        self.pos += 1;
        Some(iv(self.all[self.pos - 1]))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        // always truthful about what comes before the first end
        if !self.s.ends() { return if self.s.hint % 2 == 0 { (usize::MAX, None) } else { (0, None) }; }
        let n = if self.ended { 0 } else { self.s.delivered().len().saturating_sub(self.pos) };
        match self.s.hint % 6 { 0 => (n, Some(n)), 1 => (0, None), 2 => (n / 2, Some(n + 3)), 3 => (0, Some(usize::MAX)), 4 => (n, None), _ => (0, Some(n)) }
    }
}

#[derive(Default)]
struct Shared { faults: Vec<&'static str>, broke: Option<&'static str>, viol: Option<(&'static str, String, String)>, nodes: Vec<Node>, checks: u64, ahead: [u64; 4], focus: Option<String>, soft: Vec<(&'static str, String, String)> }
type Sh = Rc<RefCell<Shared>>;
/// an edge of the tree: what its lower end has delivered so far
struct Node { what: &'static str, exp: Exp, got: P, ended: bool, is_op: bool, parent: Option<Up>, goal: usize }
/// the operator an edge goes to: its node, how far ahead it may look, the other input's contents
#[derive(Clone)]
struct Up { node: usize, limit: usize, sibling: Option<Exp>, shift: i64, scale: i64 }

/// checks made before, during and after each pull made through an edge
struct Probe<T: Pt> { inner: Dyn<T>, id: usize, sh: Sh }
impl<T: Pt> Probe<T> {
    /// stops the run, unless it is about a property which is not under check and the model still holds
    fn fail(&self, prop: &'static str, class: &str, detail: String) {
        {
            let mut s = self.sh.borrow_mut();
            if prop != "C15" && s.focus.as_ref().map_or(false, |f| f != prop) { s.soft.push((prop, class.into(), detail)); return; }
            if s.viol.is_none() { s.viol = Some((prop, class.into(), detail)); }
        }
        inject()
    }
    fn allowed(&self) -> Option<String> {
        let mut s = self.sh.borrow_mut();
        s.checks += 1;
        let n = &s.nodes[self.id];
        let up = n.parent.as_ref()?;
        let op = &s.nodes[up.node];
        let next = op.got.len().max(op.goal);
        if op.got.len() > op.exp.list.len() { return None; }
        match op.exp.list.get(next) {
            Some(x) => {
                if x.1 == INF { return None; }
                let x = (x.0, (x.1 - up.shift) / up.scale);
                let beyond = n.got.iter().filter(|p| p.0 > x.1).count();
                if beyond >= up.limit { return Some(format!("{} has still to deliver [{},{}], it was given {} intervals beyond it by one source ({}), and asks that source for more", op.what, shown(op.exp.list[next].0), shown(op.exp.list[next].1), beyond, show(&n.got[n.got.len() - beyond..]))); }
                let k = beyond.min(3);
                s.ahead[k] += 1;
            }
            None if op.exp.complete => {
                let sib = up.sibling.as_ref()?;
                if !sib.complete { return None; }
                let hi = sib.full.hi();
                if hi == INF { return None; }
                let beyond = n.got.iter().filter(|p| p.0 > hi).count();
                if beyond >= up.limit { return Some(format!("{} cannot deliver anything more since the other side ends at {}, but asks again a source which already gave {}", op.what, shown(hi), show(&n.got))); }
            }
            None => {}
        }
        None
    }
}
impl<T: Pt> Iterator for Probe<T> {
    type Item = TimeInterval<T>;
    fn next(&mut self) -> Option<Self::Item> {
        if let Some(m) = self.allowed() { self.fail("C16", "look-ahead", m) }
        let hint = self.inner.size_hint();
        let r = self.inner.next();
        let p = r.as_ref().map(un);
        let (bad, after, what) = {
            let mut s = self.sh.borrow_mut();
            s.checks += 3;
            let n = &mut s.nodes[self.id];
            let k = n.got.len();
            let mut bad: Vec<(&'static str, &'static str, String)> = vec![];
            // the size hint, against what remained to be delivered
            if !n.ended && n.is_op {
                let rest = n.exp.list.len().saturating_sub(k);
                if n.exp.complete && hint.0 > rest { bad.push(("C16", "size-hint:lower", format!("{} announced at least {} intervals, {} remained", n.what, hint.0, rest))); }
                if hint.1.map_or(false, |h| h < rest) { bad.push(("C16", "size-hint:upper", format!("{} announced at most {} intervals, {} remained", n.what, hint.1.unwrap(), rest))); }
            }
            match p {
                Some(p) => {
                    if n.ended && n.is_op { bad.push(("C16", "fused", format!("{} delivered [{},{}] after its end", n.what, shown(p.0), shown(p.1)))); }
                    if !n.ended && n.is_op {
                        let ok = match n.exp.list.get(k) { Some(x) => *x == p, None => !n.exp.complete && p.1 >= n.exp.h };
                        if !ok && k <= n.exp.list.len() { bad.push(("C15", "content", format!("{} delivered [{},{}] after {}, instead of {}", n.what, shown(p.0), shown(p.1), show(&n.got), n.exp.list.get(k).map_or("its end".into(), |x| show(&[*x]))))); }
                    }
                    if !n.ended { n.got.push(p); }
                }
                None => {
                    if !n.ended && n.is_op && k < n.exp.list.len() { bad.push(("C15", "content", format!("{} ended after {} instead of delivering {}", n.what, show(&n.got), show(&[n.exp.list[k]])))); }
                    // (beyond what is known of endless sources, an end may be right)
                }
            }
            let first_end = p.is_none() && !n.ended;
            if p.is_none() { n.ended = true; }
            (bad, first_end && n.is_op && n.what != "translation" && n.what != "scaling", n.what)
        };
        for (prop, class, m) in bad { self.fail(prop, class, m) }
        // an operator which has ended stays so
        if after {
            for _ in 0..3 {
                let h = self.inner.size_hint();
                let again = self.inner.next();
                if let Some(a) = again { let a = un(&a); self.fail("C16", "fused", format!("{} delivered [{},{}] after its end", what, shown(a.0), shown(a.1))) }
                if h.0 > 0 { self.fail("C16", "size-hint:lower", format!("{} announced at least {} intervals after its end", what, h.0)) }
            }
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.inner.size_hint() }
    // a final consumer uses what the operator itself provides, others go step by step
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let skip = { let mut s = self.sh.borrow_mut(); let x = &mut s.nodes[self.id]; let ok = x.parent.is_none() && !x.ended && x.got.len() + n < x.exp.list.len(); if ok { x.goal = x.got.len() + n; } ok };
        if !skip { for _ in 0..n { self.next()?; } return self.next(); }
        let r = self.inner.nth(n);
        let bad = {
            let mut s = self.sh.borrow_mut();
            s.checks += 1;
            let x = &mut s.nodes[self.id];
            let k = x.got.len();
            let want = x.exp.list[k..k + n + 1].to_vec();
            let ok = r.as_ref().map(un) == want.last().copied();
            x.got.extend(want.iter());
            if ok { None } else { Some(format!("skipping {} intervals of {} gave {:?} instead of {}", n, x.what, r.as_ref().map(un), show(&want[n..]))) }
        };
        if let Some(m) = bad { self.fail("C15", "nth", m) }
        r
    }
    fn count(mut self) -> usize {
        let top = { let mut s = self.sh.borrow_mut(); let x = &mut s.nodes[self.id]; x.goal = x.exp.list.len(); x.parent.is_none() };
        if top { return self.inner.count(); }
        let mut n = 0;
        while self.next().is_some() { n += 1; }
        n
    }
    fn last(mut self) -> Option<Self::Item> {
        let top = { let mut s = self.sh.borrow_mut(); let x = &mut s.nodes[self.id]; x.goal = x.exp.list.len(); x.parent.is_none() };
        if top { return self.inner.last(); }
        let mut l = None;
        while let Some(i) = self.next() { l = Some(i); }
        l
    }
}

fn build<T: Pt>(e: &E, sh: &Sh, parent: Option<Up>) -> Dyn<T>
where TimeInterval<T>: Add<TimeValue, Output = TimeInterval<T>> + Add<TimeSpan, Output = TimeInterval<T>> {
    let what = match e { E::Src(_) => "source", E::Lit(..) => "set", E::Union(..) => "union", E::Inter(..) => "intersection", E::Excl(..) => "exclusion", E::Compl(_) => "complement", E::Shift(..) => "translation", E::Spread(..) => "spread", E::Scale(..) => "scaling" };
    let id = {
        let mut s = sh.borrow_mut();
        let is_op = !matches!(e, E::Src(_));
        s.nodes.push(Node { what, exp: expect(e), got: vec![], ended: false, is_op, parent, goal: 0 });
        s.nodes.len() - 1
    };
    let up = |limit: usize, sibling: Option<Exp>| Some(Up { node: id, limit, sibling, shift: if let E::Shift(d, _) = e { *d } else { 0 }, scale: if let E::Scale(n, ..) = e { *n } else { 1 } });
    let compl = |b: &E| { let b = expect(b); Exp::new(b.full.compl(), b.h, b.complete) };
    let inner: Dyn<T> = match e {
        E::Src(s) => Dyn(Box::new(Source::<T> { s: s.clone(), all: s.all(), pos: 0, ended: false, sh: sh.clone(), t: std::marker::PhantomData })),
        E::Lit(p, form) => { let s: TimeSet<T> = p.iter().map(|p| iv(*p)).collect(); if form % 2 == 0 { Dyn(Box::new(s.iter())) } else { Dyn(Box::new(s.into_iter())) } }
        E::Union(a, b) => {
            let l = build::<T>(a, sh, up(1, None));
            match &**b {
                E::Lit(p, form) => {
                    let s: TimeSet<T> = p.iter().map(|p| iv(*p)).collect();
                    match (form % 4, p.len()) {
                        (0, 1) => Dyn(Box::new(l.union(iv::<T>(p[0])))), (1, 1) => Dyn(Box::new(l.union(&iv::<T>(p[0])))),
                        (2, 1) if p[0].0 != NEG && p[0].1 != INF => Dyn(Box::new(l.union(T::mk(p[0].0)..=T::mk(p[0].1)))),
                        (3, 1) if p[0].0 == NEG && p[0].1 != INF => Dyn(Box::new(l.union(..=T::mk(p[0].1)))),
                        (f, _) if f % 2 == 0 => Dyn(Box::new(l.union(&s))),
                        _ => Dyn(Box::new(l.union(s))),
                    }
                }
                b => Dyn(Box::new(l.union(build::<T>(b, sh, up(1, None))))),
            }
        }
        E::Inter(a, b) => {
            let l = build::<T>(a, sh, up(1, Some(expect(b))));
            match &**b {
                E::Lit(p, form) => {
                    let s: TimeSet<T> = p.iter().map(|p| iv(*p)).collect();
                    match (form % 4, p.len()) {
                        (0, 1) => Dyn(Box::new(l.intersection(iv::<T>(p[0])))), (1, 1) => Dyn(Box::new(l.intersection(&iv::<T>(p[0])))),
                        (2, 1) if p[0].0 != NEG && p[0].1 != INF => Dyn(Box::new(l.intersection(T::mk(p[0].0)..=T::mk(p[0].1)))),
                        (3, 1) if p[0].0 != NEG && p[0].1 == INF => Dyn(Box::new(l.intersection(T::mk(p[0].0)..))),
                        (f, _) if f % 2 == 0 => Dyn(Box::new(l.intersection(&s))),
                        _ => Dyn(Box::new(l.intersection(s))),
                    }
                }
                b => Dyn(Box::new(l.intersection(build::<T>(b, sh, up(1, Some(expect(a))))))),
            }
        }
        E::Excl(a, b) => Dyn(Box::new(build::<T>(a, sh, up(1, Some(compl(b)))).exclusion(build::<T>(b, sh, up(2, Some(expect(a))))))),
        E::Compl(a) => Dyn(Box::new(build::<T>(a, sh, up(1, None)).complementary())),
        E::Shift(d, a) => Dyn(Box::new(build::<T>(a, sh, up(1, None)).translation(TimeValue::from_ticks(*d)))),
        E::Scale(n, form, a) => T::scale(build::<T>(a, sh, up(1, None)), *n, *form),
        E::Spread(l, u, a) => Dyn(Box::new(build::<T>(a, sh, None).translation(&TimeSpan::new(TimeValue::from_ticks(*l), TimeValue::from_ticks(*u))))),
    };
    Dyn(Box::new(Probe { inner, id, sh: sh.clone() }))
}

enum Root { A(Dyn<TimeValue>), B(Dyn<Timestamp>) }
macro_rules! on { ($r:expr, $x:ident, $e:expr) => { match $r { Root::A($x) => $e, Root::B($x) => $e } } }
struct Live { root: Option<Root>, sh: Sh, exp: Exp }

const BOTH: &[&str] = &["C15", "C16"];

/// a pull (or construction) through real operators; false: the session is over
fn pull<R>(ctx: &mut Ctx, l: &Sh, what: &str, f: impl FnOnce() -> R) -> Option<R> {
    let r = guarded(BOTH, what, f);
    let mut s = l.borrow_mut();
    for (p, c, d) in s.soft.drain(..) { ctx.soft_fail(&[p], &c, d); }
    ctx.checks += s.checks;
    s.checks = 0;
    for f in s.faults.drain(..) { ctx.fault(f); }
    for (k, n) in s.ahead.iter_mut().enumerate() { if *n > 0 && k > 0 { ctx.probe(&format!("pulled_while_{}_ahead", k)); } *n = 0; }
    if let Some((p, c, d)) = s.viol.take() { ctx.fail(&[p], &c, d); return None; }
    match r {
        Ok(r) => Some(r),
        Err(Caught::Injected) => { let b = s.broke.take().unwrap_or("?"); ctx.fault(b); ctx.note(|| format!("{} during {}", b, what)); None }
        Err(Caught::Panic(m)) => { ctx.fail(BOTH, &format!("panic:{}", what), m); None }
    }
}

pub struct Streams;
impl World for Streams {
    const NAME: &'static str = "streams";
    type Cfg = Cfg;
    type Step = Step;

    fn exec(cfg: &Cfg, steps: &[Step], ctx: &mut Ctx) {
        let mut live: Vec<Live> = vec![];
        for (i, s) in cfg.sess.iter().enumerate() {
            let sh: Sh = Rc::new(RefCell::new(Shared { focus: ctx.focus.clone(), ..Default::default() }));
            let exp = expect(&s.e);
            ctx.note(|| format!("session {}: {:?} expected {} {}", i, s.e, show(&exp.list), if exp.complete { "then its end" } else { "..." }));
            let root = pull(ctx, &sh, "building operators", || if s.slots { Root::B(build(&s.e, &sh, None)) } else { Root::A(build(&s.e, &sh, None)) });
            live.push(Live { root, sh, exp });
            if ctx.stopped() { return; }
        }
        if live.is_empty() { return; }
        let k = live.len();
        for (si, s) in steps.iter().enumerate() {
            if ctx.stopped() { return; }
            ctx.begin(si);
            let (Step::Pull { s: x } | Step::Nth { s: x, .. } | Step::Drain { s: x, .. } | Step::Hint { s: x } | Step::Drop { s: x }) = s;
            let l = &mut live[*x as usize % k];
            let Some(mut root) = l.root.take() else { continue };
            let (got, ended) = { let s = l.sh.borrow(); (s.nodes[0].got.len(), s.nodes[0].ended) };
            let known = l.exp.list.len().saturating_sub(got);
            let mut keep = true;
            match s {
                Step::Pull { .. } => {
                    // a consumer asks only for what must come (or for the end, again and again)
                    if known == 0 && !l.exp.complete { ctx.probe("waiting_for_live_source"); l.root = Some(root); continue; }
                    let shift_end = ended && matches!(l.sh.borrow().nodes[0].what, "translation" | "scaling");
                    if shift_end { continue; }
                    let r = pull(ctx, &l.sh, "pulling", || on!(&mut root, i, i.next().map(|i| un(&i))));
                    keep = r.is_some();
                    if let Some(r) = r {
                        ctx.note(|| format!("session {} pulled {:?}", x, r));
                        if r.is_none() { ctx.probe("reached_end"); if ended { ctx.probe("asked_after_end"); } }
                    }
                }
                Step::Nth { n, .. } => {
                    if (*n as usize) >= known { l.root = Some(root); continue; }
                    let want = l.exp.list[got + *n as usize];
                    let r = pull(ctx, &l.sh, "nth", || on!(&mut root, i, i.nth(*n as usize).map(|i| un(&i))));
                    keep = r.is_some();
                    if let Some(r) = r { ctx.check(r == Some(want), &["C15"], "nth", || format!("skipping {} intervals gave {:?} instead of {:?}", n, r, want)); ctx.note(|| format!("session {} nth {} {:?}", x, n, r)); }
                }
                Step::Drain { how, .. } => {
                    if !l.exp.complete || ended { l.root = Some(root); continue; }
                    let want: P = l.exp.list[got..].to_vec();
                    keep = false;
                    match how % 4 {
                        0 => { let r = pull(ctx, &l.sh, "collecting a vector", || on!(root, i, i.map(|i| un(&i)).collect::<Vec<_>>())); if let Some(r) = r { ctx.check(r == want, &["C15"], "collect", || format!("collected {} instead of {}", show(&r), show(&want))); } }
                        1 => {
                            let r = pull(ctx, &l.sh, "collecting a set", || on!(root, i, i.collect::<TimeSet<_>>().into_iter().map(|i| un(&i)).collect::<Vec<_>>()));
                            if let Some(r) = r { ctx.check(r == want, &["C15"], "collect-set", || format!("collected the set {} instead of {}", show(&r), show(&want))); }
                        }
                        2 => { let r = pull(ctx, &l.sh, "counting", || on!(root, i, i.count())); if let Some(r) = r { ctx.check(r == want.len(), &["C15"], "count", || format!("counted {} instead of {}", r, want.len())); } }
                        _ => { let r = pull(ctx, &l.sh, "last", || on!(root, i, i.last().map(|i| un(&i)))); if let Some(r) = r { ctx.check(r == want.last().copied(), &["C15"], "last", || format!("last is {:?} instead of {:?}", r, want.last())); } }
                    }
                    ctx.note(|| format!("session {} drained", x));
                    l.root = None;
                    continue;
                }
                Step::Hint { .. } => {
                    let r = pull(ctx, &l.sh, "size_hint", || on!(&root, i, i.size_hint()));
                    keep = r.is_some();
                    if let Some((lo, hi)) = r {
                        let rest = if ended { 0 } else { known };
                        let ok = (!l.exp.complete || lo <= rest) && hi.map_or(true, |h| h >= rest) && (lo <= hi.unwrap_or(usize::MAX));
                        ctx.soft(ok, &["C16"], "size-hint", || format!("announced ({}, {:?}) while {} intervals remained", lo, hi, rest));
                        ctx.note(|| format!("session {} hint {} {:?}", x, lo, hi));
                    }
                }
                Step::Drop { .. } => { ctx.fault("consumer_stopped"); keep = false; }
            }
            if keep { l.root = Some(root); }
            let mut m = Mix::new();
            { let s = l.sh.borrow(); for n in &s.nodes { m.add(n.got.len() as u64); m.add(n.ended as u64); m.str(n.what); if let Some(g) = n.got.last() { m.add(g.0 as u64); m.add(g.1 as u64); } } }
            ctx.state(m.0);
        }
    }

    fn plan(r: &mut Rng, focus: &str, tier: Tier) -> Plan<Cfg, Step> {
        let width = *r.pick(&[8i64, 20, 60, 1000, 1 << 40]);
        let base = match r.below(4) { 0 => 1 << 59, 1 => -(1 << 59), _ => -width / 2 };
        let ns = 1 + r.idx(3);
        let live = if focus == "C16" { 50 } else { 25 };
        let many = if r.chance(1, 80) { *r.pick(&[20usize, 80]) } else { 7 };
        let sess: Vec<Sess> = (0..ns).map(|_| { let depth = 1 + r.idx(if tier == Tier::Thorough { 5 } else { 4 }); Sess { e: gen(r, depth, base, width, live, many), slots: r.coin() } }).collect();
        let mut k: Kernel<u8> = Kernel::new(ns, NetCfg::random(r));
        let mut steps = vec![];
        let mut left: Vec<usize> = (0..ns).map(|_| 3 + r.idx(20 + 2 * (many - 7))).collect();
        for s in 0..ns { let d = r.below(1000); k.timer(s, d, 0); }
        let mut last = usize::MAX;
        while let Some(Ev::Timer { node: s, .. }) = k.pop() {
            if left[s] == 0 { continue; }
            left[s] -= 1;
            if last != s { if last != usize::MAX { k.fault("consumer_switch"); } last = s; }
            let x = s as u8;
            steps.push(match r.below(40) { 0..=31 => Step::Pull { s: x }, 32 | 33 => Step::Nth { s: x, n: r.below(4) as u8 }, 34 => Step::Drain { s: x, how: r.below(4) as u8 }, 35 => if r.chance(1, 3) { Step::Drop { s: x } } else { Step::Pull { s: x } }, _ => Step::Hint { s: x } });
            let d = if r.chance(1, 10) { k.fault("consumer_stalled"); 100_000 } else { 100 + r.below(3000) };
            k.timer(s, d, 0);
        }
        Plan { cfg: Cfg { sess }, steps, faults: k.faults, sim_us: k.now }
    }

    fn simpler(s: &Step) -> Vec<Step> {
        match s {
            Step::Nth { s, n } => { let mut v = vec![Step::Pull { s: *s }]; if *n > 0 { v.push(Step::Nth { s: *s, n: n - 1 }) } v }
            _ => vec![],
        }
    }
    fn simpler_cfg(c: &Cfg) -> Vec<Cfg> {
        let mut v = vec![];
        if c.sess.len() > 1 { for i in 0..c.sess.len() { let mut x = c.clone(); x.sess = vec![x.sess[i].clone()]; v.push(x); } }
        for i in 0..c.sess.len() {
            for e in simpler_e(&c.sess[i].e) { let mut x = c.clone(); x.sess[i].e = e; v.push(x); }
            if c.sess[i].slots { let mut x = c.clone(); x.sess[i].slots = false; v.push(x); }
        }
        v
    }
}

fn gen_pieces(r: &mut Rng, base: i64, width: i64, infinite: bool, many: usize) -> P {
    let k = match r.below(10) { 0 => 0, 1 | 2 => 1, _ => 1 + r.idx(many) };
    let mut v: P = vec![];
    let mut t = base + r.range(0, width / 4);
    for _ in 0..k {
        let len = match r.below(4) { 0 => 0, 1 => 1, _ => r.range(0, width / 4) };
        v.push((t, t + len));
        t += len + match r.below(3) { 0 => 2, 1 => 3, _ => 2 + r.range(0, width / 4) };
    }
    if let Some(l) = v.first_mut() { if r.chance(1, 8) { l.0 = NEG } }
    if infinite { if let Some(l) = v.last_mut() { if r.chance(1, 8) { l.1 = INF } } }
    v
}
fn gen(r: &mut Rng, depth: usize, base: i64, width: i64, live: u64, many: usize) -> E {
    if depth == 0 || r.chance(1, 12) {
        if r.chance(1, 6) { return E::Lit(gen_pieces(r, base, width, true, many), r.below(4) as u8); }
        let endless = if r.chance(live, 200) { let p = 3 + r.range(0, width / 2); Some((p, r.range(0, p - 2))) } else { None };
        let pieces = gen_pieces(r, base, width, endless.is_none(), many);
        let n = pieces.len() as u64 + 1;
        let end_at = if r.chance(live, 200) { Some(r.below(n) as u8) } else { None };
        let break_at = if r.chance(1, 12) { Some(r.below(n + 2) as u8) } else { None };
        let mut s = Src { pieces, endless, end_at, resume: r.coin(), break_at, hint: r.below(6) as u8 };
        if s.pieces.is_empty() && s.endless.is_some() { s.pieces.push((base, base)); }
        return E::Src(s);
    }
    let sub = |r: &mut Rng| Box::new(gen(r, depth - 1, base, width, live, many));
    match r.below(16) {
        0..=3 => { let a = sub(r); E::Union(a, sub(r)) }
        4..=7 => { let a = sub(r); E::Inter(a, sub(r)) }
        8..=10 => { let a = sub(r); E::Excl(a, sub(r)) }
        11..=13 => E::Compl(sub(r)),
        14 if base.abs() < 1 << 40 && r.coin() => { let f = r.below(8) as u8; E::Scale(r.range(1, 6), if f == 4 && width > 1000 { 7 } else { f }, sub(r)) }
        14 => E::Shift(r.range(-width, width), sub(r)),
        _ => {
            let a = sub(r);
            let (l, len) = (r.range(-width / 2, width / 2), r.range(0, 4));
            // (the spread operator drains its source when it is built)
            if lives(&a) { E::Shift(l, a) } else { E::Spread(l, l + len, a) }
        }
    }
}
fn lives(e: &E) -> bool {
    match e { E::Src(s) => !s.ends(), E::Lit(..) => false, E::Union(a, b) | E::Inter(a, b) | E::Excl(a, b) => lives(a) || lives(b), E::Compl(a) | E::Shift(_, a) | E::Spread(_, _, a) | E::Scale(_, _, a) => lives(a) }
}
fn simpler_e(e: &E) -> Vec<E> {
    let mut v = vec![];
    match e {
        E::Src(s) => {
            for i in 0..s.pieces.len() { let mut c = s.clone(); c.pieces.remove(i); if c.endless.is_none() || !c.pieces.is_empty() { v.push(E::Src(c)); } }
            if s.endless.is_some() { v.push(E::Src(Src { endless: None, ..s.clone() })); }
            if s.break_at.is_some() { v.push(E::Src(Src { break_at: None, ..s.clone() })); }
            if s.end_at.is_some() { v.push(E::Src(Src { end_at: None, ..s.clone() })); }
            if s.resume { v.push(E::Src(Src { resume: false, ..s.clone() })); }
            if s.hint > 0 { v.push(E::Src(Src { hint: 0, ..s.clone() })); }
            // renumber the bounds, keeping order and adjacency
            let m = rank(&s.pieces);
            if m != s.pieces { v.push(E::Src(Src { pieces: m, ..s.clone() })); }
        }
        E::Lit(p, f) => {
            for i in 0..p.len() { let mut c = p.clone(); c.remove(i); v.push(E::Lit(c, *f)); }
            let m = rank(p);
            if m != *p { v.push(E::Lit(m, *f)); }
        }
        E::Union(a, b) | E::Inter(a, b) | E::Excl(a, b) => {
            v.push((**a).clone());
            v.push((**b).clone());
            let mk = |x: E, y: E| match e { E::Union(..) => E::Union(Box::new(x), Box::new(y)), E::Inter(..) => E::Inter(Box::new(x), Box::new(y)), _ => E::Excl(Box::new(x), Box::new(y)) };
            for x in simpler_e(a) { v.push(mk(x, (**b).clone())); }
            for y in simpler_e(b) { v.push(mk((**a).clone(), y)); }
            // move everything to the origin together
            let d = first(e);
            if let Some(d) = d { if d != 0 { v.push(moved(e, d)); } }
        }
        E::Compl(a) => { v.push((**a).clone()); for x in simpler_e(a) { v.push(E::Compl(Box::new(x))); } }
        E::Shift(d, a) => { v.push((**a).clone()); for x in shrink_num(*d) { v.push(E::Shift(x, a.clone())); } for x in simpler_e(a) { v.push(E::Shift(*d, Box::new(x))); } }
        E::Scale(n, f, a) => { v.push((**a).clone()); if *n > 2 { v.push(E::Scale(2, *f, a.clone())) } for x in simpler_e(a) { v.push(E::Scale(*n, *f, Box::new(x))); } }
        E::Spread(l, u, a) => { v.push((**a).clone()); for x in simpler_e(a) { v.push(E::Spread(*l, *u, Box::new(x))); } }
    }
    v.retain(sane);
    v
}
fn sane(e: &E) -> bool {
    match e { E::Src(s) => s.ends() || s.delivered().len() > 2, E::Lit(..) => true, E::Union(a, b) | E::Inter(a, b) | E::Excl(a, b) => sane(a) && sane(b), E::Spread(_, _, a) => sane(a) && !lives(a), E::Compl(a) | E::Shift(_, a) | E::Scale(_, _, a) => sane(a) }
}
fn rank(p: &P) -> P {
    let mut t = 0;
    p.iter().map(|(a, b)| { let len = if *a == NEG || *b == INF { 1 } else { (b - a).min(2) }; let x = (if *a == NEG { NEG } else { t }, if *b == INF { INF } else { t + len }); t += len + 3; x }).collect()
}
fn first(e: &E) -> Option<i64> {
    match e {
        E::Src(s) => s.pieces.iter().flat_map(|p| [p.0, p.1]).find(|x| *x != NEG && *x != INF),
        E::Lit(p, _) => p.iter().flat_map(|p| [p.0, p.1]).find(|x| *x != NEG && *x != INF),
        E::Union(a, b) | E::Inter(a, b) | E::Excl(a, b) => first(a).or(first(b)),
        E::Compl(a) | E::Shift(_, a) | E::Spread(_, _, a) | E::Scale(_, _, a) => first(a),
    }
}
fn moved(e: &E, d: i64) -> E {
    let m = |x: i64| if x == NEG || x == INF { x } else { x - d };
    let mp = |p: &P| p.iter().map(|p| (m(p.0), m(p.1))).collect::<P>();
    let b = |e: &E| Box::new(moved(e, d));
    match e {
        E::Src(s) => E::Src(Src { pieces: mp(&s.pieces), ..s.clone() }),
        E::Lit(p, f) => E::Lit(mp(p), *f),
        E::Union(x, y) => E::Union(b(x), b(y)), E::Inter(x, y) => E::Inter(b(x), b(y)), E::Excl(x, y) => E::Excl(b(x), b(y)),
        E::Compl(x) => E::Compl(b(x)), E::Shift(k, x) => E::Shift(*k, b(x)), E::Spread(l, u, x) => E::Spread(*l, *u, b(x)), E::Scale(n, f, x) => E::Scale(*n, *f, b(x)),
    }
}
