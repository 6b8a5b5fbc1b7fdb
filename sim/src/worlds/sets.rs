//! Time sets and intervals edited by several clients, replicated, saved and restored after
//! crashes, and queried at every point. (C12, C13, C14; C24 with others)
use crate::compact;
use crate::engine::*;
use crate::model::is::{n as shown, Is, INF, NEG};
use crate::net::{Ev, Faults, Kernel, NetCfg};
use crate::rng::{Mix, Rng};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::hash::{Hash, Hasher};

/// An operand
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum W {
    Pt(i64), Iv(i64, i64),
    /// kind 0 a..b, 1 a.., 2 a..=b, 3 ..b, 4 ..=b
    R(u8, i64, i64),
    Set(Vec<(i64, i64)>),
    /// current set / interval of a node
    Node(u8), NodeIv(u8),
    /// current set of a node, except for a detail of its nth interval
    Near(u8, u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// op 0 union, 1 intersection, 2 exclusion
    Edit { op: u8, w: W, form: u8 },
    /// several operands combined together first, in some shape
    Group { op: u8, ws: Vec<W>, shape: u8 },
    Compl { form: u8 },
    TruncB { t: i64 }, TruncA { t: i64 },
    Shift { d: i64, form: u8 },
    Spread { l: i64, u: i64, form: u8 },
    SpreadSet { p: Vec<(i64, i64)>, form: u8 },
    Neg { form: u8 },
    /// kind 0 multiplied by an integer, 1 divided by it, 2 multiplied by n/16, 3 divided by it (a power of two),
    /// 4 multiplied by n*2^64, 5 divided by it
    Scale { kind: u8, n: i64, form: u8 },
    /// collected from intervals in any order, some of them empty
    Collect { p: Vec<(i64, i64)> },
    Load { w: W, form: u8 },
    /// the node's interval: op 0 &, 1 &=, 2 truncate before, 3 after, 4 shift, 5 spread, 6 mirror, 7 replace,
    /// 8 enlarge, 9 centered on a date, 10..15 scaled (by d, kinds of Scale)
    Iv { op: u8, w: W, d: i64, form: u8 },
    /// the set becomes a combination of the node's interval (or of a date) with a convex operand
    FromIv { op: u8, w: W, pt: Option<i64> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Do { node: u8, op: Op },
    Query { node: u8, w: W },
    /// the other time type: spans moved to dates and back
    Cross { node: u8, t: i64, form: u8 },
    Copy { from: u8, to: u8, #[serde(default)] form: u8 },
    /// a save, possibly torn by a crash at the given byte (then it never happened)
    Save { node: u8, fmt: u8, torn: Option<u16> },
    Crash { node: u8 },
    Converge,
    /// an edit with a window of the user which is interrupted at its at-th access, some times, then
    /// submitted again: op 0 set |= w, 1 set &= w, 2 interval &= w
    Cut { node: u8, op: u8, w: (i64, i64), ats: Vec<u8> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg { nodes: u8, slots: bool }

const LIM: i64 = 1 << 61;
fn fits(m: &Is) -> bool { m.0.iter().all(|(a, b)| *a != INF && *b != NEG) && m.0.len() <= 400 }
/// the infinities are not dates
fn date(x: i64) -> bool { x != INF && x != NEG && x != i64::MIN }
fn proper(w: &W) -> bool { match w { W::Pt(x) => date(*x), w => w_is(w, &[]).0.iter().all(|(a, b)| *a != INF && *b != NEG && *a != i64::MIN) } }
fn sum(a: i64, b: i64) -> bool { a == INF || a == NEG || b == INF || b == NEG || (FIRST as i128..=LAST as i128).contains(&(a as i128 + b as i128)) }

/// hasher with a fixed key
struct H(Mix);
impl Hasher for H {
    fn finish(&self) -> u64 { self.0 .0 }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); self.0.add(u64::from_le_bytes(x)); } }
}
fn h<T: Hash>(t: &T) -> u64 { let mut s = H(Mix::new()); t.hash(&mut s); s.finish() }

#[derive(Clone)]
struct M { set: Is, iv: Is }

fn range_is(k: u8, a: i64, b: i64) -> Is {
    let before = |b: i64| if b == INF || b == NEG { b } else { b - 1 };
    match k {
        0 => if a >= b { Is::empty() } else { Is::iv(a, before(b)) },
        1 => Is::iv(a, INF),
        2 => Is::iv(a, b),
        3 => Is::iv(NEG, before(b)),
        _ => Is::iv(NEG, b),
    }
}
fn w_is(w: &W, ms: &[M]) -> Is {
    match w {
        W::Pt(x) => Is::iv(*x, *x),
        W::Iv(a, b) => Is::iv(*a, *b),
        W::R(k, a, b) => range_is(*k, *a, *b),
        W::Set(p) => Is::from_pieces(p),
        W::Node(i) => ms[*i as usize % ms.len()].set.clone(),
        W::NodeIv(i) => ms[*i as usize % ms.len()].iv.clone(),
        W::Near(i, k, how) => near(&ms[*i as usize % ms.len()].set, *k as usize, *how),
    }
}
/// replaces references to nodes by what they hold now
/// almost the same set
fn near(s: &Is, k: usize, how: u8) -> Is {
    if s.is_empty() { return Is::empty(); }
    let k = k % s.0.len();
    let mut v = s.0.clone();
    let (a, b) = v[k];
    let free = |x: i64| x != INF && x != NEG && x > FIRST && x < LAST;
    match how % 8 {
        0 => if free(a) && a < b { v[k].0 = a + 1 },
        1 => if free(a) { v[k].0 = a - 1 },
        2 => if free(b) { v[k].1 = b + 1 },
        3 => if free(b) && a < b { v[k].1 = b - 1 },
        4 => { v.remove(k); }
        5 => { v.drain(..k); }
        6 => { v.truncate(k + 1); }
        _ => if free(a) && free(b) && b as i128 - a as i128 > 2 { let m = ((a as i128 + b as i128) / 2) as i64; v[k].1 = m - 1; v.push((m + 1, b)); },
    }
    Is::from_pieces(&v)
}
fn resolve(w: &W, ms: &[M]) -> W {
    match w {
        W::Node(_) | W::Near(..) => W::Set(w_is(w, ms).0),
        W::NodeIv(_) => { let m = w_is(w, ms); if m.is_empty() { W::Iv(INF, NEG) } else { W::Iv(m.lo(), m.hi()) } }
        w => w.clone(),
    }
}
fn resolve_op(o: &Op, ms: &[M]) -> Op {
    match o {
        Op::Edit { op, w, form } => Op::Edit { op: *op, w: resolve(w, ms), form: *form },
        Op::Group { op, ws, shape } => Op::Group { op: *op, ws: ws.iter().map(|w| resolve(w, ms)).collect(), shape: *shape },
        Op::Load { w, form } => Op::Load { w: resolve(w, ms), form: *form },
        Op::Iv { op, w, d, form } => Op::Iv { op: *op, w: resolve(w, ms), d: *d, form: *form },
        Op::FromIv { op, w, pt } => Op::FromIv { op: *op, w: resolve(w, ms), pt: *pt },
        o => o.clone(),
    }
}
fn comb(op: u8, a: &Is, b: &Is) -> Is { match op % 3 { 0 => a.union(b), 1 => a.inter(b), _ => a.minus(b) } }
fn convex(w: &W) -> bool { !matches!(w, W::Set(_) | W::Node(_) | W::Near(..)) }

/// what the (resolved) operation should give; None: outside of what is claimed (overflow,
/// moving an empty interval...)
fn model(m: &M, o: &Op) -> Option<M> {
    let mut r = m.clone();
    let spread = |s: &Is, l: i64, u: i64| -> Option<Is> {
        if l > u || l == INF || u == NEG { return None; }
        if !s.0.iter().all(|(a, b)| sum(*a, l) && sum(*b, u)) { return None; }
        Some(s.spread(l, u))
    };
    let ok = match o {
        Op::Edit { w, .. } | Op::Load { w, .. } | Op::Iv { op: 0 | 1 | 7.., w, .. } => proper(w),
        Op::Group { ws, .. } => ws.iter().all(proper),
        Op::FromIv { w, pt, .. } => proper(w) && pt.map_or(true, date),
        Op::Collect { p } => p.iter().all(|(a, b)| *a != INF && *b != NEG && *a != i64::MIN && *b != i64::MIN),
        _ => true,
    };
    if !ok { return None; }
    // next to the infinities, what is excluded depends on whether they are dates
    let definite = |a: &Is, w: &W| { let b = w_is(w, &[]); a.minus(&b) == a.compl().union(&b).compl() };
    match o {
        Op::Edit { op, w, .. } if op % 3 == 2 && !definite(&m.set, w) => return None,
        Op::FromIv { op, w, pt } if op % 3 == 2 && !definite(&match pt { Some(p) => Is::iv(*p, *p), None => m.iv.clone() }, w) => return None,
        _ => {}
    }
    match o {
        Op::Edit { op, w, .. } => r.set = comb(*op, &m.set, &w_is(w, &[])),
        Op::Group { op, ws, .. } => for w in ws { r.set = comb(*op, &r.set, &w_is(w, &[])) },
        Op::Compl { .. } => r.set = m.set.compl(),
        Op::TruncB { t } => r.set = m.set.inter(&Is::iv(*t, INF)),
        Op::TruncA { t } => r.set = m.set.inter(&Is::iv(NEG, *t)),
        Op::Shift { d, .. } => r.set = spread(&m.set, *d, *d)?,
        Op::Spread { l, u, .. } => r.set = spread(&m.set, *l, *u)?,
        Op::SpreadSet { p, .. } => {
            let s = Is::from_pieces(p);
            let mut x = Is::empty();
            for (l, u) in &s.0 { x = x.union(&spread(&m.set, *l, *u)?); }
            r.set = x;
        }
        Op::Neg { .. } => r.set = m.set.neg(),
        Op::Scale { kind, n, form } => r.set = scaled(&m.set, *kind, *n, *form)?,
        Op::Collect { p } => r.set = Is::from_pieces(p),
        Op::Load { w, .. } => r.set = w_is(w, &[]),
        Op::Iv { op, w, d, form } => {
            if !convex(w) { return None; }
            let x = w_is(w, &[]);
            r.iv = match op {
                0 | 1 => m.iv.inter(&x),
                2 => m.iv.inter(&Is::iv(*d, INF)),
                3 => m.iv.inter(&Is::iv(NEG, *d)),
                4 => { if m.iv.is_empty() { return None; } spread(&m.iv, *d, *d)? }
                5 => { if m.iv.is_empty() || x.is_empty() { return None; } spread(&m.iv, x.lo(), x.hi())? }
                6 => m.iv.neg(),
                8 | 9 if !date(*d) => return None,
                8 if m.iv.is_empty() => m.iv.clone(),
                8 => { let (a, b) = (m.iv.lo(), m.iv.hi()); if !sum(a, -d) || !sum(b, *d) { return None; } Is::iv(if a == NEG { a } else { a - d }, if b == INF { b } else { b + d }) }
                10..=15 => { if m.iv.is_empty() { return None; } scaled(&m.iv, *op - 10, *d, *form)? }
                9 => { if x.is_empty() || !date(x.lo()) { return None; } if *d < 0 { Is::empty() } else { if !sum(x.lo(), -d) || !sum(x.lo(), *d) { return None; } Is::iv(x.lo() - d, x.lo() + d) } }
                _ => x,
            }
        }
        Op::FromIv { op, w, pt } => {
            if !convex(w) { return None; }
            let a = match pt { Some(p) => Is::iv(*p, *p), None => m.iv.clone() };
            r.set = comb(*op, &a, &w_is(w, &[]));
        }
    }
    if fits(&r.set) && fits(&r.iv) { Some(r) } else { None }
}

/// a bound multiplied (or divided) by an integer or a fraction, rounded toward zero
fn scaled_bound(t: i64, kind: u8, n: i64, single: bool) -> Option<i64> {
    if t == INF || t == NEG {
        return match kind { 0 | 2 | 4 if n == 0 => Some(0), _ => Some(if (t == INF) == (n > 0) { INF } else { NEG }) };
    }
    let (t, n) = (t as i128, n as i128);
    let max: i128 = if single { 1 << 24 } else { 1 << 52 };
    let x = match kind {
        0 => t * n,
        1 => t / n,
        2 if (t * n).abs() <= max && t.abs() <= max => t * n / 16,
        4 if t == 0 || n == 0 => 0,
        5 => 0,
        3 if (t * 16).abs() <= max && (n.abs() as u64).is_power_of_two() => t * 16 / n,
        _ => return None,
    };
    if (FIRST as i128..=LAST as i128).contains(&x) { Some(x as i64) } else { None }
}
fn single(kind: u8, form: u8) -> bool { (kind == 2 || kind == 3) && form % 2 == 1 }
fn scaled(s: &Is, kind: u8, n: i64, form: u8) -> Option<Is> {
    if kind % 2 == 1 && n == 0 { return None; }
    let mut v = vec![];
    for (a, b) in &s.0 {
        let (a, b) = (scaled_bound(*a, kind, n, single(kind, form))?, scaled_bound(*b, kind, n, single(kind, form))?);
        v.push((a.min(b), a.max(b)));
    }
    Some(Is::from_pieces(&v))
}
/// the same with the code: form says which type the factor has, and how the operation is written
macro_rules! scale_with {
    ($x:expr, $kind:expr, $n:expr, $form:expr, $stream:expr) => {{
        let (x, kind, n, form) = ($x, $kind, $n, $form);
        macro_rules! go {
            ($t:ty) => {{
                let n = n as $t;
                match (kind, form / 16 % 4) {
                    (0, 0) => x * n,
                    (0, 1) => { let mut x = x; x *= n; x }
                    (0, 2) => n * x,
                    (0, _) => $stream(x, n),
                    (_, 0 | 2) => x / n,
                    (_, _) => { let mut x = x; x /= n; x }
                }
            }};
        }
        macro_rules! gof {
            ($t:ty) => {{
                let n = n as $t / 16.;
                match (kind, form / 16 % 4) {
                    (2, 0) => x * n,
                    (2, 1) => { let mut x = x; x *= n; x }
                    (2, 2) => n * x,
                    (2, _) => $stream(x, n),
                    (_, 0 | 2) => x / n,
                    (_, _) => { let mut x = x; x /= n; x }
                }
            }};
        }
        if kind >= 4 {
            let n = (n as i128) << 64;
            if form % 2 == 0 && n >= 0 { let n = n as u128; return if kind == 4 { if form % 4 == 0 { x * n } else { n * x } } else { x / n }; }
            return if kind == 4 { if form % 4 == 1 { x * n } else { $stream(x, n) } } else { x / n };
        }
        if kind >= 2 { if single(kind, form) { gof!(f32) } else { gof!(f64) } }
        else {
            match form % 16 {
                0 if i8::try_from(n).is_ok() => go!(i8),
                1 if u8::try_from(n).is_ok() => go!(u8),
                2 if i16::try_from(n).is_ok() => go!(i16),
                3 if u16::try_from(n).is_ok() => go!(u16),
                4 if i32::try_from(n).is_ok() => go!(i32),
                5 if u32::try_from(n).is_ok() => go!(u32),
                6 if u64::try_from(n).is_ok() => go!(u64),
                7 if u128::try_from(n).is_ok() => go!(u128),
                8 if usize::try_from(n).is_ok() => go!(usize),
                9 => go!(i128),
                10 => go!(isize),
                _ => go!(i64),
            }
        }
    }};
}
trait Scaled<N>: Sized { fn streamed(self, n: N) -> Self; }
macro_rules! streamed {
    ($($t:ty)*) => { $(
        impl Scaled<$t> for chronologic::TimeSpans { fn streamed(self, n: $t) -> Self { use chronologic::iter::TimeScaling; use chronologic::TimeWindow; (&self).iter().scaling(n).collect() } }
        impl Scaled<$t> for chronologic::TimeSpan { fn streamed(self, n: $t) -> Self { use chronologic::iter::TimeScaling; self.into_iter().scaling(n).next().unwrap() } }
    )* };
}
streamed!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize f32 f64);
fn scale_set(x: chronologic::TimeSpans, kind: u8, n: i64, form: u8) -> chronologic::TimeSpans { scale_with!(x, kind, n, form, Scaled::streamed) }
fn scale_span(x: chronologic::TimeSpan, kind: u8, n: i64, form: u8) -> chronologic::TimeSpan { scale_with!(x, kind, n, form, Scaled::streamed) }

/// dates are scaled around the origin
trait Around: Sized { fn to_spans(self) -> chronologic::TimeSpans; fn of_spans(s: chronologic::TimeSpans) -> Self; }
impl Around for chronologic::TimeSpans { fn to_spans(self) -> Self { self } fn of_spans(s: Self) -> Self { s } }
impl Around for chronologic::TimeSlots {
    fn to_spans(self) -> chronologic::TimeSpans { use chronologic::TimeBounds; (&self).into_iter().map(|i| chronologic::TimeInterval::new(i.lower_bound().since_origin(), i.upper_bound().since_origin())).collect() }
    fn of_spans(s: chronologic::TimeSpans) -> Self { s + chronologic::Timestamp::from_origin(chronologic::TimeValue::from_ticks(0)) }
}

macro_rules! timed {
    ($outer_mod:ident, $outer_t:ty, $outer_mk:expr, $outer_rd:expr) => {
        mod $outer_mod {
            use super::*;
            use chronologic::iter::*;
            use chronologic::*;
            type T = $outer_t;
            type S = TimeSet<T>;
            type I = TimeInterval<T>;
            fn mk(x: i64) -> T { ($outer_mk)(x) }
            fn rd(t: T) -> i64 { ($outer_rd)(t) }
            fn ticks(x: i64) -> TimeValue { TimeValue::from_ticks(x) }
            fn iv(a: i64, b: i64) -> I { TimeInterval::new(mk(a), mk(b)) }
            fn span(a: i64, b: i64) -> TimeSpan { TimeInterval::new(ticks(a), ticks(b)) }
            fn spans(p: &[(i64, i64)]) -> TimeSpans { Is::from_pieces(p).0.iter().map(|(a, b)| span(*a, *b)).collect() }
            /// a set built piece by piece, already sorted and disjoint
            fn build(m: &Is) -> S { m.0.iter().map(|(a, b)| iv(*a, *b)).collect() }
            fn pieces(s: &S) -> Vec<(i64, i64)> { s.into_iter().map(|i| (rd(i.lower_bound()), rd(i.upper_bound()))).collect() }
            fn iv_is(i: &I) -> (bool, i64, i64) { (i.is_empty(), rd(i.lower_bound()), rd(i.upper_bound())) }

            macro_rules! with_convex {
                ($w:expr, $x:ident, $e:expr) => {
                    match $w {
                        W::Pt(a) => { let $x = mk(*a); $e }
                        W::Iv(a, b) => { let $x = iv(*a, *b); $e }
                        W::R(0, a, b) => { let $x = mk(*a)..mk(*b); $e }
                        W::R(1, a, _) => { let $x = mk(*a)..; $e }
                        W::R(2, a, b) => { let $x = mk(*a)..=mk(*b); $e }
                        W::R(3, _, b) => { let $x = ..mk(*b); $e }
                        W::R(_, _, b) => { let $x = ..=mk(*b); $e }
                        _ => unreachable!(),
                    }
                };
            }
            // ranges other than a date have stream operators
            macro_rules! with_streamable {
                ($w:expr, $x:ident, $e:expr) => {
                    match $w {
                        W::Iv(a, b) => { let $x = iv(*a, *b); $e }
                        W::R(0, a, b) => { let $x = mk(*a)..mk(*b); $e }
                        W::R(1, a, _) => { let $x = mk(*a)..; $e }
                        W::R(2, a, b) => { let $x = mk(*a)..=mk(*b); $e }
                        W::R(3, _, b) => { let $x = ..mk(*b); $e }
                        W::R(_, _, b) => { let $x = ..=mk(*b); $e }
                        W::Pt(a) => { let $x = I::singleton(mk(*a)); $e }
                        _ => unreachable!(),
                    }
                };
            }

            fn set_of(w: &W) -> S {
                match w {
                    W::Set(p) => build(&Is::from_pieces(p)),
                    w => with_convex!(w, x, S::from(x)),
                }
            }
            fn iv_of(w: &W) -> I { with_convex!(w, x, I::from(x)) }

            fn edit(s: S, op: u8, w: &W, form: u8) -> S {
                if !convex(w) {
                    let y = set_of(w);
                    return match (op % 3, form % 9) {
                        (0, 0) => s | y, (0, 1) => &s | y, (0, 2) => s | &y, (0, 3) => &s | &y,
                        (0, 4) => { let mut s = s; s |= y; s } (0, 5) => { let mut s = s; s |= &y; s }
                        (0, 6) => s.iter().union(y.iter()).collect(),
                        (0, 7) => s.into_iter().union(&y).collect(),
                        (0, _) => vec![s, y].into_iter().collect(),
                        (1, 0) => s & y, (1, 1) => &s & y, (1, 2) => s & &y, (1, 3) => &s & &y,
                        (1, 4) => { let mut s = s; s &= y; s } (1, 5) => { let mut s = s; s &= &y; s }
                        (1, 6) => s.iter().intersection(y.iter()).collect(),
                        (1, _) => s.into_iter().intersection(y).collect(),
                        (_, 0) => s & !y, (_, 1) => &s & !y, (_, 2) => s & &!y,
                        (_, 3) => { let mut s = s; s &= !y; s }
                        (_, 4) => s.iter().exclusion(y.iter()).collect(),
                        (_, 5) => (&s).into_iter().exclusion((&y).into_iter()).collect(),
                        (_, 6) => !(!s | y),
                        (_, _) => s.into_iter().intersection(y.into_iter().complementary()).collect(),
                    };
                }
                match (op % 3, form % 6) {
                    (0, 0) => with_convex!(w, x, s | x),
                    (0, 1) => with_convex!(w, x, &s | x),
                    (0, 2) => { let mut s = s; with_convex!(w, x, s |= x); s }
                    (0, 3) => with_streamable!(w, x, s.iter().union(x).collect()),
                    (0, 4) => with_streamable!(w, x, (&s).into_iter().union(&I::from(x)).collect()),
                    (0, _) => s | set_of(w),
                    (1, 0) => with_convex!(w, x, s & x),
                    (1, 1) => with_convex!(w, x, &s & x),
                    (1, 2) => { let mut s = s; with_convex!(w, x, s &= x); s }
                    (1, 3) => with_streamable!(w, x, s.iter().intersection(x).collect()),
                    (1, 4) => with_streamable!(w, x, (&s).into_iter().intersection(&I::from(x)).collect()),
                    (1, _) => s & set_of(w),
                    (_, 0) => match w { W::Pt(a) => s & !mk(*a), w => s & !iv_of(w) },
                    (_, 1) => match w { W::Pt(a) => &s & !mk(*a), w => &s & !iv_of(w) },
                    (_, 2) => { let mut s = s; s &= !iv_of(w); s }
                    (_, 3) => s.iter().exclusion(iv_of(w).into_iter()).collect(),
                    (_, 4) => s & !set_of(w),
                    (_, _) => !(!s | iv_of(w)),
                }
            }

            #[derive(Clone)]
            struct N { set: S, iv: I }

            /// performs the operation; Some(flag) for a truncation
            fn apply(n: &mut N, o: &Op) -> Option<bool> {
                let s = n.set.clone();
                match o {
                    Op::Edit { op, w, form } => n.set = edit(s, *op, w, *form),
                    Op::Group { op, ws, shape } => {
                        let sets: Vec<S> = ws.iter().map(|w| set_of(w)).collect();
                        // a union of unions, an intersection of intersections, minus a union
                        let op1 = if *op % 3 == 1 { 1 } else { 0 };
                        let two = |a: S, b: S| -> S { if op1 == 1 { a & b } else { a | b } };
                        let all = if op1 == 1 { S::all() } else { S::empty() };
                        let g: S = match shape % 4 {
                            0 => sets.into_iter().fold(all, |a, b| two(a, b)),
                            1 => sets.into_iter().rev().fold(all, |a, b| two(b, a)),
                            2 if op1 == 0 => sets.into_iter().collect(),
                            3 if op1 == 0 => sets.iter().flat_map(|s| s.into_iter()).collect(),
                            _ => {
                                let mut v = sets;
                                if v.is_empty() { v.push(all); }
                                while v.len() > 1 {
                                    let mut x = vec![];
                                    let mut it = v.into_iter();
                                    while let Some(a) = it.next() { x.push(match it.next() { Some(b) => two(a, b), None => a }); }
                                    v = x;
                                }
                                v.pop().unwrap()
                            }
                        };
                        n.set = match *op % 3 { 0 => s | g, 1 => s & g, _ => s & !g };
                    }
                    Op::Compl { form } => n.set = match form % 3 { 0 => !s, 1 => s.iter().complementary().collect(), _ => (&s).into_iter().complementary().collect() },
                    Op::TruncB { t } => return Some(n.set.truncate_before(mk(*t))),
                    Op::TruncA { t } => return Some(n.set.truncate_after(mk(*t))),
                    Op::Shift { d, form } => n.set = match form % 5 {
                        0 => s + ticks(*d), 1 => s - ticks(-*d),
                        2 => { let mut s = s; s += ticks(*d); s }
                        3 => { let mut s = s; s -= ticks(-*d); s }
                        _ => s.iter().translation(ticks(*d)).collect(),
                    },
                    Op::Spread { l, u, form } => { let x = span(*l, *u); n.set = match form % 5 {
                        0 => s + x, 1 => s - (-x),
                        2 => { let mut s = s; s += x; s }
                        3 => { let mut s = s; s -= -x; s }
                        _ => s.iter().translation(&x).collect(),
                    } }
                    Op::SpreadSet { p, form } => { let x = spans(p); n.set = match form % 4 {
                        0 => s + x, 1 => s - (-x),
                        2 => { let mut s = s; s += x; s }
                        _ => { let mut s = s; s -= -x; s }
                    } }
                    Op::Neg { .. } => n.set = -s,
                    Op::Scale { kind, n: f, form } => {
                        n.set = S::of_spans(scale_set(s.to_spans(), *kind, *f, *form));
                    }
                    Op::Collect { p } => n.set = p.iter().map(|(a, b)| iv(*a, *b)).collect(),
                    Op::Load { w, form } => n.set = match (w, form % 3) {
                        (W::Iv(a, b), 0) => S::convex(mk(*a), mk(*b)),
                        (W::Pt(a), 0) => S::singleton(mk(*a)),
                        (w, _) => {
                            let m = w_is(w, &[]);
                            if m.is_empty() && form % 3 == 1 { S::empty() }
                            else if m == Is::all() && form % 3 == 1 { S::all() }
                            else { set_of(w) }
                        }
                    },
                    Op::Iv { op, w, d, form } => match op {
                        0 => n.iv = if form % 2 == 0 { with_convex!(w, x, n.iv & x) } else { with_convex!(w, x, &n.iv & x) },
                        1 => with_convex!(w, x, n.iv &= x),
                        2 => return Some(n.iv.truncate_before(mk(*d))),
                        3 => return Some(n.iv.truncate_after(mk(*d))),
                        4 => n.iv = match form % 5 { 0 => n.iv + ticks(*d), 1 => n.iv - ticks(-*d), 2 => { let mut i = n.iv; i += ticks(*d); i } 3 => { let mut i = n.iv; i -= ticks(-*d); i } _ => ticks(*d) + n.iv },
                        5 => {
                            let m = w_is(w, &[]);
                            let x = span(m.lo(), m.hi());
                            n.iv = match form % 4 { 0 => n.iv + x, 1 => n.iv - (-x), 2 => { let mut i = n.iv; i += x; i } _ => { let mut i = n.iv; i -= -x; i } };
                        }
                        6 => n.iv = -n.iv,
                        10..=15 => {
                            let (_, a, b) = iv_is(&n.iv);
                            let i = scale_span(span(a, b), *op - 10, *d, *form);
                            n.iv = iv(i.lower_bound().as_ticks(), i.upper_bound().as_ticks());
                        }
                        8 => n.iv = n.iv.enlarge(ticks(*d)).unwrap_or_default(),
                        9 => n.iv = match w { W::Pt(p) => I::centered(mk(*p), ticks(*d)), w => I::centered(iv_of(w).lower_bound(), ticks(*d)) }.unwrap_or(I::empty()),
                        _ => n.iv = match (w, form % 4) {
                            (W::Iv(NEG, INF), 0) => I::from(..),
                            (W::Iv(NEG, INF), 1) => I::all(),
                            (W::Iv(a, b), 2) if a > b => I::default(),
                            (W::R(1, a, _), 0) => I::after(mk(*a)),
                            (W::R(4, _, b), 0) => I::before(mk(*b)),
                            (W::Pt(a), 0) => I::singleton(mk(*a)),
                            (W::Iv(a, b), 0) => (mk(*a), mk(*b)).into(),
                            (w, _) => iv_of(w),
                        },
                    },
                    Op::FromIv { op, w, pt } => n.set = match (op % 3, pt) {
                        (0, Some(p)) => with_convex!(w, x, mk(*p) | x),
                        (0, None) => with_convex!(w, x, n.iv | x),
                        (1, Some(p)) => S::from(with_convex!(w, x, mk(*p) & x)),
                        (1, None) => S::from(with_convex!(w, x, n.iv & x)),
                        (_, Some(p)) => S::from(mk(*p)) & !iv_of(w),
                        (_, None) => !(!n.iv | set_of(w)),
                    },
                }
                None
            }

            #[derive(Clone, Serialize, Deserialize)]
            struct Durable { set: TimeSet<T>, iv: TimeInterval<T>, bounds: Vec<T>, spans: Vec<TimeValue> }
            fn encode(d: &Durable, fmt: u8) -> Result<Vec<u8>, String> {
                match fmt % 4 {
                    0 => serde_json::to_vec(d).map_err(|e| e.to_string()),
                    1 => compact::to_bytes(d).map_err(|e| e.to_string()),
                    2 => serde_json::to_vec_pretty(d).map_err(|e| e.to_string()),
                    _ => serde_json::to_value(d).map(|v| v.to_string().into_bytes()).map_err(|e| e.to_string()),
                }
            }
            fn decode(b: &[u8], fmt: u8) -> Result<Durable, String> {
                match fmt % 4 {
                    0 => serde_json::from_slice(b).map_err(|e| e.to_string()),
                    1 => compact::from_bytes(b).map_err(|e| e.to_string()),
                    2 => serde_json::from_reader(b).map_err(|e| e.to_string()),
                    _ => serde_json::from_slice::<serde_json::Value>(b).and_then(serde_json::from_value).map_err(|e| e.to_string()),
                }
            }

            /// a window of the user, whose accesses may be interrupted
            struct User<'a> { lo: i64, hi: i64, calls: &'a Cell<u32>, at: u32 }
            impl User<'_> { fn tick(&self) { let k = self.calls.get(); self.calls.set(k + 1); if k == self.at { inject() } } }
            impl TimeBounds for User<'_> {
                type TimePoint = T;
                fn is_empty(&self) -> bool { self.tick(); self.lo > self.hi }
                fn is_low_bounded(&self) -> bool { self.tick(); self.lo <= self.hi && self.lo != NEG }
                fn is_up_bounded(&self) -> bool { self.tick(); self.lo <= self.hi && self.hi != INF }
                fn lower_bound(&self) -> T { self.tick(); mk(if self.lo > self.hi { INF } else { self.lo }) }
                fn upper_bound(&self) -> T { self.tick(); mk(if self.lo > self.hi { NEG } else { self.hi }) }
            }
            impl From<User<'_>> for I { fn from(u: User<'_>) -> I { if u.is_empty() { I::empty() } else { I::new(u.lower_bound(), u.upper_bound()) } } }
            impl TimeConvex for User<'_> {}
            fn cut(n: &mut N, op: u8, w: (i64, i64), at: u32, calls: &Cell<u32>) {
                let u = User { lo: w.0, hi: w.1, calls, at };
                match op % 3 { 0 => n.set |= u, 1 => n.set &= u, _ => n.iv &= u }
            }

            const P24: &[&str] = &["C24"];
            const P12: &[&str] = &["C12"];
            const P13: &[&str] = &["C13"];
            const P14: &[&str] = &["C14"];

            /// does the real state match? (what does not match and is not under check is only noted)
            fn same(ctx: &mut Ctx, props: &[&str], class: &str, real: &N, m: &M, what: &dyn Fn() -> String) -> bool {
                let p = match ctx.soft_real(props, "reading a set", || pieces(&real.set)) { Some(p) => p, None => return false };
                let mut all = true;
                let ok = p == m.set.0;
                all &= ok;
                if !ctx.soft(ok, props, class, || format!("{}: the set should be {}, it is {}", what(), m.set.show(), crate::model::is::show(&p))) { return false; }
                let (e, a, b) = iv_is(&real.iv);
                let ok = if m.iv.is_empty() { e } else { !e && (a, b) == (m.iv.lo(), m.iv.hi()) };
                all &= ok;
                if !ctx.soft(ok, props, &format!("{}:interval", class), || format!("{}: the interval should be {}, it is [{},{}] (empty: {})", what(), m.iv.show(), shown(a), shown(b), e)) { return false; }
                if !all { return false; }
                // a canonical representation: equal to, and hashing as, what is built directly
                let b = match ctx.soft_real(props, "building a set", || build(&m.set)) { Some(b) => b, None => return false };
                let i = if m.iv.is_empty() { I::empty() } else { iv(m.iv.lo(), m.iv.hi()) };
                ctx.soft(real.set == b && b == real.set && !(real.set != b) && h(&real.set) == h(&b), props, &format!("{}:equality", class), || format!("{}: {} is not equal to (or does not hash as) itself built directly", what(), m.set.show()))
                    && ctx.soft(real.iv == i && h(&real.iv) == h(&i), props, &format!("{}:interval-equality", class), || format!("{}: interval {} is not equal to (or does not hash as) itself built directly", what(), m.iv.show()))
            }
            /// what the real state is, when it makes sense
            fn actual(real: &N) -> Option<M> {
                let p = guarded(P12, "reading a set", || pieces(&real.set)).ok()?;
                let set = Is::from_pieces(&p);
                let (e, a, b) = iv_is(&real.iv);
                if set.0 != p || (!e && a > b) || !fits(&set) { return None; }
                Some(M { set, iv: if e { Is::empty() } else { Is::iv(a, b) } })
            }

            fn query(ctx: &mut Ctx, real: &N, m: &M, w: &W) {
                let x = w_is(w, &[]);
                let bounds_of = |m: &Is| (m.lo() != NEG && !m.is_empty(), m.hi() != INF && !m.is_empty());
                macro_rules! q { ($name:expr, $real:expr, $want:expr, $who:expr) => {{
                    let want = $want;
                    let r = match ctx.look(P13, $name, || $real) { Some(r) => r, None => return };
                    if !ctx.soft(r == want, P13, concat!("query:", $name), || format!("{} with {:?}: {} answered {:?} instead of {:?}", $who.show(), w, $name, r, want)) { return; }
                }} }
                macro_rules! shape { ($v:expr, $m:expr) => {{
                    let (lb, ub) = bounds_of(&$m);
                    q!("is_empty", TimeBounds::is_empty(&$v), $m.is_empty(), $m);
                    q!("is_singleton", $v.is_singleton(), $m.0.len() == 1 && $m.lo() == $m.hi(), $m);
                    q!("is_low_bounded", $v.is_low_bounded(), lb, $m);
                    q!("is_up_bounded", $v.is_up_bounded(), ub, $m);
                    q!("is_bounded", $v.is_bounded(), lb && ub, $m);
                    q!("is_convex", $v.is_convex(), $m.0.len() <= 1, $m);
                    q!("convex_count", $v.convex_count(), $m.0.len(), $m);
                    q!("is_all", $v.is_all(), $m == Is::all(), $m);
                    q!("iter", $v.iter().map(|i| (rd(i.lower_bound()), rd(i.upper_bound()))).collect::<Vec<_>>(), $m.0.clone(), $m);
                    q!("iter count", $v.iter().count(), $m.0.len(), $m);
                    q!("iter last", $v.iter().last().map(|i| (rd(i.lower_bound()), rd(i.upper_bound()))), $m.0.last().copied(), $m);
                    for k in 0..3 { q!("iter nth", { let mut it = $v.iter(); let a = it.nth(k); (a, it.next()) }, ($m.0.get(k).map(|p| iv(p.0, p.1)), $m.0.get(k + 1).map(|p| iv(p.0, p.1))), $m); }
                    if !$m.is_empty() {
                        q!("lower_bound", rd($v.lower_bound()), $m.lo(), $m);
                        q!("upper_bound", rd($v.upper_bound()), $m.hi(), $m);
                        q!("convex_envelope", iv_is(&$v.convex_envelope()), (false, $m.lo(), $m.hi()), $m);
                    }
                }} }
                shape!(real.set, m.set);
                shape!(real.iv, m.iv);
                let ord = |a: &Is, b: &Is| -> Option<std::cmp::Ordering> {
                    use std::cmp::Ordering::*;
                    if a.hi() < b.lo() { Some(Less) } else if a.lo() > b.hi() { Some(Greater) } else if a == b { Some(Equal) } else { None }
                };
                macro_rules! against { ($v:expr, $m:expr, $y:expr) => {{
                    q!("eq", $v == $y, $m == x, $m);
                    q!("ne", $v != $y, $m != x, $m);
                    if !$m.is_empty() && !x.is_empty() {
                        let o = ord(&$m, &x);
                        q!("partial_cmp", $v.partial_cmp(&$y), o, $m);
                        q!("lt", $v < $y, o == Some(std::cmp::Ordering::Less), $m);
                        q!("gt", $v > $y, o == Some(std::cmp::Ordering::Greater), $m);
                        q!("le", $v <= $y, matches!(o, Some(std::cmp::Ordering::Less | std::cmp::Ordering::Equal)), $m);
                        q!("ge", $v >= $y, matches!(o, Some(std::cmp::Ordering::Greater | std::cmp::Ordering::Equal)), $m);
                    }
                    q!("overlaps", $v.overlaps(&$y), $m.overlaps(&x), $m);
                    q!("contains", $v.contains(&$y), x.subset(&$m), $m);
                }} }
                q!("into_iter count", real.set.clone().into_iter().count(), m.set.0.len(), m.set);
                q!("into_iter last", (&real.set).into_iter().last(), m.set.0.last().map(|p| iv(p.0, p.1)), m.set);
                q!("into_iter nth", real.set.clone().into_iter().nth(1), m.set.0.get(1).map(|p| iv(p.0, p.1)), m.set);
                if convex(w) {
                    with_convex!(w, y, {
                        if proper(w) { shape!(y, x); }
                        against!(real.set, m.set, y);
                        against!(real.iv, m.iv, y);
                        {
                            q!("overlapped", y.overlaps(&real.set), x.overlaps(&m.set), m.set);
                            q!("contained", TimeContaining::contains(&y, &real.set), m.set.subset(&x), m.set);
                        }
                        {
                            q!("interval overlapped", y.overlaps(&real.iv), x.overlaps(&m.iv), m.iv);
                            q!("interval contained", TimeContaining::contains(&y, &real.iv), m.iv.subset(&x), m.iv);
                        }
                    });
                } else {
                    let y = match ctx.soft_real(P12, "building a set", || set_of(w)) { Some(y) => y, None => return };
                    against!(real.set, m.set, y);
                    against!(real.iv, m.iv, y);
                }
                // every bound and its neighbours
                for b in m.set.0.iter().chain(x.0.iter()).flat_map(|(a, b)| [*a, *b]).take(24).collect::<Vec<_>>() {
                    if b == INF || b == NEG { continue; }
                    for t in [b - 1, b, b + 1] {
                        if !date(t) { continue; }
                        let p = mk(t);
                        let yes = m.set.has(t);
                        q!("contains date", real.set.contains(&p), yes, m.set);
                        q!("overlaps date", real.set.overlaps(&p), yes, m.set);
                        q!("interval contains date", real.iv.contains(&p), m.iv.has(t), m.iv);
                    }
                }
                if m.set.is_empty() { ctx.probe("query_on_empty_set"); }
                if m.set == Is::all() { ctx.probe("query_on_everything"); }
                if m.set.0.len() > 3 { ctx.probe("query_on_many_pieces"); }
                if m.set.0.iter().any(|(a, b)| a == b) { ctx.probe("query_with_single_dates"); }
            }

            fn cross(ctx: &mut Ctx, real: &N, m: &M, t: i64, form: u8) {
                if !m.set.0.iter().all(|(a, b)| sum(*a, t) && sum(*b, t) && sum(*a, -t) && sum(*b, -t)) { return; }
                let spans: TimeSpans = m.set.0.iter().map(|(a, b)| span(*a, *b)).collect();
                let slots: TimeSlots = m.set.0.iter().map(|(a, b)| TimeInterval::new(Timestamp::from_origin(ticks(*a)), Timestamp::from_origin(ticks(*b)))).collect();
                let d = Timestamp::from_origin(ticks(t));
                let out = |s: TimeSlots| -> Vec<(i64, i64)> { (&s).into_iter().map(|i| (i.lower_bound().since_origin().as_ticks(), i.upper_bound().since_origin().as_ticks())).collect() };
                let (what, r, want) = match form % 6 {
                    5 => ("spans - date", ctx.soft_real(P12, "spans - date", || out(spans - d)), m.set.shift(-t)),
                    0 => ("spans + date", ctx.soft_real(P12, "spans + date", || out(spans + d)), m.set.shift(t)),
                    1 => ("date + spans", ctx.soft_real(P12, "date + spans", || out(d + spans)), m.set.shift(t)),
                    2 => ("date - spans", ctx.soft_real(P12, "date - spans", || out(d - spans)), m.set.neg().shift(t)),
                    3 => ("slots + spans", ctx.soft_real(P12, "slots + spans", || out(slots + TimeSpans::from(span(0, 0)))), m.set.clone()),
                    _ => ("- spans", ctx.soft_real(P12, "mirrored spans", || out(-spans + d)), m.set.neg().shift(t)),
                };
                let r = match r { Some(r) => r, None => return };
                ctx.soft(r == want.0, P12, "cross", || format!("{} with {} and date {}: {} instead of {}", what, m.set.show(), t, crate::model::is::show(&r), want.show()));
                let _ = real;
                // differences of slots are spans
                if !m.iv.is_empty() && [m.iv.lo(), m.iv.hi()].iter().all(|x| sum(*x, t) && sum(*x, -t) && sum(-*x, t.saturating_add(3))) {
                    let slot = TimeSlot::new(Timestamp::from_origin(ticks(m.iv.lo())), Timestamp::from_origin(ticks(m.iv.hi())));
                    let sp = TimeSpan::new(ticks(m.iv.lo()), ticks(m.iv.hi()));
                    let rs = |s: TimeSpan| (s.lower_bound().as_ticks(), s.upper_bound().as_ticks());
                    let rt = |s: TimeSlot| (s.lower_bound().since_origin().as_ticks(), s.upper_bound().since_origin().as_ticks());
                    let len = if m.iv.lo() == NEG || m.iv.hi() == INF { INF } else { (m.iv.hi() as i128 - m.iv.lo() as i128).min(INF as i128) as i64 };
                    let got = match ctx.look(P13, "duration", || slot.duration().as_ticks()) { Some(g) => g, None => return };
                    if !ctx.soft(got == len, P13, "query:duration", || format!("the duration of {} is {} instead of {}", m.iv.show(), shown(got), shown(len))) { return; }
                    let (what, r, want) = match form % 11 {
                        6 => ("span - date", ctx.soft_real(P12, "span - date", || rt(sp - d)), m.iv.shift(-t)),
                        7 => ("value + slot", ctx.soft_real(P12, "value + slot", || rt(ticks(t) + slot)), m.iv.shift(t)),
                        8 => ("value - slot", ctx.soft_real(P12, "value - slot", || rt(ticks(t) - slot)), m.iv.neg().shift(t)),
                        9 => ("value - span", ctx.soft_real(P12, "value - span", || rs(ticks(t) - sp)), m.iv.neg().shift(t)),
                        10 => ("slot - wide slot", ctx.soft_real(P12, "slot - slot", || rs(TimeSlot::new(d, d + ticks(3)) - slot)), m.iv.neg().spread(t, t + 3)),
                        0 => ("slot - date", ctx.soft_real(P12, "slot - date", || rs(slot - d)), m.iv.shift(-t)),
                        1 => ("date - slot", ctx.soft_real(P12, "date - slot", || rs(d - slot)), m.iv.neg().shift(t)),
                        2 => ("date + span", ctx.soft_real(P12, "date + span", || rt(d + sp)), m.iv.shift(t)),
                        3 => ("date - span", ctx.soft_real(P12, "date - span", || rt(d - sp)), m.iv.neg().shift(t)),
                        4 => ("span + date", ctx.soft_real(P12, "span + date", || rt(sp + d)), m.iv.shift(t)),
                        _ => ("slot - slot", ctx.soft_real(P12, "slot - slot", || rs(slot - TimeSlot::singleton(d))), m.iv.shift(-t)),
                    };
                    let r = match r { Some(r) => r, None => return };
                    ctx.soft(r == (want.lo(), want.hi()), P12, "cross:interval", || format!("{} with {} and date {}: {:?} instead of {}", what, m.iv.show(), t, r, want.show()));
                }
            }

            pub fn exec(cfg: &Cfg, steps: &[Step], ctx: &mut Ctx) {
                let k = cfg.nodes.max(1) as usize;
                let mut ms: Vec<M> = vec![M { set: Is::empty(), iv: Is::empty() }; k];
                let mut ns: Vec<N> = vec![N { set: S::empty(), iv: I::empty() }; k];
                // what survives a crash: the last completed save, and the operations since
                let mut saves: Vec<(Vec<u8>, u8)> = vec![];
                for n in &ns { saves.push((encode(&Durable { set: n.set.clone(), iv: n.iv, bounds: vec![], spans: vec![] }, 0).unwrap(), 0)); }
                let mut logs: Vec<Vec<Op>> = vec![vec![]; k];
                for (si, s) in steps.iter().enumerate() {
                    if ctx.stopped() { return; }
                    ctx.begin(si);
                    match s {
                        Step::Do { node, op } => {
                            let x = *node as usize % k;
                            let op = resolve_op(op, &ms);
                            let m2 = match model(&ms[x], &op) { Some(m) => m, None => { ctx.probe("step_outside_of_claim"); continue } };
                            let mut n2 = ns[x].clone();
                            let flag = match ctx.soft_real(P12, "editing a set", || apply(&mut n2, &op)) { Some(f) => f, None => continue };
                            let mut m2 = m2;
                            if !same(ctx, P12, "content", &n2, &m2, &|| format!("{} / interval {}, after {:?}", ms[x].set.show(), ms[x].iv.show(), op)) {
                                if ctx.stopped() { return; }
                                // what is under check is about the contents, whatever they are
                                m2 = match actual(&n2) { Some(m) => m, None => { ctx.fail(P12, "content", "not a list of disjoint sorted intervals".into()); return } };
                            }
                            if let Some(f) = flag {
                                let changed = m2.set != ms[x].set || m2.iv != ms[x].iv;
                                if !ctx.soft(f == changed, P13, "truncation-report", || format!("{} / interval {}: {:?} reported {} but contents {}", ms[x].set.show(), ms[x].iv.show(), op, f, if changed { "changed" } else { "did not change" })) { return; }
                            }
                            ctx.note(|| format!("node {} {:?} -> {} | {}", x, op, m2.set.show(), m2.iv.show()));
                            if m2.set.is_empty() && !ms[x].set.is_empty() { ctx.probe("set_became_empty"); }
                            if m2.set == Is::all() { ctx.probe("set_is_everything"); }
                            if m2.set.0.len() < ms[x].set.0.len() { ctx.probe("pieces_merged_or_dropped"); }
                            let mut hh = Mix::new();
                            for (a, b) in &m2.set.0 { hh.add(*a as u64); hh.add(*b as u64); }
                            ctx.state(hh.0);
                            ns[x] = n2;
                            ms[x] = m2;
                            logs[x].push(op);
                        }
                        Step::Query { node, w } => {
                            let x = *node as usize % k;
                            let w = resolve(w, &ms);
                            ctx.note(|| format!("query {} {:?}", x, w));
                            query(ctx, &ns[x], &ms[x], &w);
                        }
                        Step::Cross { node, t, form } => { let x = *node as usize % k; ctx.note(|| format!("cross {} {} {}", x, t, form)); cross(ctx, &ns[x], &ms[x], *t, *form) }
                        Step::Copy { from, to, form } => {
                            let (a, b) = (*from as usize % k, *to as usize % k);
                            let src = ns[a].clone();
                            if form % 3 == 0 { ns[b] = src; }
                            else if form % 3 == 2 { ns[b] = src; if ctx.soft_real(P12, "shrinking to fit", || ns[b].set.shrink_to_fit()).is_none() { return; } }
                            else if ctx.soft_real(P12, "copying in place", || { let n = &mut ns[b]; n.set.clone_from(&src.set); n.iv.clone_from(&src.iv); }).is_none() { return; }
                            if !same(ctx, P12, "copy", &ns[b], &ms[a], &|| format!("copied {}", ms[a].set.show())) { return; }
                            ms[b] = ms[a].clone();
                            let m = ms[a].clone();
                            logs[b] = vec![Op::Load { w: W::Set(m.set.0.clone()), form: 2 }, Op::Iv { op: 7, w: if m.iv.is_empty() { W::Iv(INF, NEG) } else { W::Iv(m.iv.lo(), m.iv.hi()) }, d: 0, form: 1 }];
                            ctx.note(|| format!("copy {} {}", a, b));
                        }
                        Step::Save { node, fmt, torn } => {
                            let x = *node as usize % k;
                            let mut bs: Vec<i64> = ms[x].set.0.iter().flat_map(|(a, b)| [*a, *b]).collect();
                            bs.extend([INF, NEG, 0]);
                            let d = Durable { set: ns[x].set.clone(), iv: ns[x].iv, bounds: bs.iter().map(|t| mk(*t)).collect(), spans: bs.iter().map(|t| ticks(*t)).collect() };
                            let b = match ctx.look(P14, "saving", || encode(&d, *fmt)) { Some(b) => b, None => continue };
                            ctx.soft(b.is_ok(), P14, "save", || format!("saving {} failed: {:?}", ms[x].set.show(), b));
                            if b.is_err() { continue; }
                            let b = b.unwrap();
                            if let Some(t) = torn {
                                // the crash happens during the write: what was written cannot be used
                                let cut = *t as usize % b.len().max(1);
                                ctx.fault("torn_save");
                                ctx.look(P14, "reading a torn save", || { let _ = decode(&b[..cut], *fmt); });
                                ctx.note(|| format!("torn save {} at {}", x, cut));
                                continue;
                            }
                            // what has just been saved reads back as what it was
                            let r = match ctx.look(P14, "restoring", || decode(&b, *fmt)) { Some(r) => r, None => continue };
                            let r = match r { Ok(r) => r, Err(e) => { ctx.soft_fail(P14, "restore", format!("restoring {} (format {}) failed: {}", ms[x].set.show(), fmt, e)); continue } };
                            let okb = r.bounds == d.bounds && r.spans == d.spans && r.bounds.iter().zip(&bs).all(|(t, b)| rd(*t) == *b && h(t) == h(&mk(*b))) && r.spans.iter().zip(&bs).all(|(t, b)| t.as_ticks() == *b);
                            if !ctx.soft(okb, P14, "round-trip:value", || format!("values {:?} were restored as {:?} / {:?}", bs, r.bounds, r.spans)) { return; }
                            let rn = N { set: r.set.clone(), iv: r.iv };
                            if !same(ctx, P14, "round-trip", &rn, &ms[x], &|| format!("{} / interval {} restored from format {}", ms[x].set.show(), ms[x].iv.show(), fmt)) { if ctx.stopped() { return } continue; }
                            if !ctx.soft(r.set == ns[x].set && r.iv == ns[x].iv, P14, "round-trip:equality", || format!("{} restored is not equal to what was saved", ms[x].set.show())) { return; }
                            let b2 = encode(&r, *fmt);
                            if !ctx.soft(b2.as_ref().ok() == Some(&b), P14, "round-trip:again", || format!("{} restored is not saved as the first time", ms[x].set.show())) { return; }
                            if !ms[x].set.is_empty() && (ms[x].set.lo() == NEG || ms[x].set.hi() == INF) { ctx.probe("saved_with_infinite_bounds"); }
                            if ms[x].set.is_empty() || ms[x].iv.is_empty() { ctx.probe("saved_empty_window"); }
                            ctx.note(|| format!("save {} format {} {} bytes", x, fmt, b.len()));
                            saves[x] = (b, *fmt);
                            logs[x].clear();
                        }
                        Step::Crash { node } => {
                            let x = *node as usize % k;
                            ctx.fault("crash_restart");
                            let (b, fmt) = &saves[x];
                            let r = match ctx.look(P14, "restoring", || decode(b, *fmt)) { Some(Ok(r)) => r, Some(Err(e)) => { ctx.soft_fail(P14, "restore", e); continue } None => continue };
                            let mut n = N { set: r.set, iv: r.iv };
                            let redo = logs[x].clone();
                            let ok = ctx.soft_real(P14, "replaying operations", || { for o in &redo { apply(&mut n, o); } });
                            if ok.is_none() { continue; }
                            ctx.note(|| format!("crash {} replay {} ops", x, redo.len()));
                            if redo.len() > 3 { ctx.probe("long_replay"); }
                            if !same(ctx, P14, "replayed", &n, &ms[x], &|| format!("replica restored from its last save after {} operations replayed", redo.len())) { if ctx.stopped() { return } continue; }
                            if !ctx.soft(n.set == ns[x].set && n.iv == ns[x].iv && h(&n.set) == h(&ns[x].set), P14, "replayed:equality", || format!("restored replica {} differs from the one which never crashed", ms[x].set.show())) { return; }
                            ns[x] = n;
                        }
                        Step::Cut { node, op, w, ats } => {
                            let x = *node as usize % k;
                            let wi = Is::iv(w.0, w.1);
                            if w.0 == INF || w.1 == NEG { continue; }
                            let (set, iv) = (ms[x].set.clone(), ms[x].iv.clone());
                            let want = match op % 3 { 0 => M { set: set.union(&wi), iv: iv.clone() }, 1 => M { set: set.inter(&wi), iv: iv.clone() }, _ => M { set: set.clone(), iv: iv.inter(&wi) } };
                            if !fits(&want.set) { continue; }
                            let n = &mut ns[x];
                            for at in ats {
                                let calls = Cell::new(0);
                                match guarded(P24, "an interrupted edit", || cut(n, *op, *w, *at as u32, &calls)) {
                                    Err(Caught::Panic(p)) => { ctx.fail(P24, "panic:interrupted edit", p); return }
                                    Err(Caught::Injected) => {
                                        ctx.fault("interrupted_edit");
                                        if *at > 0 { ctx.probe("interrupted_midway"); }
                                        let p = match ctx.real(P24, "reading a set", || pieces(&n.set)) { Some(p) => p, None => return };
                                        let s = Is::from_pieces(&p);
                                        let (e, a, b) = iv_is(&n.iv);
                                        let i = if e { Is::empty() } else { Is::iv(a, b) };
                                        let what = || format!("{} / interval {} with {} (operation {}) interrupted at access {}", set.show(), iv.show(), wi.show(), op, at);
                                        if !ctx.check(e || a <= b, P24, "interrupted:malformed", || format!("{}: the interval is from {} to {}", what(), a, b)) { return; }
                                        if !ctx.check(s.0 == p, P24, "interrupted:slots", || format!("{}: the set is {}", what(), crate::model::is::show(&p))) { return; }
                                        let between = |a: &Is, b: &Is, x: &Is| (a.subset(x) && x.subset(b)) || (b.subset(x) && x.subset(a));
                                        if !ctx.check(between(&set, &want.set, &s), P24, "interrupted:contents", || format!("{}: the set is {}", what(), s.show())) { return; }
                                        if !ctx.check(between(&iv, &want.iv, &i), P24, "interrupted:interval", || format!("{}: the interval is {}", what(), i.show())) { return; }
                                        if s != set && s != want.set { ctx.probe("interrupted_half_done"); }
                                    }
                                    Ok(()) => ctx.probe("not_interrupted"),
                                }
                            }
                            let calls = Cell::new(0);
                            if ctx.real(P24, "an edit submitted again", || cut(n, *op, *w, u32::MAX, &calls)).is_none() { return; }
                            ctx.note(|| format!("node {} operation {} with {} interrupted at {:?} -> {} | {}", x, op, wi.show(), ats, want.set.show(), want.iv.show()));
                            let real = ns[x].clone();
                            if !same(ctx, P24, "retried", &real, &want, &|| format!("{} / interval {} with {} (operation {}) interrupted at {:?} then submitted again", set.show(), iv.show(), wi.show(), op, ats)) { return; }
                            logs[x].push(match op % 3 { 2 => Op::Iv { op: 0, w: W::Iv(w.0, w.1), d: 0, form: 0 }, o => Op::Edit { op: o, w: W::Iv(w.0, w.1), form: 0 } });
                            ms[x] = want;
                        }
                        Step::Converge => {
                            ctx.note(|| "converge".into());
                            if ms.iter().any(|m| m.set != ms[0].set) { continue; } // (a minimised trace)
                            ctx.probe("replicas_converged");
                            for x in 1..k {
                                let ok = ns[x].set == ns[0].set && h(&ns[x].set) == h(&ns[0].set);
                                if !ctx.soft(ok, P12, "convergence", || format!("replicas 0 and {} received the same edits but differ: {:?} and {:?}", x, pieces(&ns[0].set), pieces(&ns[x].set))) { return; }
                            }
                        }
                    }
                }
            }
        }
    };
}

timed!(spans, chronologic::TimeValue, |x| chronologic::TimeValue::from_ticks(x), |t: chronologic::TimeValue| t.as_ticks());
timed!(slots, chronologic::Timestamp, |x| chronologic::Timestamp::from_origin(chronologic::TimeValue::from_ticks(x)), |t: chronologic::Timestamp| t.since_origin().as_ticks());

// ---------------------------------------------------------------- planning

/// `ends`: now and then close to one end of representable dates or to the other
struct Gen { base: i64, width: i64, inf: u64, ends: bool, many: usize }
const FIRST: i64 = NEG + 1;
const LAST: i64 = INF - 1;
fn within(t: i64) -> i64 { t.clamp(FIRST, LAST) }
impl Gen {
    fn t(&self, r: &mut Rng) -> i64 {
        if self.ends { match r.below(4) { 0 => return FIRST + r.range(0, self.width), 1 => return LAST - r.range(0, self.width), 2 => return *r.pick(&[FIRST, LAST]), _ => {} } }
        within(self.base.saturating_add(r.range(0, self.width)))
    }
    fn lo(&self, r: &mut Rng) -> i64 { if r.chance(self.inf, 100) { NEG } else { self.t(r) } }
    fn pair(&self, r: &mut Rng) -> (i64, i64) {
        let a = self.t(r);
        let len = match r.below(5) { 0 => 0, 1 => 1, 2 => r.range(0, 4), _ => { let w = if self.many > 6 && r.chance(9, 10) { self.width / self.many as i64 } else { self.width / 2 }; r.range(0, w) } };
        let lo = if r.chance(self.inf, 100) { NEG } else { a };
        let hi = if r.chance(self.inf, 100) { INF } else { within(a.saturating_add(len)) };
        (lo, hi)
    }
    fn pieces(&self, r: &mut Rng) -> Vec<(i64, i64)> {
        let k = match r.below(8) { 0 => 0, 1 => 1, _ => 1 + r.idx(self.many) };
        let mut v: Vec<(i64, i64)> = (0..k).map(|_| self.pair(r)).collect();
        // neighbours of other pieces: adjacent, one tick apart
        if !v.is_empty() && r.coin() {
            let (_, b) = v[r.idx(v.len())];
            if b < LAST - 8 { let g = r.range(1, 2); let l = r.range(0, 5); v.push((b + g, b + g + l)); }
        }
        Is::from_pieces(&v).0
    }
    fn w(&self, r: &mut Rng, nodes: u8) -> W {
        match r.below(14) {
            0 | 1 => W::Pt(self.t(r)),
            2 | 3 => { let (a, b) = self.pair(r); if r.chance(1, 40) { let x = if r.coin() { INF } else { NEG }; return W::Iv(x, x) } W::Iv(a, b) }
            4 => if r.chance(1, 3) { W::Iv(within(self.base.saturating_add(5)), within(self.base)) } else { W::Iv(NEG, INF) },
            5 | 6 => {
                let k = r.below(5) as u8;
                let (a, b) = self.pair(r);
                let b = if k >= 3 && b == NEG { self.t(r) } else { b };
                // windows which only have an infinite end hold nothing
                if r.chance(1, 20) { let x = if r.coin() { INF } else { NEG }; return match (k, x) { (0, INF) => W::R(0, INF, INF), (0, _) => W::R(0, NEG, *r.pick(&[NEG, FIRST])), (1, _) => W::R(1, x, INF), (2, _) => W::R(2, x, x), (3, _) => W::R(3, NEG, *r.pick(&[NEG, FIRST, INF])), _ => W::R(4, NEG, x) }; }
                let b = if r.chance(1, 6) && k != 1 && a != NEG { within(a - r.range(0, 2)) } else { b };
                W::R(k, a, b)
            }
            7..=9 => W::Set(self.pieces(r)),
            10 | 11 => if r.coin() { W::Near(r.below(nodes as u64) as u8, if r.chance(1, 4) { 0 } else { r.below(1 << 16) as u16 }, r.below(8) as u8) } else { W::Node(r.below(nodes as u64) as u8) },
            12 => W::NodeIv(r.below(nodes as u64) as u8),
            _ => W::Set(vec![]),
        }
    }
    fn delta(&self, r: &mut Rng) -> i64 {
        match r.below(6) { 0 => r.range(-3, 3), 1 => 0, 5 => r.range(-(1 << 58), 1 << 58), _ => r.range(-self.width, self.width) }
    }
    fn factor(&self, kind: u8, r: &mut Rng) -> i64 {
        let n = match (kind, r.below(6)) {
            (3, _) => 1 << r.below(9),
            (2, 0..=3) => r.range(0, 40),
            (_, 0) => r.range(0, 2),
            (_, 1) => r.range(0, 130),
            (_, 2) => 1 << r.below(40),
            _ => r.range(1, 6),
        };
        if r.coin() { n } else { -n }
    }
    fn op(&self, r: &mut Rng, nodes: u8) -> Op {
        let form = r.below(12) as u8;
        match r.below(32) {
            // an infinite end is not a date
            0 if r.chance(1, 12) => Op::Edit { op: r.below(3) as u8, w: W::Pt(*r.pick(&[INF, NEG])), form },
            0..=4 => Op::Edit { op: 0, w: self.w(r, nodes), form },
            5..=8 => Op::Edit { op: 1, w: self.w(r, nodes), form },
            9..=11 => Op::Edit { op: 2, w: self.w(r, nodes), form },
            12 => Op::Group { op: r.below(3) as u8, ws: (0..r.idx(5)).map(|_| self.w(r, nodes)).collect(), shape: form },
            13 | 14 => Op::Compl { form },
            15 => Op::TruncB { t: if r.chance(1, 24) { INF } else { self.lo(r) } },
            16 => Op::TruncA { t: { let t = self.lo(r); if t == NEG && r.chance(3, 4) { INF } else { t } } },
            17 | 18 => Op::Shift { d: self.delta(r), form },
            19 | 20 => {
                let l = self.delta(r);
                let len = match r.below(4) { 0 => 0, 1 => r.range(0, 3), _ => r.range(0, self.width / 3) };
                let (l2, u2) = (if r.chance(self.inf, 200) { NEG } else { l }, if r.chance(self.inf, 200) { INF } else { l + len });
                Op::Spread { l: l2, u: u2, form }
            }
            21 => {
                let k = r.idx(4);
                let p = (0..k).map(|_| { let a = r.range(-self.width, self.width); let l = r.range(0, 6); (if r.chance(self.inf, 400) { NEG } else { a }, if r.chance(self.inf, 400) { INF } else { a + l }) }).collect();
                Op::SpreadSet { p, form }
            }
            22 => Op::Neg { form },
            30 | 31 => { let kind = r.below(6) as u8; Op::Scale { kind, n: self.factor(kind, r), form: r.below(64) as u8 } }
            23 | 24 => {
                let mut p = self.pieces(r);
                p.extend((0..r.idx(4)).map(|_| self.pair(r)));
                if r.coin() { p.extend((0..r.idx(3)).map(|_| { let a = self.t(r); (within(a.saturating_add(1)), within(a.saturating_sub(1 + r.range(0, 9)))) })); }
                r.shuffle(&mut p);
                Op::Collect { p }
            }
            25 => Op::Load { w: self.w(r, nodes), form },
            26..=28 => {
                let op = if r.coin() { 7 } else { r.below(16) as u8 };
                let mut w = self.w(r, nodes);
                if !convex(&w) { let (a, b) = self.pair(r); w = W::Iv(a, b); }
                if op == 5 { let l = self.delta(r); let len = r.range(0, 10); w = W::Iv(l, l + len); }
                if op == 9 { w = W::Pt(self.t(r)); }
                let d = match op { 2 | 3 if r.chance(1, 24) => if r.coin() { INF } else { NEG }, 2 => self.lo(r), 4 | 8 | 9 => self.delta(r), 3 => self.t(r), 10..=15 => self.factor(op - 10, r), _ => 0 };
                let form = if op >= 10 { r.below(64) as u8 } else { form };
                Op::Iv { op, w, d, form }
            }
            _ => {
                let mut w = self.w(r, nodes);
                if !convex(&w) { let (a, b) = self.pair(r); w = W::Iv(a, b); }
                let pt = if r.coin() { Some(self.t(r)) } else { None };
                Op::FromIv { op: r.below(3) as u8, w, pt }
            }
        }
    }
}

pub struct Sets;
impl World for Sets {
    const NAME: &'static str = "sets";
    type Cfg = Cfg;
    type Step = Step;

    fn exec(cfg: &Cfg, steps: &[Step], ctx: &mut Ctx) { if cfg.slots { slots::exec(cfg, steps, ctx) } else { spans::exec(cfg, steps, ctx) } }

    fn plan(r: &mut Rng, focus: &str, tier: Tier) -> Plan<Cfg, Step> {
        let width = *r.pick(&[6, 12, 30, 200, 1 << 20, 1 << 57]);
        let base = match r.below(6) { 0 => LIM - width, 1 => -LIM, 2 => r.range(-(1 << 60), 1 << 60), _ => -width / 2 };
        let inf = *r.pick(&[0u64, 4, 15, 40]);
        // at the ends of the representable dates
        let (base, width, ends) = match r.below(12) { 0 => (FIRST, width.min(200), false), 1 => (LAST - width.min(200), width.min(200), false), 2 => (-width.min(200), width.min(200), true), _ => (base, width, false) };
        // now and then, sets of many intervals, or a long history
        let many = if r.chance(1, 80) { *r.pick(&[20usize, 60, 150]) } else { 6 };
        let width = if many > 6 && !(base == FIRST || base == LAST - width || ends) { width.max(1 << 12) } else { width };
        let long = if r.chance(1, 150) { 8 } else { 1 };
        let g = Gen { base, width, inf, ends, many };
        let scale = if tier == Tier::Thorough { 3 } else { 1 };
        let slots = r.coin();
        let mut steps: Vec<Step> = vec![];
        let replicas = focus == "C12" && r.chance(2, 5);
        if replicas {
            // edits of one kind, delivered to every replica through a faulty network
            let nodes = 2 + r.below(3) as u8;
            let op = *r.pick(&[0u8, 0, 1, 2]);
            let nm = 3 + r.idx(14 * scale);
            let edits: Vec<W> = (0..nm).map(|_| { let mut w = g.w(r, 1); while matches!(w, W::Node(_) | W::NodeIv(_) | W::Near(..)) { w = g.w(r, 1); } if op == 1 && r.chance(3, 4) { w = W::Set(w_is(&w, &[]).compl().0) } w }).collect();
            let start: Op = if op == 0 { Op::Load { w: W::Set(vec![]), form: 0 } } else { let mut p = g.pieces(r); if r.coin() { p = vec![(NEG, INF)] } Op::Load { w: W::Set(p), form: 2 } };
            for n in 0..nodes { steps.push(Step::Do { node: n, op: start.clone() }); }
            // events: (0, edit) delivered, (1, _) retry of everything missing, (2, _) partition change
            let mut k: Kernel<(u8, usize)> = Kernel::new(nodes as usize + 1, NetCfg::random(r));
            let hub = nodes as usize;
            let mut has = vec![vec![false; nm]; nodes as usize];
            for e in 0..nm { let at = r.below(40_000); k.timer(hub, at, (3, e)); }
            for n in 0..nodes as usize { let d = 30_000 + r.below(40_000); k.timer(n, d, (1, 0)); }
            if r.coin() { k.timer(hub, 10_000, (2, 1)); k.timer(hub, 45_000, (2, 0)); }
            k.timer(hub, 120_000, (2, 2));
            let mut waiting: Vec<Vec<usize>> = vec![vec![]; nodes as usize];
            let group = r.chance(1, 2);
            let mut rounds = 0;
            while let Some(ev) = k.pop() {
                match ev {
                    Ev::Timer { msg: (3, e), .. } => for n in 0..nodes as usize { k.send(r, hub, n, (0, e)) },
                    Ev::Timer { msg: (2, x), .. } => { match x { 1 => k.partition(r), 0 => k.heal(), _ => { k.heal(); k.quiet = true } } }
                    Ev::Timer { node, .. } => {
                        // anti-entropy: the hub resends what this replica misses
                        rounds += 1;
                        if has[node].iter().any(|x| !x) || !waiting[node].is_empty() {
                            for e in 0..nm { if !has[node][e] { k.fault("retransmission"); k.send(r, hub, node, (0, e)); } }
                            if !waiting[node].is_empty() { flush(r, &mut steps, node, &mut waiting[node], &edits, op); }
                            if rounds < 4000 { let d = 30_000 + r.below(20_000); k.timer(node, d, (1, 0)); }
                        }
                    }
                    Ev::Deliver { to, msg: (_, e), .. } => {
                        if to == hub { continue; }
                        has[to][e] = true;
                        waiting[to].push(e);
                        if !group || r.chance(1, 3) || waiting[to].len() > 5 { flush(r, &mut steps, to, &mut waiting[to], &edits, op); }
                        // a query of a client, or a crash, in between
                        if r.chance(1, 10) { steps.push(Step::Query { node: to as u8, w: g.w(r, nodes) }); }
                        if steps.len() > 400 * scale { break; }
                    }
                }
            }
            for n in 0..nodes as usize { if !waiting[n].is_empty() { flush(r, &mut steps, n, &mut waiting[n], &edits, op); } }
            steps.push(Step::Converge);
            return Plan { cfg: Cfg { nodes, slots }, steps, sim_us: k.now, faults: k.faults };
        }
        // clients, each with its own script, interleaved by the simulated clock
        let nodes = 1 + r.below(4) as u8;
        let clients = 1 + r.idx(4);
        let mut k: Kernel<u8> = Kernel::new(clients, NetCfg::random(r));
        let len = 6 + r.idx(30 * scale) * long;
        let mut left = vec![len / clients + 1; clients];
        for c in 0..clients { let d = r.below(1000); k.timer(c, d, 0); }
        // every node starts from something
        for n in 0..nodes { if r.chance(2, 3) { steps.push(Step::Do { node: n, op: Op::Load { w: W::Set(g.pieces(r)), form: 2 } }); let (a, b) = g.pair(r); steps.push(Step::Do { node: n, op: Op::Iv { op: 7, w: W::Iv(a, b), d: 0, form: 1 } }); } }
        let mut last = usize::MAX;
        let p_query = match focus { "C13" => 50, "C14" => 8, _ => 10 };
        let p_save = match focus { "C14" => 22, _ => 2 };
        let p_crash = match focus { "C14" => 14, _ => 1 };
        let p_cut = if focus == "C24" { 45 } else { 0 };
        while let Some(Ev::Timer { node: c, .. }) = k.pop() {
            if left[c] == 0 { continue; }
            left[c] -= 1;
            if last != c { if last != usize::MAX { k.fault("client_switch"); } last = c; }
            let node = if r.chance(3, 4) { (c % nodes as usize) as u8 } else { r.below(nodes as u64) as u8 };
            let x = r.below(100);
            steps.push(if x < p_query { Step::Query { node, w: g.w(r, nodes) } }
                else if x < p_query + p_save { Step::Save { node, fmt: r.below(4) as u8, torn: if r.chance(1, 4) { Some(r.below(2000) as u16) } else { None } } }
                else if x < p_query + p_save + p_crash { Step::Crash { node } }
                else if x < p_query + p_save + p_crash + p_cut {
                    let (a, b) = g.pair(r);
                    let w = match r.below(12) { 0 => (a.saturating_add(3), a), 1 => (NEG, INF), 2 => (NEG, b), 3 => (a, INF), _ => (a, b) };
                    let many = if r.coin() { 1 } else { 1 + r.idx(4) };
                    Step::Cut { node, op: r.below(3) as u8, w, ats: (0..many).map(|_| r.below(10) as u8).collect() }
                }
                else if x > 96 { Step::Copy { from: r.below(nodes as u64) as u8, to: node, form: r.below(3) as u8 } }
                else if x > 94 { Step::Cross { node, t: g.delta(r), form: r.below(66) as u8 } }
                else { Step::Do { node, op: g.op(r, nodes) } });
            let d = 100 + r.below(5_000);
            k.timer(c, d, 0);
        }
        Plan { cfg: Cfg { nodes, slots }, steps, sim_us: k.now, faults: k.faults }
    }

    fn simpler(s: &Step) -> Vec<Step> {
        let mut v = vec![];
        match s {
            Step::Do { node, op } => {
                if *node > 0 { v.push(Step::Do { node: 0, op: op.clone() }); }
                for o in simpler_op(op) { v.push(Step::Do { node: *node, op: o }); }
            }
            Step::Query { node, w } => {
                if *node > 0 { v.push(Step::Query { node: 0, w: w.clone() }); }
                for w in simpler_w(w) { v.push(Step::Query { node: *node, w }); }
            }
            Step::Cross { node, t, form } => for t in shrink_num(*t) { v.push(Step::Cross { node: *node, t, form: *form }); },
            Step::Save { node, fmt, torn } => {
                if *node > 0 { v.push(Step::Save { node: 0, fmt: *fmt, torn: *torn }); }
                if *fmt > 0 { v.push(Step::Save { node: *node, fmt: 0, torn: *torn }); }
                if torn.is_some() { v.push(Step::Save { node: *node, fmt: *fmt, torn: None }); }
            }
            Step::Crash { node } => if *node > 0 { v.push(Step::Crash { node: 0 }); },
            Step::Cut { node, op, w, ats } => {
                if *node > 0 { v.push(Step::Cut { node: 0, op: *op, w: *w, ats: ats.clone() }); }
                for i in 0..ats.len() { let mut a = ats.clone(); a.remove(i); v.push(Step::Cut { node: *node, op: *op, w: *w, ats: a }); }
                for x in shrink_num(w.0) { v.push(Step::Cut { node: *node, op: *op, w: (x, w.1), ats: ats.clone() }); }
                for x in shrink_num(w.1) { v.push(Step::Cut { node: *node, op: *op, w: (w.0, x), ats: ats.clone() }); }
            }
            _ => {}
        }
        v
    }
    fn simpler_cfg(c: &Cfg) -> Vec<Cfg> {
        let mut v = vec![];
        if c.nodes > 1 { v.push(Cfg { nodes: 1, slots: c.slots }); v.push(Cfg { nodes: c.nodes - 1, slots: c.slots }); }
        if c.slots { v.push(Cfg { nodes: c.nodes, slots: false }); }
        v
    }
}

fn flush(r: &mut Rng, steps: &mut Vec<Step>, node: usize, waiting: &mut Vec<usize>, edits: &[W], op: u8) {
    let ws: Vec<W> = waiting.drain(..).map(|e| edits[e].clone()).collect();
    if ws.len() == 1 { steps.push(Step::Do { node: node as u8, op: Op::Edit { op, w: ws[0].clone(), form: r.below(12) as u8 } }); }
    else if !ws.is_empty() { steps.push(Step::Do { node: node as u8, op: Op::Group { op, ws, shape: r.below(4) as u8 } }); }
}

fn simpler_pieces(p: &[(i64, i64)]) -> Vec<Vec<(i64, i64)>> {
    let mut v = vec![];
    for i in 0..p.len() { let mut c = p.to_vec(); c.remove(i); v.push(c); }
    for i in 0..p.len() {
        for a in shrink_num(p[i].0) { let mut c = p.to_vec(); c[i].0 = a; v.push(c); }
        for b in shrink_num(p[i].1) { let mut c = p.to_vec(); c[i].1 = b; v.push(c); }
        if p[i].0 != NEG && p[i].1 != INF && p[i].0 != 0 { let mut c = p.to_vec(); let d = c[i].0; c[i] = (0, c[i].1.saturating_sub(d)); v.push(c); }
    }
    // all together toward the origin
    if let Some(d) = p.iter().flat_map(|(a, b)| [*a, *b]).find(|x| *x != INF && *x != NEG && *x != 0) {
        let m = |x: i64| if x == INF || x == NEG { x } else { x.saturating_sub(d) };
        v.push(p.iter().map(|(a, b)| (m(*a), m(*b))).collect());
    }
    v
}
fn simpler_w(w: &W) -> Vec<W> {
    match w {
        W::Pt(a) => shrink_num(*a).into_iter().map(W::Pt).collect(),
        W::Iv(a, b) => {
            let mut v = vec![];
            if a <= b && *a != NEG && *b != INF { v.push(W::Pt(*a)); if *a != 0 { v.push(W::Iv(0, b - a)); } }
            for x in shrink_num(*a) { v.push(W::Iv(x, *b)); }
            for x in shrink_num(*b) { v.push(W::Iv(*a, x)); }
            v
        }
        W::R(k, a, b) => {
            let mut v = vec![];
            let m = range_is(*k, *a, *b);
            if !m.is_empty() { v.push(W::Iv(m.lo(), m.hi())); }
            for x in shrink_num(*a) { v.push(W::R(*k, x, *b)); }
            for x in shrink_num(*b) { v.push(W::R(*k, *a, x)); }
            v
        }
        W::Set(p) => {
            let mut v: Vec<W> = simpler_pieces(p).into_iter().filter(|p| Is::from_pieces(p).0 == *p).map(W::Set).collect();
            if p.len() == 1 { v.push(W::Iv(p[0].0, p[0].1)); }
            v
        }
        W::Node(i) => if *i > 0 { vec![W::Node(0)] } else { vec![] },
        W::NodeIv(i) => if *i > 0 { vec![W::NodeIv(0)] } else { vec![] },
        W::Near(i, k, how) => if *i > 0 { vec![W::Near(0, *k, *how)] } else if *k > 0 { vec![W::Near(0, k / 2, *how), W::Near(0, k - 1, *how)] } else { vec![W::Node(0)] },
    }
}
fn simpler_op(o: &Op) -> Vec<Op> {
    let mut v = vec![];
    match o {
        Op::Edit { op, w, form } => {
            for w in simpler_w(w) { v.push(Op::Edit { op: *op, w, form: *form }); }
            if *form > 0 { v.push(Op::Edit { op: *op, w: w.clone(), form: 0 }); }
        }
        Op::Group { op, ws, shape } => {
            if ws.len() == 1 { v.push(Op::Edit { op: *op, w: ws[0].clone(), form: 0 }); }
            for i in 0..ws.len() { let mut c = ws.clone(); c.remove(i); v.push(Op::Group { op: *op, ws: c, shape: *shape }); }
            for i in 0..ws.len() { for w in simpler_w(&ws[i]) { let mut c = ws.clone(); c[i] = w; v.push(Op::Group { op: *op, ws: c, shape: *shape }); } }
        }
        Op::Compl { form } => if *form > 0 { v.push(Op::Compl { form: 0 }) },
        Op::TruncB { t } => for t in shrink_num(*t) { v.push(Op::TruncB { t }) },
        Op::TruncA { t } => for t in shrink_num(*t) { v.push(Op::TruncA { t }) },
        Op::Shift { d, form } => { for d in shrink_num(*d) { v.push(Op::Shift { d, form: *form }) } if *form > 0 { v.push(Op::Shift { d: *d, form: 0 }) } }
        Op::Spread { l, u, form } => {
            for x in shrink_num(*l) { if x <= *u { v.push(Op::Spread { l: x, u: *u, form: *form }) } }
            for x in shrink_num(*u) { if *l <= x { v.push(Op::Spread { l: *l, u: x, form: *form }) } }
            if *form > 0 { v.push(Op::Spread { l: *l, u: *u, form: 0 }) }
        }
        Op::SpreadSet { p, form } => for p in simpler_pieces(p) { v.push(Op::SpreadSet { p, form: *form }) },
        Op::Collect { p } => for p in simpler_pieces(p) { v.push(Op::Collect { p }) },
        Op::Load { w, form } => for w in simpler_w(w) { v.push(Op::Load { w, form: *form }) },
        Op::Iv { op, w, d, form } => {
            for d in shrink_num(*d) { v.push(Op::Iv { op: *op, w: w.clone(), d, form: *form }) }
            for w in simpler_w(w) { v.push(Op::Iv { op: *op, w, d: *d, form: *form }) }
        }
        Op::FromIv { op, w, pt } => {
            for w in simpler_w(w) { v.push(Op::FromIv { op: *op, w, pt: *pt }) }
            if let Some(p) = pt { for p in shrink_num(*p) { v.push(Op::FromIv { op: *op, w: w.clone(), pt: Some(p) }) } }
        }
        Op::Neg { .. } => {}
        Op::Scale { kind, n, form } => {
            for n in shrink_num(*n) { v.push(Op::Scale { kind: *kind, n, form: *form }) }
            for f in [form % 16, form / 16 * 16] { if f < *form { v.push(Op::Scale { kind: *kind, n: *n, form: f }) } }
        }
    }
    v
}
