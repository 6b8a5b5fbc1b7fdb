//! Clients on nodes whose system clocks are skewed, drift, jump, and advance while they are
//! read; periodic work driven by time sequences, with stalls, skips, crashes and restarts.
//! (C17, C18)
use crate::clock::with_clock;
use crate::engine::*;
use crate::model::is::{n as shown, INF};
use crate::net::{Ev, Kernel, NetCfg};
use crate::rng::{Mix, Rng};
use chrono::{DateTime, Utc};
use chronologic::*;
use serde::{Deserialize, Serialize};

/// a clock reading: seconds and nanoseconds since the epoch, advancing by `adv` ns per reading
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Ck { s: i64, n: u32, adv: i64 }
impl Ck { fn ns(&self) -> i128 { self.s as i128 * 1_000_000_000 + self.n as i128 } }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Now { node: u8, ck: Ck },
    /// elapsed since the date last read by the node (None), or since a given one
    Elapsed { node: u8, ck: Ck, since: Option<i64> },
    Date { ck: Ck },
    /// the date read on a node is sent as a civil date to another one
    Carry { from: u8, to: u8, ck: Ck },
    /// kind: 0 forward, 1 backward, 2 forward aligned, 3 backward aligned
    New { c: u8, kind: u8, start: i64, period: i64 },
    /// a sequence starting at the date shown by the clock
    NewNow { c: u8, kind: u8, period: i64, ck: Ck },
    Next { c: u8 }, Nth { c: u8, n: u64 }, StepBy { c: u8, n: u64, k: u8 }, Take { c: u8, k: u8 },
    Catch { c: u8, ck: Ck },
    Count { c: u8 }, Last { c: u8 }, Hint { c: u8 }, Drain { c: u8 },
    Save { c: u8 }, Restore { c: u8 }, Restart { c: u8 },
}

const P17: &[&str] = &["C17"];
const P18: &[&str] = &["C18"];
const LIM: i128 = INF as i128 - 1;


/// a sequence (their types are not exported)
trait It: Iterator<Item = Timestamp> { fn dup(&self) -> Sq; fn cnt(self: Box<Self>) -> usize; fn lst(self: Box<Self>) -> Option<Timestamp>; }
impl<T: Iterator<Item = Timestamp> + Clone + 'static> It for T {
    fn dup(&self) -> Sq { Box::new(self.clone()) }
    fn cnt(self: Box<Self>) -> usize { (*self).count() }
    fn lst(self: Box<Self>) -> Option<Timestamp> { (*self).last() }
}
type Sq = Box<dyn It>;

fn ts(x: i64) -> Timestamp { Timestamp::from_origin(TimeValue::from_ticks(x)) }
fn rd(t: Timestamp) -> i64 { t.since_origin().as_ticks() }
fn sat(x: i128) -> i64 { x.clamp(-(INF as i128), INF as i128) as i64 }
fn make(kind: u8, start: i64, period: i64) -> Sq {
    let (t, p) = (ts(start), TimeValue::from_ticks(period));
    match kind { 0 => Box::new(t.forward_sequence(p)), 1 => Box::new(t.backward_sequence(p)), 2 => Box::new(t.forward_periods(p)), _ => Box::new(t.backward_periods(p)) }
}
fn ceil(x: i128, p: i128) -> i128 { -((-x).div_euclid(p)) * p }
/// the sequence and the date before its first one are representable
fn legal(kind: u8, start: i64, period: i64) -> bool {
    let (s, p) = (start as i128, period as i128);
    if p < 1 || p > LIM || s.abs() > LIM { return false; }
    match kind {
        0 => s - p >= -LIM, 1 => s + p <= LIM,
        2 => s - p >= -LIM && ceil(s, p) <= LIM,
        _ => ceil(s, p) + p <= LIM && ceil(s, p) - p >= -LIM,
    }
}

/// what a sequence should do: date k is first + k * step, for k < total
#[derive(Clone)]
struct Model { kind: u8, first: i128, period: i64, k: i128, total: i128 }
impl Model {
    fn new(kind: u8, first: i128, period: i64) -> Model {
        let room = if kind % 2 == 0 { LIM - first } else { first + LIM };
        let total = if room < 0 { 0 } else { room / period as i128 + 1 };
        Model { kind, first, period, k: 0, total }
    }
    fn date(&self, k: i128) -> i64 { (if self.kind % 2 == 0 { self.first + k * self.period as i128 } else { self.first - k * self.period as i128 }) as i64 }
    fn rest(&self) -> i128 { self.total - self.k }
    fn nth(&mut self, n: u64) -> Option<i64> {
        let k = self.k + n as i128;
        if k >= self.total { self.k = self.total; None } else { self.k = k + 1; Some(self.date(k)) }
    }
    fn step_by(&mut self, n: u64, k: u8) -> Vec<i64> {
        let mut v = vec![];
        for i in 0..k { match self.nth(if i == 0 { 0 } else { n - 1 }) { Some(d) => v.push(d), None => break } }
        v
    }
}
struct Client { it: Option<(Sq, Model)>, saved: Option<(Sq, Model)> }

fn os(x: Option<i64>) -> String { x.map_or("none".into(), shown) }

pub struct ClockW;
impl ClockW {
    fn read(ctx: &mut Ctx, ck: &Ck, what: &str, seen: &mut Vec<(i128, i128, i64)>) -> Option<i64> {
        let (v, last, reads) = match guarded(P17, what, || with_clock(ck.ns(), ck.adv, || rd(Timestamp::now()))) {
            Ok(x) => x,
            Err(Caught::Panic(m)) => { ctx.fail(P17, "panic:now", format!("clock at {}.{:09} s: {}", ck.s, ck.n, m)); return None; }
            Err(Caught::Injected) => return None,
        };
        let (lo, hi) = span(ck, last, reads);
        if reads > 1 { ctx.probe("several_readings"); }
        ctx.note(|| format!("now at {}.{:09}: {}", ck.s, ck.n, shown(v)));
        if !ctx.check(in_ticks(v as i128, lo, hi), P17, "now", || format!("the clock shows {}.{:09} s, the current timestamp is {} ticks, i.e. {} s", ck.s, ck.n, v, v as f64 / (1u64 << 30) as f64)) { return None; }
        for (a, b, w) in seen.iter() {
            let ok = (*b > lo || *w <= v) && (hi > *a || v <= *w);
            if !ctx.check(ok, P17, "order", || format!("timestamps {} and {} are not in the order of their clock readings ({} ns, {} ns)", shown(*w), shown(v), a, lo)) { return None; }
        }
        seen.push((lo, hi, v));
        Some(v)
    }
}
fn span(ck: &Ck, last: i128, reads: u64) -> (i128, i128) { if reads == 0 { (ck.ns(), ck.ns()) } else { (ck.ns().min(last), ck.ns().max(last)) } }
/// v ticks are within one tick of lo..=hi ns
fn in_ticks(v: i128, lo: i128, hi: i128) -> bool { (v + 1) * 1_000_000_000 >= lo << 30 && (v - 1) * 1_000_000_000 <= hi << 30 }

impl World for ClockW {
    const NAME: &'static str = "clock";
    type Cfg = ();
    type Step = Step;

    fn exec(_: &(), steps: &[Step], ctx: &mut Ctx) {
        let mut cl: Vec<Client> = (0..4).map(|_| Client { it: None, saved: None }).collect();
        let mut dates = [0i64; 4];
        let mut seen: Vec<(i128, i128, i64)> = vec![];
        // (what, real result, expected): one comparison for each call made by a client
        macro_rules! pull { ($ctx:expr, $what:expr, $real:expr, $want:expr, $m:expr) => {{
            let m0 = $m;
            match guarded(P18, $what, || $real) {
                Ok(r) => { let w = $want; $ctx.note(|| format!("{} {} -> {}", ["forward", "backward", "aligned forward", "aligned backward"][m0.kind as usize % 4], $what, os(r)));
                    $ctx.check(r == w, P18, $what, || format!("{} gave {} instead of {} ({} sequence from {}, period {}, {} dates already passed)", $what, os(r), os(w), if m0.kind % 2 == 0 { "forward" } else { "backward" }, shown(m0.first as i64), m0.period, m0.k)) }
                Err(Caught::Panic(e)) => { $ctx.fail(P18, &format!("panic:{}", $what), format!("{} ({} sequence from {}, period {}, {} passed): {}", $what, if m0.kind % 2 == 0 { "forward" } else { "backward" }, shown(m0.first as i64), m0.period, m0.k, e)); false }
                Err(Caught::Injected) => false,
            }
        }} }
        for (si, s) in steps.iter().enumerate() {
            if ctx.stopped() { return; }
            ctx.begin(si);
            match s {
                Step::Now { node, ck } => { match Self::read(ctx, ck, "now", &mut seen) { Some(v) => dates[*node as usize % 4] = v, None => return } }
                Step::Elapsed { node, ck, since } => {
                    let Some(v) = Self::read(ctx, ck, "now", &mut seen) else { return };
                    let since = since.unwrap_or(dates[*node as usize % 4]);
                    let r = guarded(P17, "elapsed", || with_clock(ck.ns(), ck.adv, || ts(since).elapsed()));
                    let (e, last, reads) = match r { Ok(x) => x, Err(Caught::Panic(m)) => { ctx.fail(P17, "panic:elapsed", m); return } Err(_) => return };
                    let (lo, hi) = span(ck, last, reads);
                    let t = e.as_ticks();
                    ctx.note(|| format!("elapsed since {}: {}", shown(since), shown(t)));
                    let want = if since == INF { -INF } else if since == -INF { INF } else { sat(v as i128 - since as i128) };
                    let ok = if ck.adv == 0 || want.abs() == INF || t.abs() == INF { t == want } else { in_ticks(t as i128 + since as i128, lo, hi) };
                    if !ctx.check(ok, P17, "elapsed", || format!("elapsed since {} is {} instead of {}, the current timestamp being {}", shown(since), shown(t), shown(want), shown(v))) { return; }
                    if t.abs() != INF {
                        let Some(d) = ctx.real(P17, "to_duration", || e.to_duration().num_nanoseconds()) else { return };
                        let near = |ns: i128| ((ns << 30) - t as i128 * 1_000_000_000).abs() <= 2 << 30;
                        if !ctx.check(d.map_or(false, |d| near(d as i128)), P17, "to_duration", || format!("an elapsed time of {} ticks is the duration {:?} ns", t, d)) { return; }
                        if t >= 0 {
                            let Some(d) = ctx.real(P17, "into duration", || std::time::Duration::from(e).as_nanos() as i128) else { return };
                            if !ctx.check(near(d), P17, "into duration", || format!("an elapsed time of {} ticks is the duration {} ns", t, d)) { return; }
                            let Some(b) = ctx.real(P17, "from duration", || TimeValue::from(std::time::Duration::from_nanos(d as u64)).as_ticks()) else { return };
                            if !ctx.check((b - t).abs() <= 3, P17, "from duration", || format!("{} ticks become {} through a standard duration", t, b)) { return; }
                        }
                    }
                    if t < 0 { ctx.probe("negative_elapsed"); }
                }
                Step::Date { ck } => {
                    let r = guarded(P17, "to_datetime", || with_clock(ck.ns(), ck.adv, || Timestamp::now().to_datetime()));
                    let (d, last, reads) = match r { Ok(x) => x, Err(Caught::Panic(m)) => { ctx.fail(P17, "panic:to_datetime", format!("clock at {}.{:09} s: {}", ck.s, ck.n, m)); return } Err(_) => return };
                    let (lo, hi) = span(ck, last, reads);
                    let ns = d.timestamp() as i128 * 1_000_000_000 + d.timestamp_subsec_nanos() as i128;
                    ctx.note(|| format!("date at {}.{:09}: {}", ck.s, ck.n, d));
                    if !ctx.check(ns >= lo - 2 && ns <= hi + 2, P17, "to_datetime", || format!("the clock shows {}.{:09} s, the current date is {} ({} ns)", ck.s, ck.n, d, ns)) { return; }
                }
                Step::Carry { from, to, ck } => {
                    let Some(v) = Self::read(ctx, ck, "now", &mut seen) else { return };
                    dates[*from as usize % 4] = v;
                    let d: Option<DateTime<Utc>> = ctx.real(P17, "to_datetime", || ts(v).to_datetime());
                    let Some(d) = d else { return };
                    let Some(b) = ctx.real(P17, "from datetime", || rd(Timestamp::from(d))) else { return };
                    let Some(c) = ctx.real(P17, "from datetime", || rd(Timestamp::from(d.naive_utc()))) else { return };
                    ctx.note(|| format!("{} carried as {}: {}", shown(v), d, shown(b)));
                    if !ctx.check((b - v).abs() <= 4 && (c - v).abs() <= 4, P17, "carry", || format!("{} ticks become {} (and {}) once carried as {}", v, b, c, d)) { return; }
                    dates[*to as usize % 4] = b;
                }
                Step::New { c, kind, start, period } => { if !Self::create(ctx, &mut cl[*c as usize % 4], *kind % 4, *start, *period) { return; } }
                Step::NewNow { c, kind, period, ck } => {
                    let Some(v) = Self::read(ctx, ck, "now", &mut seen) else { return };
                    if !Self::create(ctx, &mut cl[*c as usize % 4], *kind % 4, v, *period) { return; }
                }
                Step::Save { c } => { let c = &mut cl[*c as usize % 4]; c.saved = c.it.as_ref().map(|(i, m)| (i.dup(), m.clone())); }
                Step::Restore { c } => { let c = &mut cl[*c as usize % 4]; if let Some((i, m)) = &c.saved { c.it = Some((i.dup(), m.clone())); ctx.fault("client_restored"); } }
                Step::Restart { c } => {
                    // only the last date is durable: the sequence is made again from it
                    let c = &mut cl[*c as usize % 4];
                    let Some((_, m)) = &c.it else { continue };
                    let m = m.clone();
                    if m.k == 0 || m.k >= m.total { continue; }
                    let last = m.date(m.k - 1);
                    if !legal(m.kind, last, m.period) { continue; }
                    ctx.fault("client_restarted");
                    // (a backward aligned one may restart at the multiple below)
                    let kind = if m.kind == 3 { 1 } else { m.kind };
                    let Some(mut i) = ctx.real(P18, "sequence", || make(kind, last, m.period)) else { return };
                    if !pull!(ctx, "first after restart", i.next().map(rd), Some(last), &m) { return; }
                    c.it = Some((i, m));
                }
                Step::Next { c } | Step::Nth { c, .. } | Step::StepBy { c, .. } | Step::Take { c, .. } | Step::Catch { c, .. } | Step::Count { c } | Step::Last { c } | Step::Hint { c } | Step::Drain { c } => {
                    let Some((i, m)) = cl[*c as usize % 4].it.as_mut() else { continue };
                    if m.rest() == 0 { ctx.probe("asked_after_end"); }
                    let m0 = m.clone();
                    match s {
                        Step::Next { .. } => { if !pull!(ctx, "next", i.next().map(rd), m.nth(0), &m0) { return; } }
                        Step::Nth { n, .. } => { if !pull!(ctx, "nth", i.nth(*n as usize).map(rd), m.nth(*n), &m0) { return; } }
                        Step::StepBy { k, .. } | Step::Take { k, .. } => {
                            let n = if let Step::StepBy { n, .. } = s { (*n).max(1) } else { 1 };
                            let want = m.step_by(n, *k);
                            // (the adapters must not be asked for more than what is compared)
                            let r = guarded(P18, "step_by", || if let Step::StepBy { .. } = s { i.by_ref().step_by(n as usize).take(*k as usize).map(rd).collect::<Vec<_>>() } else { i.by_ref().take(*k as usize).map(rd).collect() });
                            match r {
                                Ok(r) => { ctx.note(|| format!("step by {}: {:?}", n, r)); if !ctx.check(r == want, P18, "step_by", || format!("steps of {} gave {:?} instead of {:?}", n, r, want)) { return; } }
                                Err(Caught::Panic(e)) => { ctx.fail(P18, "panic:step_by", e); return; }
                                Err(_) => return,
                            }
                        }
                        Step::Catch { ck, .. } => {
                            let Some(now) = Self::read(ctx, ck, "now", &mut seen) else { return };
                            if m.kind % 2 == 1 { if !pull!(ctx, "nth", i.nth(1).map(rd), m.nth(1), &m0) { return; } continue; }
                            // skips the dates which are over, then works up to the present
                            let over = if m.k >= m.total { 0 } else { ((now as i128 - m.date(m.k) as i128) / m.period as i128).max(0) };
                            if over > 3 { ctx.fault("client_skipped_dates"); let n = (over - 2) as u64; if !pull!(ctx, "nth", i.nth(n as usize).map(rd), m.nth(n), &m0) { return; } }
                            for _ in 0..4 {
                                if m.k < m.total && m.date(m.k) > now { break; }
                                let m0 = m.clone();
                                if !pull!(ctx, "next", i.next().map(rd), m.nth(0), &m0) { return; }
                            }
                        }
                        Step::Count { .. } => {
                            let d = i.dup();
                            let Some(n) = ctx.real(P18, "count", || d.cnt()) else { return };
                            if !ctx.check(n as i128 == m.rest(), P18, "count", || format!("count is {} instead of {} ({:?} {} period {} after {})", n, m.rest(), m.kind, shown(m.first as i64), m.period, m.k)) { return; }
                        }
                        Step::Last { .. } => { let d = i.dup(); let want = if m.rest() > 0 { Some(m.date(m.total - 1)) } else { None }; if !pull!(ctx, "last", d.lst().map(rd), want, &m0) { return; } }
                        Step::Hint { .. } => {
                            let Some((lo, hi)) = ctx.real(P18, "size_hint", || i.size_hint()) else { return };
                            let n = m.rest();
                            if !ctx.check(lo as i128 <= n && hi.map_or(true, |h| h as i128 >= n), P18, "size_hint", || format!("size hint is ({}, {:?}) while {} dates remain ({:?} {} period {} after {})", lo, hi, n, m.kind, shown(m.first as i64), m.period, m.k)) { return; }
                        }
                        _ => {
                            // to the end, if it is near
                            if m.rest() > 40 { continue; }
                            for _ in 0..m.rest() + 3 { let m0 = m.clone(); if !pull!(ctx, "next", i.next().map(rd), m.nth(0), &m0) { return; } }
                            ctx.probe("reached_end");
                        }
                    }
                    let mut h = Mix::new();
                    h.add(m.kind as u64); h.add(64 - m.period.leading_zeros() as u64); h.add(m.k.min(40) as u64); h.add(m.rest().min(40) as u64);
                    h.add((m.first >= 0) as u64); h.add(128 - m.first.abs().leading_zeros() as u64); h.add(m.first.rem_euclid(m.period as i128).min(3) as u64);
                    ctx.state(h.0);
                }
            }
            if let Step::Now { ck, .. } | Step::Elapsed { ck, .. } | Step::Date { ck } | Step::Carry { ck, .. } = s {
                let mut h = Mix::new();
                h.add(ck.s as u64 >> 12); h.add((ck.adv != 0) as u64); h.add(ck.n as u64 / 100_000);
                ctx.state(h.0);
            }
        }
    }

    fn plan(r: &mut Rng, focus: &str, tier: Tier) -> Plan<(), Step> {
        const US: i128 = 1000;
        let nodes = 1 + r.idx(4);
        let mut k: Kernel<u8> = Kernel::new(nodes, NetCfg::random(r));
        let real = |r: &mut Rng| -> i128 { (match r.below(12) {
            0 => 0, 1 => (1i64 << 31) - 1, 2 => 1i64 << 31, 3 => 1i64 << 32, 4 => -1, 5 => -(1i64 << 31), 6 => (1i64 << 33) - 100_000, 7 => -(1i64 << 33) + 100_000,
            8 => 1_700_000_000, 9 => -r.range(0, 1 << 33), _ => r.range(0, 1 << 33) }) as i128 * 1_000_000_000 + r.range(-2_000_000_000, 2_000_000_000) as i128 };
        let base = real(r);
        let mut off: Vec<i128> = (0..nodes).map(|_| if r.coin() { 0 } else { r.range(-5_000_000_000, 5_000_000_000) as i128 }).collect();
        for o in &off { if *o != 0 { k.fault("clock_skew"); } }
        let drift: Vec<i128> = (0..nodes).map(|_| if r.coin() { 0 } else { r.range(-200, 200) as i128 }).collect();
        for d in &drift { if *d != 0 { k.fault("clock_drift"); } }
        let advs = r.coin();
        let mut left: Vec<usize> = { let long = if r.chance(1, 150) { 12 } else { 1 }; (0..nodes).map(|_| 4 + r.idx(if tier == Tier::Thorough { 40 } else { 16 }) * long).collect() };
        let mut steps: Vec<Step> = vec![];
        let seqs = if focus == "C17" { 15 } else { 80 };
        let mut periods = [1i64; 4];
        let mut has = [false; 4];
        for n in 0..nodes { let d = r.below(1000); k.timer(n, d, 0); }
        while let Some(Ev::Timer { node, .. }) = k.pop() {
            if left[node] == 0 { continue; }
            left[node] -= 1;
            if r.chance(1, 12) {
                // the clock is set
                let j = match r.below(4) { 0 => r.range(-3_000_000_000, 3_000_000_000) as i128, 1 => real(r) - base, 2 => r.range(-1_000_000, 1_000_000) as i128 * 1_000_000_000, _ => -off[node] };
                k.fault(if j < 0 { "clock_jump_backward" } else { "clock_jump_forward" });
                off[node] += j;
            }
            let lim = ((1i128 << 33) - 2) * 1_000_000_000;
            let ns = (base + off[node] + k.now as i128 * US + k.now as i128 * drift[node] / 1000).clamp(-lim, lim);
            let adv = if advs && r.chance(1, 3) { k.fault("clock_advances_while_read"); r.range(-50, 5000) } else { 0 };
            let ck = Ck { s: ns.div_euclid(1_000_000_000) as i64, n: ns.rem_euclid(1_000_000_000) as u32, adv };
            let (c, nd) = (node as u8, node as u8);
            if r.chance(seqs, 100) {
                if !has[node] || r.chance(1, 10) {
                    let kind = r.below(4) as u8;
                    let sec = 1i64 << 30;
                    for _ in 0..20 {
                        let period = match r.below(12) { 0 => 1, 1 => 2, 2 => 3, 3 => sec, 4 => sec * 3600, 5 => 1 << 62, 6 => INF - 1 - r.range(0, 3), 7 => r.range(1, 40), 8 => sec / r.range(1, 1000), _ => { let b = r.range(1, 61); r.range(1, 1 << b) } };
                        let far = r.below(6) as i128;
                        let start: i64 = match r.below(10) {
                            // near the end of time (so that the end is reached)
                            0..=3 => { let e = LIM - far * period as i128 - r.range(0, period.min(1000)) as i128; sat(if kind % 2 == 0 { e } else { -e }) }
                            // near the other limit
                            4 => { let e = LIM - period as i128 - r.range(0, 2) as i128; sat(if kind % 2 == 0 { -e } else { e }) }
                            5 => 0, 6 => r.range(-50, 50),
                            7 => { let q = r.range(-5, 5) as i128; sat(q * period as i128 + r.range(-1, 1) as i128) }
                            _ => { let b = r.range(1, 62); r.range(-(1 << b), 1 << b) }
                        };
                        if r.chance(1, 4) { steps.push(Step::NewNow { c, kind, period, ck }); } else if legal(kind, start, period) { steps.push(Step::New { c, kind, start, period }); } else { continue }
                        periods[node] = period;
                        has[node] = true;
                        break;
                    }
                } else {
                    let far = r.chance(1, 6);
                    let n = if far { let b = r.below(63); r.below(1 << b) } else { r.below(5) };
                    steps.push(match r.below(20) {
                        0..=4 => Step::Next { c }, 5..=7 => Step::Nth { c, n }, 8 => Step::StepBy { c, n: n.max(1), k: r.below(5) as u8 }, 9 => Step::Take { c, k: r.below(6) as u8 },
                        10 | 11 => Step::Catch { c, ck }, 12 => Step::Count { c }, 13 => Step::Last { c }, 14 => Step::Hint { c }, 15 => Step::Drain { c },
                        16 => Step::Save { c }, 17 => Step::Restore { c }, _ => Step::Restart { c },
                    });
                }
            } else {
                steps.push(match r.below(6) {
                    0 | 1 => Step::Now { node: nd, ck },
                    2 => Step::Elapsed { node: nd, ck, since: None },
                    3 => { let since = match r.below(8) { 0 => INF, 1 => -INF, 2 => INF - 1, 3 => 1 - INF, 4 => 0, _ => { let b = r.range(1, 62); r.range(-(1 << b), 1 << b) } }; Step::Elapsed { node: nd, ck, since: Some(since) } }
                    4 => Step::Date { ck },
                    _ => Step::Carry { from: nd, to: r.idx(nodes) as u8, ck },
                });
            }
            let d = if r.chance(1, 8) { k.fault("node_stalled"); 50_000 + r.below(100_000_000) } else { 1 + r.below(5000) };
            k.timer(node, d, 0);
        }
        let now = k.now;
        Plan { cfg: (), steps, faults: k.faults, sim_us: now }
    }

    fn simpler(s: &Step) -> Vec<Step> {
        let cks = |ck: &Ck| -> Vec<Ck> {
            let mut v = vec![];
            if ck.adv != 0 { v.push(Ck { adv: 0, ..*ck }); }
            if ck.n != 0 { v.push(Ck { n: 0, ..*ck }); }
            for s in shrink_num(ck.s) { v.push(Ck { s, ..*ck }); }
            v
        };
        match s {
            Step::Now { node, ck } => cks(ck).into_iter().map(|ck| Step::Now { node: *node, ck }).collect(),
            Step::Date { ck } => cks(ck).into_iter().map(|ck| Step::Date { ck }).collect(),
            Step::Elapsed { node, ck, since } => {
                let mut v = vec![Step::Now { node: *node, ck: *ck }];
                v.extend(cks(ck).into_iter().map(|ck| Step::Elapsed { node: *node, ck, since: *since }));
                if let Some(s) = since { for x in shrink_num(*s) { v.push(Step::Elapsed { node: *node, ck: *ck, since: Some(x) }); } }
                v
            }
            Step::Carry { from, to, ck } => cks(ck).into_iter().map(|ck| Step::Carry { from: *from, to: *to, ck }).collect(),
            Step::New { c, kind, start, period } => {
                let mut v = vec![];
                for p in shrink_num(*period) { v.push((*start, p)); }
                for x in shrink_num(*start) { v.push((x, *period)); }
                let e = sat(if kind % 2 == 0 { LIM } else { -LIM });
                for d in [0, 1, 2] { if *start != e - d { v.push((e - d, 1)); } }
                v.into_iter().filter(|(s, p)| legal(*kind, *s, *p)).map(|(start, period)| Step::New { c: *c, kind: *kind, start, period }).collect()
            }
            Step::NewNow { c, kind, period, ck } => {
                let mut v = vec![];
                for p in shrink_num(*period) { if p > 0 { v.push(Step::NewNow { c: *c, kind: *kind, period: p, ck: *ck }); } }
                for ck in cks(ck) { v.push(Step::NewNow { c: *c, kind: *kind, period: *period, ck }); }
                v
            }
            Step::Catch { c, ck } => { let mut v = vec![Step::Next { c: *c }]; v.extend(cks(ck).into_iter().map(|ck| Step::Catch { c: *c, ck })); v }
            Step::Nth { c, n } => { let mut v = vec![]; if *n > 0 { v.push(Step::Next { c: *c }); v.push(Step::Nth { c: *c, n: n / 2 }); v.push(Step::Nth { c: *c, n: n - 1 }); } v }
            Step::StepBy { c, n, k } => { let mut v = vec![Step::Next { c: *c }]; if *n > 1 { v.push(Step::StepBy { c: *c, n: n / 2, k: *k }); v.push(Step::StepBy { c: *c, n: n - 1, k: *k }); } if *k > 0 { v.push(Step::StepBy { c: *c, n: *n, k: k - 1 }); } v }
            Step::Take { c, k } => if *k > 0 { vec![Step::Next { c: *c }, Step::Take { c: *c, k: k - 1 }] } else { vec![] },
            _ => vec![],
        }
    }
}

impl ClockW {
    fn create(ctx: &mut Ctx, c: &mut Client, kind: u8, start: i64, period: i64) -> bool {
        if !legal(kind, start, period) { ctx.probe("not_representable"); return true; }
        let i = match ctx.real(P18, "sequence", || make(kind, start, period)) { Some(i) => i, None => return false };
        let (s, p) = (start as i128, period as i128);
        let first = match kind {
            0 | 1 => s,
            2 => ceil(s, p),
            // the first multiple before or after the date, as it chooses
            _ => {
                let d = i.dup();
                let Some(f) = ctx.real(P18, "aligned first", move || { let mut d = d; d.next().map(rd) }) else { return false };
                let Some(f) = f else { ctx.fail(P18, "aligned", format!("backward multiples of {} from {}: none", period, shown(start))); return false };
                let f = f as i128;
                if !ctx.check(f % p == 0 && (f - s).abs() < p, P18, "aligned", || format!("backward multiples of {} from {} start at {}", period, shown(start), f)) { return false; }
                f
            }
        };
        ctx.note(|| format!("sequence kind {} from {} period {}", kind, shown(start), period));
        c.it = Some((i, Model::new(kind, first, period)));
        c.saved = None;
        true
    }
}
