//! What every simulated world has in common: planning a run from a seed, executing its
//! linear trace against the real code, reporting violations, minimising them.
use crate::net::Faults;
use crate::rng::{Mix, Rng};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Value;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering::SeqCst};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub props: Vec<String>,
    pub class: String,
    pub detail: String,
    pub step: usize,
}

pub struct Plan<C, S> { pub cfg: C, pub steps: Vec<S>, pub faults: Faults, pub sim_us: u64 }

pub trait World {
    const NAME: &'static str;
    type Cfg: Serialize + DeserializeOwned + Clone + std::fmt::Debug;
    type Step: Serialize + DeserializeOwned + Clone + std::fmt::Debug;
    /// every choice of the run is made here, from `rng` only
    fn plan(rng: &mut Rng, focus: &str, tier: Tier) -> Plan<Self::Cfg, Self::Step>;
    /// pure function of its arguments and of the code under test
    fn exec(cfg: &Self::Cfg, steps: &[Self::Step], ctx: &mut Ctx);
    /// simpler variants of a step, simplest first
    fn simpler(step: &Self::Step) -> Vec<Self::Step>;
    fn simpler_cfg(_cfg: &Self::Cfg) -> Vec<Self::Cfg> { vec![] }
}

/// A panic injected by the simulator (an interrupted constraint source, a broken stream)
pub struct Injected;
pub fn inject() -> ! { std::panic::panic_any(Injected) }

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static IN_GUARD: Cell<u32> = Cell::new(0);
}
// what is being run, for the signal handler of a dying worker
static GUARD_TAG: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static GUARD_LEN: AtomicUsize = AtomicUsize::new(0);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<Injected>().is_some() { return; }
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = info.location().map(|l| {
            let f = l.file().rsplit("/src/").next().unwrap_or("?").to_string();
            // source files of the crate under test have an absolute path outside of the registry
            let code = l.file().starts_with('/') && !l.file().contains("/.cargo/") && !l.file().starts_with("/rustc/");
            format!("{}:{}{}", f, l.line(), if code { " [code]" } else { "" })
        }).unwrap_or_default();
        let s = format!("{} at {}", msg, loc);
        if IN_GUARD.with(|g| g.get()) == 0 { eprintln!("harness panic: {}", s); }
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

/// current guard tag (async-signal-safe)
pub fn guard_tag() -> (*const u8, usize) { (GUARD_TAG.load(SeqCst), GUARD_LEN.load(SeqCst)) }

pub enum Caught { Injected, Panic(String) }

pub struct Ctx {
    /// the property under check; violations of others only are counted as foreign
    pub focus: Option<String>,
    pub viol: Option<Violation>,
    pub foreign: Option<Violation>,
    /// violations of other properties which did not stop the run
    pub soft: std::collections::BTreeMap<String, (u64, String)>,
    pub faults: Faults,
    pub probes: Faults,
    pub states: HashSet<u64>,
    pub state_cap: usize,
    pub log: Mix,
    pub text: Option<Vec<String>>,
    pub step: usize,
    pub checks: u64,
    pub lean: bool,
}

/// one run in four makes no observation for other properties
pub fn lean(run: u64) -> bool { (run >> 4) & 3 == 3 }

impl Ctx {
    pub fn new(focus: Option<String>) -> Ctx {
        Ctx { focus, viol: None, foreign: None, soft: Default::default(), faults: Faults::new(), probes: Faults::new(), states: HashSet::new(),
              state_cap: usize::MAX, log: Mix::new(), text: None, step: 0, checks: 0, lean: false }
    }
    pub fn begin(&mut self, i: usize) { self.step = i; self.log.add(i as u64); }
    pub fn stopped(&self) -> bool { self.viol.is_some() || self.foreign.is_some() }
    pub fn fault(&mut self, k: &str) { *self.faults.entry(k.to_string()).or_default() += 1; }
    pub fn probe(&mut self, k: &str) { *self.probes.entry(k.to_string()).or_default() += 1; }
    /// event log: never draws randomness
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if self.text.is_some() {
            let s = s();
            self.log.str(&s);
            let step = self.step;
            self.text.as_mut().unwrap().push(format!("{:>4} {}", step, s));
        } else {
            let s = s();
            self.log.str(&s);
        }
    }
    pub fn state(&mut self, h: u64) { if self.states.len() < self.state_cap { self.states.insert(h); } }
    pub fn fail(&mut self, props: &[&str], class: &str, detail: String) {
        if self.stopped() { return; }
        let mut props: Vec<String> = props.iter().map(|s| s.to_string()).collect();
        props.sort();
        props.dedup();
        let v = Violation { class: class.to_string(), detail, step: self.step, props };
        if let Some(t) = self.text.as_mut() { t.push(format!("{:>4} VIOLATION {:?} {} {}", self.step, v.props, v.class, v.detail)); }
        match &self.focus {
            Some(f) if !v.props.contains(f) => self.foreign = Some(v),
            _ => self.viol = Some(v),
        }
    }
    pub fn check(&mut self, ok: bool, props: &[&str], class: &str, detail: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        if !ok { self.fail(props, class, detail()); }
        ok
    }
    /// is one of these properties the one under check?
    pub fn mine(&self, props: &[&str]) -> bool { self.focus.as_ref().map_or(true, |f| props.contains(&f.as_str())) }
    /// something wrong which does not prevent the run from going on when it is not what is under check
    pub fn soft_fail(&mut self, props: &[&str], class: &str, detail: String) {
        if self.mine(props) { return self.fail(props, class, detail); }
        if let Some(t) = self.text.as_mut() { t.push(format!("{:>4} (other property) {:?} {} {}", self.step, props, class, detail)); }
        self.soft.entry(format!("{} {}", props.join(","), class)).or_insert((0, detail)).0 += 1;
    }
    /// false only when the run is over
    pub fn soft(&mut self, ok: bool, props: &[&str], class: &str, detail: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        if !ok { self.soft_fail(props, class, detail()); }
        !self.stopped()
    }
    /// None: it panicked, and the run is over only if that matters here
    pub fn soft_real<R>(&mut self, props: &[&str], what: &str, f: impl FnOnce() -> R) -> Option<R> {
        match guarded(props, what, f) {
            Ok(r) => Some(r),
            Err(Caught::Injected) => { self.soft_fail(props, &format!("unexpected-injection:{}", what), String::new()); None }
            Err(Caught::Panic(m)) => { self.soft_fail(props, &format!("panic:{}", what), format!("{} panicked: {}", what, m)); None }
        }
    }
    /// an observation made for other properties; left out of lean runs, so that what makes it die hides nothing else
    pub fn look<R>(&mut self, props: &[&str], what: &str, f: impl FnOnce() -> R) -> Option<R> {
        if self.lean && !self.mine(props) { return None; }
        self.soft_real(props, what, f)
    }
    /// runs real code; a panic which was not injected is a violation of `props`
    pub fn real<R>(&mut self, props: &[&str], what: &str, f: impl FnOnce() -> R) -> Option<R> {
        match guarded(props, what, f) {
            Ok(r) => Some(r),
            Err(Caught::Injected) => { self.fail(props, &format!("unexpected-injection:{}", what), String::new()); None }
            Err(Caught::Panic(m)) => { self.fail(props, &format!("panic:{}", what), format!("{} panicked: {}", what, m)); None }
        }
    }
}

pub fn guarded<R>(props: &[&str], what: &str, f: impl FnOnce() -> R) -> Result<R, Caught> {
    let tag = format!("{}|{}", props.join(","), what);
    let (p0, l0) = (GUARD_TAG.load(SeqCst), GUARD_LEN.load(SeqCst));
    GUARD_LEN.store(0, SeqCst);
    GUARD_TAG.store(tag.as_ptr() as *mut u8, SeqCst);
    GUARD_LEN.store(tag.len(), SeqCst);
    IN_GUARD.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_GUARD.with(|g| g.set(g.get() - 1));
    GUARD_LEN.store(0, SeqCst);
    GUARD_TAG.store(p0, SeqCst);
    GUARD_LEN.store(l0, SeqCst);
    r.map_err(|e: Box<dyn Any + Send>| {
        if e.downcast_ref::<Injected>().is_some() { Caught::Injected }
        else { Caught::Panic(LAST_PANIC.with(|p| p.borrow().clone())) }
    })
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Trace {
    pub world: String,
    pub property: String,
    pub profile: String,
    pub seed: u64,
    pub run: u64,
    pub cfg: Value,
    pub steps: Vec<Value>,
}

pub fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    let mut m = Mix::new();
    m.add(seed);
    m.str(prop);
    m.add(run);
    m.0
}

pub struct Done { pub steps: usize, pub sim_us: u64, pub log: u64, pub plan_faults: Faults }

pub fn run_world<W: World>(seed: u64, prop: &str, run: u64, tier: Tier, ctx: &mut Ctx) -> Done {
    let mut rng = Rng::new(run_seed(seed, prop, run));
    let plan = W::plan(&mut rng, prop, tier);
    W::exec(&plan.cfg, &plan.steps, ctx);
    Done { steps: plan.steps.len(), sim_us: plan.sim_us, log: ctx.log.0, plan_faults: plan.faults }
}

pub fn trace_world<W: World>(seed: u64, prop: &str, run: u64, tier: Tier) -> Trace {
    let mut rng = Rng::new(run_seed(seed, prop, run));
    let plan = W::plan(&mut rng, prop, tier);
    Trace {
        world: W::NAME.into(), property: prop.into(), profile: crate::driver::profile().into(), seed, run,
        cfg: serde_json::to_value(&plan.cfg).unwrap(),
        steps: plan.steps.iter().map(|s| serde_json::to_value(s).unwrap()).collect(),
    }
}

pub fn exec_world<W: World>(t: &Trace, ctx: &mut Ctx) {
    let cfg: W::Cfg = serde_json::from_value(t.cfg.clone()).expect("bad cfg in trace");
    let steps: Vec<W::Step> = t.steps.iter().map(|s| serde_json::from_value(s.clone()).expect("bad step in trace")).collect();
    W::exec(&cfg, &steps, ctx);
}

pub fn simpler_steps<W: World>(s: &Value) -> Vec<Value> {
    let s: W::Step = serde_json::from_value(s.clone()).unwrap();
    W::simpler(&s).iter().map(|x| serde_json::to_value(x).unwrap()).collect()
}
pub fn simpler_cfgs<W: World>(c: &Value) -> Vec<Value> {
    let c: W::Cfg = serde_json::from_value(c.clone()).unwrap();
    W::simpler_cfg(&c).iter().map(|x| serde_json::to_value(x).unwrap()).collect()
}

/// smaller magnitudes of a number (toward zero), keeping the infinite sentinels
pub fn shrink_num(x: i64) -> Vec<i64> {
    if x == 0 || x == i64::MAX || x == -i64::MAX { return vec![]; }
    let mut v = vec![0];
    if x.abs() > 10 { v.push(x.signum() * 10); v.push(x / 1000); v.push(x / 2); }
    v.push(x - x.signum());
    v.retain(|y| *y != x);
    v.dedup();
    v
}
