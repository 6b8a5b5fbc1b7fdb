//! Command line: searching, minimising, replaying, evidence.
use crate::engine::*;
use crate::net::Faults;
use crate::worlds::{agenda::Agenda, clockw::ClockW, graph::Graph, live::Live, sets::Sets, streams::Streams};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub fn profile() -> &'static str { if cfg!(debug_assertions) { "checked" } else { "release" } }

/// which simulated world decides a property (several may share one)
fn world_of(prop: &str, run: u64) -> &'static str {
    match prop {
        "C01" | "C02" | "C03" | "C05" | "C06" | "C08" => "graph",
        "C04" => if run % 5 < 3 { "graph" } else { "agenda" },
        "C07" => "live",
        "C09" | "C10" | "C11" => "agenda",
        "C12" | "C13" | "C14" => "sets",
        "C15" | "C16" => "streams",
        "C17" | "C18" => "clock",
        "C24" => match run % 5 { 0 | 1 => "agenda", 2 | 3 => "sets", _ => "live" },
        _ => die(&format!("no check for property {}", prop)),
    }
}

macro_rules! dispatch {
    ($name:expr, $f:ident, $($a:expr),*) => { match $name {
        "graph" => $f::<Graph>($($a),*), "live" => $f::<Live>($($a),*), "agenda" => $f::<Agenda>($($a),*),
        "sets" => $f::<Sets>($($a),*), "streams" => $f::<Streams>($($a),*), "clock" => $f::<ClockW>($($a),*),
        w => die(&format!("unknown world {}", w)),
    } };
}

/// runs of (checked, release) builds and wall-clock cap of the search, in seconds
fn budget(prop: &str, tier: Tier) -> (u64, u64, u64) {
    let (c, r) = match prop {
        "C07" => (600_000, 0),
        "C09" | "C10" | "C11" => (600_000, 120_000),
        "C12" | "C13" | "C14" => (800_000, 160_000),
        "C15" | "C16" => (1_500_000, 300_000),
        "C17" | "C18" => (2_000_000, 400_000),
        _ => (400_000, 80_000),
    };
    match tier { Tier::Quick => (c, r, 150), Tier::Thorough => (c * 60, r * 60, 650) }
}

fn real_parts(world: &str) -> (Vec<&'static str>, Vec<&'static str>) {
    let common_stub = "scheduler, random source: simulator (xoshiro256** from VERIF_SEED)";
    match world {
        "graph" => (vec!["TimeGraph (storage, propagation, constraints iterators)", "TimeSpan/TimeValue and range constraints"], vec!["network between replicas, clients, durable export: simulated", "interruptible constraint sources: simulated", common_stub]),
        "live" => (vec!["TimeGraph propagate/extend/Extend"], vec!["the other party editing the constraint: simulated at every accessor call", common_stub]),
        "agenda" => (vec!["TimeScheduler, TimeGraph, TimeSet/TimeSlot algebra"], vec!["clients: parked OS threads released one at a time by the simulator, or re-entrant accessor calls", common_stub]),
        "sets" => (vec!["TimeSet, TimeInterval, ranges, operators, serde implementations"], vec!["replicas' network, durable log and snapshots: simulated", "binary serialisation format: harness (JSON: real serde_json)", common_stub]),
        "streams" => (vec!["union/intersection/complement/exclusion/translation iterators"], vec!["sources: simulated (delay, break, end, resume, endless)", common_stub]),
        _ => (vec!["Timestamp::now/elapsed, conversions, time sequences"], vec!["system clock: clock_gettime interposed", "pulling clients: simulated", common_stub]),
    }
}

fn die(s: &str) -> ! { eprintln!("chronosim: error: {}", s); std::process::exit(2) }

// ---------------------------------------------------------------- child processes

static CUR: AtomicU64 = AtomicU64::new(0);
static CPU_LIMIT: AtomicU64 = AtomicU64::new(20);

extern "C" fn on_signal(sig: i32) {
    unsafe {
        let mut b = [0u8; 400];
        let mut n = 0;
        let mut put = |s: &[u8]| { for c in s { if n < 399 { b[n] = *c; n += 1 } } };
        let num = |mut x: u64| -> ([u8; 20], usize) { let mut d = [0u8; 20]; let mut k = 20; loop { k -= 1; d[k] = b'0' + (x % 10) as u8; x /= 10; if x == 0 { break } } (d, k) };
        put(b"\nX ");
        let (d, k) = num(sig as u64);
        put(&d[k..]);
        put(b" ");
        let (d, k) = num(CUR.load(SeqCst));
        put(&d[k..]);
        put(b" ");
        let (p, l) = guard_tag();
        if !p.is_null() && l > 0 { put(std::slice::from_raw_parts(p, l.min(300))); }
        put(b"\n");
        libc::write(1, b.as_ptr() as *const _, n);
        libc::_exit(3);
    }
}

fn child_setup() {
    install_panic_hook();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGPROF] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn arm() {
    unsafe {
        let t = libc::timeval { tv_sec: CPU_LIMIT.load(SeqCst) as i64, tv_usec: 0 };
        let z = libc::timeval { tv_sec: 0, tv_usec: 0 };
        let it = libc::itimerval { it_interval: z, it_value: t };
        libc::syscall(libc::SYS_setitimer, 2 /* ITIMER_PROF */, &it as *const _, 0usize);
    }
}

#[derive(Clone, Serialize, Deserialize, Default)]
struct Stats {
    runs: u64, nontrivial: u64, steps: u64, checks: u64, sim_us: u64, #[serde(default)] slowest: (u64, u64),
    faults: Faults, probes: Faults, foreign: BTreeMap<String, (u64, u64, String)>, #[serde(default)] soft: BTreeMap<String, (u64, u64, String)>, known: BTreeMap<String, u64>,
}

#[derive(Clone)]
struct Known { property: String, class: String, pat: String, text: String }
fn known_findings() -> Vec<Known> {
    let mut v = vec![];
    let s = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    for l in s.lines() {
        // known: property=C01 class=<class> match=<substring of the detail> :: what fails
        let Some(r) = l.trim().strip_prefix("known:") else { continue };
        let (head, text) = r.split_once("::").unwrap_or((r, ""));
        let get = |k: &str| head.split_once(k).map(|(_, t)| t).unwrap_or("").to_string();
        let property = get("property=").split_whitespace().next().unwrap_or("").to_string();
        let class = get("class=").split(" match=").next().unwrap_or("").trim().to_string();
        let pat = get("match=").trim().to_string();
        v.push(Known { property, class, pat, text: text.trim().to_string() });
    }
    v
}
fn is_known(k: &[Known], prop: &str, v: &Violation) -> Option<usize> {
    k.iter().position(|k| k.property == prop && k.class == v.class && !k.pat.is_empty() && v.detail.contains(&k.pat))
}

fn root() -> PathBuf {
    if let Ok(r) = std::env::var("CHRONOSIM_ROOT") { return r.into(); }
    // <root>/sim/target/<profile>/chronosim
    let e = std::env::current_exe().unwrap();
    e.ancestors().nth(4).map(|p| p.to_path_buf()).unwrap_or_else(|| "/verif".into())
}

fn run_one(seed: u64, prop: &str, run: u64, tier: Tier, ctx: &mut Ctx) -> Done {
    dispatch!(world_of(prop, run), run_world, seed, prop, run, tier, ctx)
}

/// a run whose panics were not caught by the world: from the code under test or from the harness?
fn contained<R>(prop: &str, f: impl FnOnce() -> R) -> Result<R, Violation> {
    match guarded(&[], "", f) {
        Ok(r) => Ok(r),
        Err(Caught::Injected) => die("an injected interruption escaped"),
        Err(Caught::Panic(m)) => {
            if m.contains("[code]") {
                Err(Violation { props: vec![prop.into()], class: "panic:unguarded".into(), detail: m, step: 0 })
            } else { die(&format!("harness panic: {}", m)) }
        }
    }
}

fn worker(a: &[String]) {
    child_setup();
    let (prop, tier, seed) = (a[0].clone(), tier_of(&a[1]), num(&a[2]));
    let (start, stride, end, secs) = (num(&a[3]), num(&a[4]), num(&a[5]), num(&a[6]));
    let lean_only = a.get(7).map_or(false, |s| s == "lean");
    let known = known_findings();
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut logs: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut last = Instant::now();
    let out = std::io::stdout();
    let mut i = start;
    while i < end {
        if last.elapsed() > Duration::from_millis(200) {
            last = Instant::now();
            writeln!(out.lock(), "P {}", i).unwrap();
            out.lock().flush().unwrap();
            if t0.elapsed().as_secs() >= secs { break; }
        }
        if lean_only && !lean(i) { i += stride; continue; }
        CUR.store(i, SeqCst);
        arm();
        let began = Instant::now();
        let mut ctx = Ctx::new(Some(prop.clone()));
        ctx.lean = lean(i);
        ctx.state_cap = 400_000usize.saturating_sub(states.len()).min(20_000);
        let d = match contained(&prop, || run_one(seed, &prop, i, tier, &mut ctx)) {
            Ok(d) => d,
            Err(v) => { ctx.viol = Some(v); Done { steps: 0, sim_us: 0, log: 0, plan_faults: Faults::new() } }
        };
        st.slowest = st.slowest.max((began.elapsed().as_millis() as u64, i));
        st.runs += 1;
        st.steps += d.steps as u64;
        st.sim_us += d.sim_us;
        st.checks += ctx.checks;
        let nf: u64 = ctx.faults.values().sum::<u64>() + d.plan_faults.values().sum::<u64>();
        for (k, n) in ctx.faults.iter().chain(d.plan_faults.iter()) { *st.faults.entry(k.clone()).or_default() += n; }
        for (k, n) in &ctx.probes { *st.probes.entry(k.clone()).or_default() += n; }
        if states.len() < 400_000 { states.extend(ctx.states.iter()); }
        if nf > 0 && ctx.checks > 0 && d.steps > 1 { st.nontrivial += 1; logs.insert(d.log); }
        if let Some(f) = &ctx.foreign {
            let e = st.foreign.entry(format!("{} {}", f.props.join(","), f.class)).or_insert((0, i, f.detail.clone()));
            e.0 += 1;
        }
        for (k, (n, d)) in &ctx.soft {
            let e = st.soft.entry(k.clone()).or_insert((0, i, d.clone()));
            e.0 += n;
        }
        if let Some(v) = &ctx.viol {
            match is_known(&known, &prop, v) {
                Some(k) => *st.known.entry(known[k].text.clone()).or_default() += 1,
                None => {
                    let o = out.lock();
                    let mut o = o;
                    writeln!(o, "V {} {}", i, serde_json::to_string(v).unwrap()).unwrap();
                    o.flush().unwrap();
                    break;
                }
            }
        }
        i += stride;
    }
    let mut o = out.lock();
    let hex = |s: &HashSet<u64>| -> String { let mut v: Vec<_> = s.iter().collect(); v.sort(); v.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" ") };
    writeln!(o, "L {}", hex(&logs)).unwrap();
    writeln!(o, "T {}", hex(&states)).unwrap();
    writeln!(o, "S {}", serde_json::to_string(&st).unwrap()).unwrap();
    o.flush().unwrap();
}

#[derive(Serialize, Deserialize)]
struct ExecReq { trace: Trace, text: bool }
#[derive(Serialize, Deserialize, Clone, Default)]
struct ExecRep { viol: Option<Violation>, foreign: Option<Violation>, log: u64, text: Vec<String>, faults: Faults, checks: u64 }

fn exec_trace(t: &Trace, text: bool) -> ExecRep {
    let mut ctx = Ctx::new(Some(t.property.clone()));
    ctx.lean = lean(t.run);
    if text { ctx.text = Some(vec![]); }
    if let Err(v) = contained(&t.property, || dispatch!(t.world.as_str(), exec_world, t, &mut ctx)) { ctx.viol = Some(v); }
    ExecRep { viol: ctx.viol, foreign: ctx.foreign, log: ctx.log.0, text: ctx.text.unwrap_or_default(), faults: ctx.faults, checks: ctx.checks }
}

/// executes the traces given on stdin
fn exec_server() {
    child_setup();
    CPU_LIMIT.store(5, SeqCst);
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        let r: ExecReq = serde_json::from_str(&l).unwrap();
        arm();
        let rep = exec_trace(&r.trace, r.text);
        let mut o = std::io::stdout().lock();
        writeln!(o, "R {}", serde_json::to_string(&rep).unwrap()).unwrap();
        o.flush().unwrap();
    }
}

fn crash_violation(l: &str, prop: &str) -> Option<(u64, Violation)> {
    // X sig idx tag
    let mut p = l[2..].splitn(3, ' ');
    let sig: i32 = p.next()?.parse().ok()?;
    let idx: u64 = p.next()?.parse().ok()?;
    let tag = p.next().unwrap_or("");
    let name = match sig { libc::SIGSEGV => "segfault", libc::SIGBUS => "bus error", libc::SIGABRT => "abort", libc::SIGILL => "illegal instruction", libc::SIGFPE => "arithmetic trap", _ => "hang" };
    let (props, what) = tag.split_once('|')?;
    let props: Vec<String> = props.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let _ = prop;
    Some((idx, Violation { class: format!("{}:{}", name, what), detail: format!("{} did not return: {}", what, name), step: 0, props }))
}

struct Server { child: Child, stdin: Option<ChildStdin>, rx: mpsc::Receiver<String>, exe: PathBuf }
impl Server {
    fn new(exe: &Path) -> Server {
        let mut child = Command::new(exe).arg("exec").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| die(&format!("cannot start {:?}: {}", exe, e)));
        let out = child.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || { for l in BufReader::new(out).lines() { match l { Ok(l) => if tx.send(l).is_err() { break }, Err(_) => break } } });
        let stdin = child.stdin.take();
        Server { child, stdin, rx, exe: exe.to_path_buf() }
    }
    /// None: the harness itself failed
    fn run(&mut self, t: &Trace, text: bool) -> Option<ExecRep> {
        let req = serde_json::to_string(&ExecReq { trace: t.clone(), text }).unwrap();
        let ok = self.stdin.as_mut().map_or(false, |s| writeln!(s, "{}", req).and_then(|_| s.flush()).is_ok());
        if !ok { self.restart(); return None; }
        let t0 = Instant::now();
        loop {
            match self.rx.recv_timeout(Duration::from_secs(60)) {
                Ok(l) => {
                    if let Some(r) = l.strip_prefix("R ") { return serde_json::from_str(r).ok(); }
                    if l.starts_with("X ") {
                        let v = crash_violation(&l, &t.property);
                        self.restart();
                        return v.map(|(_, v)| ExecRep { viol: v.props.contains(&t.property).then(|| v.clone()), foreign: (!v.props.contains(&t.property)).then_some(v), ..Default::default() });
                    }
                }
                Err(_) => { self.restart(); return None; }
            }
            if t0.elapsed().as_secs() > 120 { self.restart(); return None; }
        }
    }
    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let exe = self.exe.clone();
        let n = Server::new(&exe);
        let old = std::mem::replace(self, n);
        std::mem::drop(old);
    }
}
impl Drop for Server { fn drop(&mut self) { self.stdin = None; let _ = self.child.kill(); let _ = self.child.wait(); } }

fn exe_of(prof: &str) -> PathBuf {
    if prof == profile() { return std::env::current_exe().unwrap(); }
    let e = std::env::current_exe().unwrap();
    e.parent().unwrap().parent().unwrap().join(prof).join("chronosim")
}

fn minimise(s: &mut Server, t: Trace, v: &Violation, limit: Duration) -> (Trace, Violation, u64) {
    let t0 = Instant::now();
    let mut tries = 0u64;
    let mut best = t;
    let mut bv = v.clone();
    let prop = best.property.clone();
    let mut test = |c: &Trace, s: &mut Server| -> Option<Violation> {
        tries += 1;
        let r = s.run(c, false)?;
        r.viol.filter(|w| w.class == v.class && w.props.contains(&prop))
    };
    // nothing after the failing step matters
    if bv.step + 1 < best.steps.len() && bv.step > 0 {
        let mut c = best.clone();
        c.steps.truncate(bv.step + 1);
        if let Some(w) = test(&c, s) { best = c; bv = w; }
    }
    loop {
        let before = serde_json::to_string(&(&best.cfg, &best.steps)).unwrap();
        // drop chunks of steps
        let mut size = (best.steps.len() + 1) / 2;
        while size >= 1 && t0.elapsed() < limit {
            let mut at = 0;
            while at < best.steps.len() && t0.elapsed() < limit {
                let mut c = best.clone();
                let e = (at + size).min(c.steps.len());
                c.steps.drain(at..e);
                match test(&c, s) { Some(w) => { best = c; bv = w; } None => at += size }
            }
            if size == 1 { break; }
            size = (size + 1) / 2;
        }
        // simplify the configuration, then each step
        let mut again = true;
        while again && t0.elapsed() < limit {
            again = false;
            for cfg in dispatch!(best.world.as_str(), simpler_cfgs, &best.cfg) {
                if t0.elapsed() >= limit { break; }
                let mut c = best.clone();
                c.cfg = cfg;
                if let Some(w) = test(&c, s) { best = c; bv = w; again = true; break; }
            }
        }
        let mut x = 0;
        while x < best.steps.len() && t0.elapsed() < limit {
            let mut changed = false;
            for st in dispatch!(best.world.as_str(), simpler_steps, &best.steps[x]) {
                if t0.elapsed() >= limit { break; }
                let mut c = best.clone();
                c.steps[x] = st;
                if let Some(w) = test(&c, s) { best = c; bv = w; changed = true; break; }
            }
            if !changed { x += 1 }
        }
        if t0.elapsed() >= limit || serde_json::to_string(&(&best.cfg, &best.steps)).unwrap() == before { break; }
    }
    (best, bv, tries)
}

fn num(s: &str) -> u64 { s.parse().unwrap_or_else(|_| die(&format!("bad number {}", s))) }
fn tier_of(s: &str) -> Tier { if s == "thorough" { Tier::Thorough } else { Tier::Quick } }

enum Msg { Line(usize, String), End(usize, i32) }

fn check(a: &[String]) {
    let prop = a.first().cloned().unwrap_or_else(|| die("check PROP"));
    let mut tier = tier_of(&std::env::var("VERIF_TIER").unwrap_or_default());
    let mut seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let (mut runs, mut rruns, mut cap);
    let mut over: (Option<u64>, Option<u64>) = (None, None);
    let mut x = 1;
    while x < a.len() {
        match a[x].as_str() {
            "--tier" => { tier = tier_of(&a[x + 1]); x += 1 }
            "--seed" => { seed = num(&a[x + 1]); x += 1 }
            "--runs" => { over.0 = Some(num(&a[x + 1])); x += 1 }
            "--cap" => { over.1 = Some(num(&a[x + 1])); x += 1 }
            o => die(&format!("unknown option {}", o)),
        }
        x += 1;
    }
    (runs, rruns, cap) = budget(&prop, tier);
    if let Some(r) = over.0 { rruns = if rruns == 0 { 0 } else { r / 5 }; runs = r; }
    if let Some(c) = over.1 { cap = c }
    println!("chronosim: property={} tier={:?} seed={} runs={}+{}", prop, tier, seed, runs, rruns);
    let known = known_findings();
    for k in known.iter().filter(|k| k.property == prop) { println!("KNOWN-FINDING: property={} {}", prop, k.text); }

    let t0 = Instant::now();
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16);
    let rw = if rruns == 0 { 0 } else { (cores / 4).max(1) };
    let cw = cores - rw;
    const REL: u64 = 1 << 40; // indices of the runs on the release build
    struct W { child: Child, release: bool, start: u64, stride: u64, end: u64, pos: u64, done: bool, again: Option<u64>, deaths: u32 }
    let (tx, rx) = mpsc::channel();
    let mut ws: Vec<W> = vec![];
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let spawn = |w: usize, release: bool, start: u64, stride: u64, end: u64, secs: u64, lean: bool, tx: &mpsc::Sender<Msg>| -> Child {
        let exe = exe_of(if release { "release" } else { "checked" });
        let mut child = Command::new(&exe).args(["worker", &prop, tier_s, &seed.to_string(), &start.to_string(), &stride.to_string(), &end.to_string(), &secs.to_string(), if lean { "lean" } else { "all" }])
            .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap_or_else(|e| die(&format!("cannot start {:?}: {}", exe, e)));
        let out = child.stdout.take().unwrap();
        let err = child.stderr.take().unwrap();
        std::thread::spawn(move || for l in BufReader::new(err).lines() { match l { Ok(l) => if !l.contains("non-unwinding panic") { eprintln!("{}", l) }, Err(_) => break } });
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() { match l { Ok(l) => { let _ = tx.send(Msg::Line(w, l)); } Err(_) => break } }
            let _ = tx.send(Msg::End(w, 0));
        });
        child
    };
    for w in 0..cw + rw {
        let release = w >= cw;
        let (start, stride, end) = if release { (REL + (w - cw) as u64, rw as u64, REL + rruns) } else { (w as u64, cw as u64, runs) };
        let child = spawn(w, release, start, stride, end, cap, false, &tx);
        ws.push(W { child, release, start, stride, end, pos: start, done: false, again: None, deaths: 0 });
    }
    let mut st = Stats::default();
    let mut logs: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut found: Vec<(bool, u64, usize, Violation)> = vec![]; // release, idx, worker
    let mut first_found: Option<Instant> = None;
    let mut finished = vec![false; ws.len()];
    let mut problem = String::new();
    loop {
        if ws.iter().all(|w| w.done) { break; }
        if let Some(t) = first_found {
            let best = found.iter().map(|f| (f.0, f.1)).min().unwrap();
            let behind = ws.iter().any(|w| !w.done && (w.release, w.pos) < best && (!w.release || best.0));
            if !behind || t.elapsed().as_secs() > 8 {
                for w in ws.iter_mut() { let _ = w.child.kill(); }
            }
        }
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(w, l)) => {
                let tag = l.get(..2).unwrap_or("");
                match tag {
                    "P " => ws[w].pos = num(&l[2..]),
                    "V " => {
                        // (a line may be cut short when its worker was killed)
                        let Some((i, v)) = l[2..].split_once(' ') else { continue };
                        let Ok(v) = serde_json::from_str(v) else { continue };
                        found.push((ws[w].release, num(i), w, v));
                        ws[w].pos = u64::MAX;
                        first_found.get_or_insert(Instant::now());
                    }
                    "X " => match crash_violation(&l, &prop) {
                        Some((i, v)) if v.props.contains(&prop) => { found.push((ws[w].release, i, w, v)); ws[w].pos = u64::MAX; finished[w] = true; first_found.get_or_insert(Instant::now()); }
                        Some((i, v)) => {
                            // a crash which breaks another property only: go on behind it
                            let e = st.foreign.entry(format!("{} {}", v.props.join(","), v.class)).or_insert((0, i, v.detail.clone()));
                            e.0 += 1;
                            // (a build where nearly every run dies that way is left to the property it breaks)
                            ws[w].deaths += 1;
                            if ws[w].deaths <= 200 { ws[w].again = Some(i + ws[w].stride); } else { finished[w] = true; }
                        }
                        None => problem = format!("worker died outside of the code under test: {}", l),
                    },
                    "L " => logs.extend(l[2..].split_whitespace().filter_map(|h| u64::from_str_radix(h, 16).ok())),
                    "T " => states.extend(l[2..].split_whitespace().filter_map(|h| u64::from_str_radix(h, 16).ok())),
                    "S " => {
                        let Ok(s) = serde_json::from_str::<Stats>(&l[2..]) else { continue };
                        finished[w] = true;
                        st.slowest = st.slowest.max(s.slowest); st.runs += s.runs; st.nontrivial += s.nontrivial; st.steps += s.steps; st.checks += s.checks; st.sim_us += s.sim_us;
                        for (k, n) in s.faults { *st.faults.entry(k).or_default() += n }
                        for (k, n) in s.probes { *st.probes.entry(k).or_default() += n }
                        for (k, n) in s.known { *st.known.entry(k).or_default() += n }
                        for (k, n) in s.soft { let e = st.soft.entry(k).or_insert((0, n.1, n.2)); e.0 += n.0 }
                        for (k, n) in s.foreign { let e = st.foreign.entry(k).or_insert((0, n.1, n.2)); e.0 += n.0 }
                    }
                    _ => {}
                }
            }
            Ok(Msg::End(w, _)) => {
                let _ = ws[w].child.wait();
                if let Some(i) = ws[w].again.take() {
                    let secs = cap.saturating_sub(t0.elapsed().as_secs());
                    if i < ws[w].end && secs > 0 && found.is_empty() {
                        ws[w].child = spawn(w, ws[w].release, i, ws[w].stride, ws[w].end, secs, ws[w].deaths >= 40, &tx);
                        ws[w].start = i;
                        ws[w].pos = i;
                        continue;
                    }
                    finished[w] = true;
                }
                ws[w].done = true;
                if !finished[w] && found.is_empty() && problem.is_empty() { problem = format!("worker {} ended without a report (killed?)", w); }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        if t0.elapsed().as_secs() > cap + 90 {
            for w in ws.iter_mut() { let _ = w.child.kill(); }
            if found.is_empty() { problem = "search did not end in time".into(); }
            break;
        }
    }
    for w in ws.iter_mut() { let _ = w.child.kill(); let _ = w.child.wait(); }
    let search_s = t0.elapsed().as_secs_f64();
    for (k, n) in &st.soft { println!("note: seen {} times: {} (not this property): run {}: {}", n.0, k, n.1, n.2.chars().take(300).collect::<String>()); }
    for (k, n) in &st.foreign { println!("note: {} runs stopped by {} (not this property): run {}: {}", n.0, k, n.1, n.2.chars().take(300).collect::<String>()); }

    let mut viol_line = None;
    if let Some((rel, idx, w, v)) = found.iter().min_by_key(|f| (f.0, f.1)).cloned() {
        println!("run {} ({} build): {} -- {}", idx, if rel { "release" } else { "checked" }, v.class, v.detail);
        let prof = if rel { "release" } else { "checked" };
        let (start, stride) = (ws[w].start, ws[w].stride);
        let path = report(&prop, tier, seed, idx, prof, &v, start, stride);
        viol_line = Some(format!("VIOLATION property={} replay={}", prop, path.display()));
    }

    // samples: some runs written out
    let mut samples = vec![];
    {
        let mut s = Server::new(&exe_of("checked"));
        for idx in 0..40u64 {
            let t = dispatch!(world_of(&prop, idx), trace_world, seed, &prop, idx, tier);
            if t.steps.len() < 2 || t.steps.len() > 14 && idx < 35 { continue; }
            if let Some(r) = s.run(&t, true) {
                if r.checks == 0 { continue; }
                let mut text = r.text.clone();
                text.truncate(30);
                samples.push(json!({"run": idx, "run_seed": run_seed(seed, &prop, idx).to_string(), "world": t.world, "cfg": t.cfg, "steps": t.steps.iter().take(12).collect::<Vec<_>>(), "event_log": text, "event_log_hash": format!("{:016x}", r.log)}));
                if samples.len() >= 2 { break; }
            }
        }
    }
    let worlds: Vec<&str> = { let mut w: Vec<&str> = (0..5).map(|r| world_of(&prop, r)).collect(); w.sort(); w.dedup(); w };
    let (mut real, mut stub) = (vec![], vec![]);
    for w in &worlds { let (r, s) = real_parts(w); real.extend(r); stub.extend(s); }
    real.sort(); real.dedup(); stub.sort(); stub.dedup();
    let fault_total: u64 = st.faults.values().sum();
    let ev = json!({
        "property": prop, "tier": tier_s, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": logs.len(),
            "rule": "one evaluation = one simulated run: a whole history (schedule, faults, operations) drawn from one seed derived from (VERIF_SEED, property, run index) and executed on the real code with its oracle checked after every step; non-trivial = at least two steps, at least one injected fault or scheduling event that fired, and at least one oracle check; distinct = different event-log hash",
            "samples": samples,
            "oracle_checks": st.checks,
            "steps": st.steps,
            "distinct_states": states.len(),
            "distinct_states_measure": "hash of the reference model state after each step (capped at 400000 per worker)",
            "runs_per_hour": if search_s > 0.0 { (st.runs as f64 / search_s * 3600.0) as u64 } else { 0 },
            "seeds_per_hour": if search_s > 0.0 { (st.runs as f64 / search_s * 3600.0) as u64 } else { 0 },
            "simulated_time_s": st.sim_us as f64 / 1e6,
            "faults_injected": fault_total,
            "faults_by_kind": st.faults,
            "rare_conditions_hit": st.probes,
            "worlds": worlds,
            "components_real": real,
            "components_stub": stub,
            "builds": if rruns > 0 { json!(["checked (optimised, debug assertions, overflow checks, unchecked-access preconditions)", "release"]) } else { json!(["checked"]) },
            "seen_of_other_properties": st.soft.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
            "runs_stopped_by_other_properties": st.foreign.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
            "known_findings_hit": st.known,
            "planned_runs": runs + rruns,
        },
        "assumptions": ["sampling, not enumeration: a clean batch is evidence, not proof", "the reference models in sim/src/model are right", "x86_64, this toolchain"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if viol_line.is_some() { 1 } else { 0 },
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_string_pretty(&ev).unwrap()).unwrap_or_else(|e| die(&format!("cannot write evidence: {}", e)));
    println!("runs={} distinct={} states={} checks={} faults={} sim_time={:.0}s search={:.1}s total={:.1}s slowest_run={}ms", st.runs, logs.len(), states.len(), st.checks, fault_total, st.sim_us as f64 / 1e6, search_s, t0.elapsed().as_secs_f64(), st.slowest.0);
    if let Some(l) = viol_line { println!("{}", l); std::process::exit(1); }
    if !problem.is_empty() { die(&problem); }
    if st.runs == 0 || logs.is_empty() { die("nothing was explored"); }
}

fn report(prop: &str, tier: Tier, seed: u64, idx: u64, prof: &str, v: &Violation, start: u64, stride: u64) -> PathBuf {
    let exe = exe_of(prof);
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-s{}-r{}.json", prop, seed, idx));
    let mut t = dispatch!(world_of(prop, idx), trace_world, seed, prop, idx, tier);
    t.profile = prof.into();
    let n0 = t.steps.len();
    let mut s = Server::new(&exe);
    let hang = v.class.starts_with("hang");
    let alone = s.run(&t, false).and_then(|r| r.viol).filter(|w| w.class == v.class);
    let history = || json!({
        "format": 1, "kind": "history", "property": prop, "profile": prof, "seed": seed, "run": idx,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "start": start, "stride": stride, "violation": v,
        "note": "the violation needs the runs made before it by the same process",
    });
    let val = match alone {
        None => history(),
        Some(_) => {
            let (m, mv, tries) = minimise(&mut s, t, v, Duration::from_secs(if hang { 60 } else { 40 }));
            // a fresh process must fail the same way
            let mut f = Server::new(&exe);
            let r = f.run(&m, true);
            match r {
                Some(r) if r.viol.as_ref().map_or(false, |w| w.class == mv.class) => {
                    println!("minimised from {} to {} steps ({} executions); {}", n0, m.steps.len(), tries, mv.detail);
                    json!({
                        "format": 1, "kind": "trace", "property": prop, "profile": prof, "seed": seed, "run": idx, "run_seed": run_seed(seed, prop, idx).to_string(),
                        "world": m.world, "cfg": m.cfg, "steps": m.steps, "violation": r.viol, "event_log": r.text, "event_log_hash": format!("{:016x}", r.log),
                        "faults": r.faults, "steps_before_minimisation": n0,
                    })
                }
                _ => history(),
            }
        }
    };
    std::fs::write(&path, serde_json::to_string_pretty(&val).unwrap()).unwrap_or_else(|e| die(&format!("cannot write {:?}: {}", path, e)));
    path
}

fn replay(a: &[String]) {
    let s = std::fs::read_to_string(&a[0]).unwrap_or_else(|e| die(&format!("{}: {}", a[0], e)));
    let v: Value = serde_json::from_str(&s).unwrap_or_else(|e| die(&format!("{}: {}", a[0], e)));
    let prop = v["property"].as_str().unwrap().to_string();
    let prof = v["profile"].as_str().unwrap_or("checked").to_string();
    let exe = exe_of(&prof);
    let class = v["violation"]["class"].as_str().unwrap_or("").to_string();
    if v["kind"] == "history" {
        let g = |k: &str| v[k].as_u64().unwrap();
        let out = Command::new(&exe).args(["worker", &prop, v["tier"].as_str().unwrap(), &g("seed").to_string(), &g("start").to_string(), &g("stride").to_string(), &(g("run") + 1).to_string(), "100000"])
            .output().unwrap_or_else(|e| die(&e.to_string()));
        let out = String::from_utf8_lossy(&out.stdout).to_string();
        for l in out.lines() {
            if l.starts_with("V ") || l.starts_with("X ") { println!("{}", l); println!("VIOLATION property={} replay={}", prop, a[0]); std::process::exit(1); }
        }
        println!("not reproduced");
        return;
    }
    let t = Trace {
        world: v["world"].as_str().unwrap().into(), property: prop.clone(), profile: prof, seed: v["seed"].as_u64().unwrap(), run: v["run"].as_u64().unwrap(),
        cfg: v["cfg"].clone(), steps: v["steps"].as_array().unwrap().clone(),
    };
    let r = Server::new(&exe).run(&t, true).unwrap_or_else(|| die("the replay did not run"));
    for l in &r.text { println!("{}", l); }
    match r.viol {
        Some(w) => {
            println!("{}: {}", w.class, w.detail);
            let same = w.class == class && v["event_log_hash"].as_str().map_or(true, |h| h == format!("{:016x}", r.log));
            println!("{}", if same { "reproduced exactly" } else { "reproduced differently" });
            println!("VIOLATION property={} replay={}", prop, a[0]);
            std::process::exit(1);
        }
        None => println!("not reproduced{}", r.foreign.map(|f| format!(" (another property is violated: {:?} {})", f.props, f.detail)).unwrap_or_default()),
    }
}

static STOP: AtomicBool = AtomicBool::new(false);

pub fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let rest = if a.is_empty() { vec![] } else { a[1..].to_vec() };
    let _ = STOP.load(SeqCst);
    match a.first().map(|s| s.as_str()) {
        Some("check") => check(&rest),
        Some("worker") => worker(&rest),
        Some("exec") => exec_server(),
        Some("replay") => replay(&rest),
        // logs PROP TIER SEED START STRIDE END: event log hash of each run (determinism)
        Some("logs") => {
            child_setup();
            let (seed, start, stride, end) = (num(&rest[2]), num(&rest[3]), num(&rest[4]), num(&rest[5]));
            let mut i = start;
            while i < end {
                let mut ctx = Ctx::new(None);
                let d = run_one(seed, &rest[0], i, tier_of(&rest[1]), &mut ctx);
                println!("{} {:016x} {} {:?}", i, d.log, d.steps, ctx.viol);
                i += stride;
            }
        }
        // show PROP TIER SEED RUN: one run written out
        Some("show") => {
            install_panic_hook();
            let (seed, run) = (num(&rest[2]), num(&rest[3]));
            let t = dispatch!(world_of(&rest[0], run), trace_world, seed, &rest[0], run, tier_of(&rest[1]));
            println!("cfg {}", t.cfg);
            for (i, s) in t.steps.iter().enumerate() { println!("{:>4} {}", i, s); }
            let r = exec_trace(&t, true);
            for l in &r.text { println!("{}", l); }
            println!("viol {:?} foreign {:?}", r.viol, r.foreign);
        }
        _ => die("usage: chronosim check PROP [--tier T] [--seed N] | replay FILE | logs ... | show ..."),
    }
}
