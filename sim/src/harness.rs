//! Running plans: one forked process per simulated run, worker processes, the search for
//! violations, minimising, replay files and evidence.

use crate::rng::{mix, Rng};
use crate::{sched, sys};
use serde_derive::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SchedSpec {
    pub seed: u64,
    pub p_switch: f64,
    pub alloc_mean: f64,
    pub hash_seed: u64,
    pub skew_ns: u64,
    pub poison: u8,
    pub switches: Option<Vec<(u64, u8)>>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub body: Value,
    pub sched: SchedSpec,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Outcome {
    pub class: Option<String>,
    pub detail: String,
    pub harness_error: Option<String>,
    pub log_hash: u64,
    pub switch_hash: u64,
    pub n_switches: u64,
    pub switches: Vec<(u64, u8)>,
    pub steps: u64,
    pub sim_ns: u64,
    pub allocs: u64,
    pub states: Vec<u64>,
    pub stats: BTreeMap<String, u64>,
    pub clock_reads: u64,
    pub hash_calls: u64,
    pub log: Vec<String>,
}

impl Outcome {
    pub fn is_bad(&self) -> bool {
        self.class.is_some() || self.harness_error.is_some()
    }
}

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, u64) -> Value,
    pub exec: fn(&Value),
    /// runs in the quick and thorough tier
    pub runs: (u64, u64),
    /// whether the run is scheduled (more than one node), so that schedules are worth varying
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Called once in each worker before it forks runs.
    pub warm: fn(),
}

pub fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    let mut h = mix(seed ^ 0x5151);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(run))
}

pub fn make_plan(p: &Prop, seed: u64, run: u64) -> Plan {
    let s = run_seed(seed, p.id, run);
    let body = (p.gen)(&mut Rng::derive(s, "body"), run);
    let mut r = Rng::derive(s, "sched");
    let sched = SchedSpec {
        seed: r.u64() >> 12,
        p_switch: *r.pick(&[0.0, 0.05, 0.2, 0.5, 0.9]),
        alloc_mean: *r.pick(&[0.0, 3.0, 20.0, 100.0, 600.0, 4000.0]),
        hash_seed: r.u64() >> 12,
        skew_ns: if r.chance(0.5) { 0 } else { r.below(1 << 60) },
        poison: if r.chance(0.3) { *r.pick(&[0xA5u8, 0xFF, 0x01]) } else { 0 },
        switches: None,
    };
    Plan { property: p.id.into(), seed, run, body, sched }
}

// ------------------------------------------------------------------------------------------------
// one run, in a process of its own

pub fn bad_body(e: impl std::fmt::Display) -> ! {
    sched::harness_error(format!("bad body: {}", e))
}

/// Parse the body of a plan.
pub fn body<T: serde::de::DeserializeOwned>(v: &Value) -> T {
    match serde_json::from_value(v.clone()) {
        Ok(b) => b,
        Err(e) => bad_body(e),
    }
}

fn child_main(p: &Prop, plan: &Plan, verbose: bool, fd: i32) -> ! {
    sys::HASH_SEED.store(plan.sched.hash_seed, Ordering::SeqCst);
    sys::CLOCK_SKEW.store(plan.sched.skew_ns, Ordering::SeqCst);
    crate::alloc::POISON.store(plan.sched.poison as u64, Ordering::SeqCst);
    sys::surroundings(plan.sched.hash_seed);
    sched::init(sched::Setup {
        seed: plan.sched.seed,
        trace: plan.sched.switches.clone(),
        p_switch: plan.sched.p_switch,
        alloc_mean: plan.sched.alloc_mean,
        verbose,
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.exec)(&plan.body)));
    crate::alloc::POISON.store(0, Ordering::SeqCst);
    sys::SIM_ON.store(false, Ordering::SeqCst);
    let s = sched::sim();
    if r.is_err() && s.violation.is_none() && s.harness_error.is_none() {
        s.harness_error = Some(format!("panic in the controller: {}", crate::take_panic()));
    }
    let mut out = Outcome {
        log_hash: s.log_hash,
        switch_hash: s.switches.iter().fold(1, |h, (a, b)| mix(h ^ mix(a * 64 + *b as u64))),
        n_switches: s.switches.len() as u64,
        steps: sched::step(),
        sim_ns: sched::now(),
        allocs: crate::alloc::SUT_ALLOCS.load(Ordering::SeqCst),
        states: s.states.iter().cloned().collect(),
        stats: s.stats.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        clock_reads: sys::CLOCK_READS.load(Ordering::SeqCst),
        hash_calls: sys::HASH_CALLS.load(Ordering::SeqCst),
        harness_error: s.harness_error.take(),
        ..Default::default()
    };
    if let Some(v) = s.violation.take() {
        out.class = Some(v.class);
        out.detail = v.detail.chars().take(6000).collect();
    }
    if out.is_bad() || verbose {
        out.switches = std::mem::take(&mut s.switches);
    }
    if let Some(l) = s.log_lines.take() {
        out.log = l;
    }
    let text = serde_json::to_vec(&out).unwrap();
    write_all(fd, &text);
    unsafe { libc::_exit(0) }
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}

/// Read until end of file; an error if `quiet_ns` passed without a step of the simulation, or
/// `MAX_RUN_S` in all.
fn read_all(fd: i32, out: &mut Vec<u8>, quiet_ns: u64, steps: &std::sync::atomic::AtomicU64) -> Result<(), &'static str> {
    let mut buf = [0u8; 65536];
    let begin = sys::real_now_ns();
    let (mut since, mut last) = (begin, 0);
    loop {
        let now = sys::real_now_ns();
        let s = steps.load(std::sync::atomic::Ordering::Relaxed);
        if s != last {
            (since, last) = (now, s);
        }
        if quiet_ns < u64::MAX && now - since >= quiet_ns {
            return Err("hang");
        }
        if quiet_ns < u64::MAX && now - begin >= MAX_RUN_S * 1_000_000_000 {
            return Err("slow");
        }
        let mut pfd = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        let r = unsafe { libc::poll(&mut pfd, 1, 500) };
        if r <= 0 {
            continue;
        }
        let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len()) };
        if n <= 0 {
            return Ok(());
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
}

/// A run may be this long without a step...
pub const QUIET_S: u64 = 40;
/// ...and this long in all.
pub const MAX_RUN_S: u64 = 200;


/// Fork, run `f` with the write end of a pipe, return what it wrote and how it ended.
fn in_fork(quiet_s: u64, f: impl FnOnce(i32)) -> (Vec<u8>, Result<i32, String>) {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let page = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(page != libc::MAP_FAILED, "mmap failed");
        let steps = page as *mut std::sync::atomic::AtomicU64;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            crate::sched::count_steps_at(steps);
            libc::close(fds[0]);
            f(fds[1]);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = Vec::new();
        let done = read_all(fds[0], &mut out, quiet_s * 1_000_000_000, &*steps);
        libc::munmap(page, 4096);
        if done.is_err() {
            libc::kill(pid, libc::SIGKILL);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let how = if let Err(e) = done {
            Err(e.to_string())
        } else if libc::WIFSIGNALED(st) {
            Err(format!("signal {}", libc::WTERMSIG(st)))
        } else {
            Ok(libc::WEXITSTATUS(st))
        };
        (out, how)
    }
}

/// Run `f` in a process of its own, before the simulation starts, and return its result.
pub fn isolated<T: serde::Serialize + serde::de::DeserializeOwned>(f: impl FnOnce() -> T) -> Result<T, String> {
    let (out, how) = in_fork(QUIET_S / 2, |fd| {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let r: Result<T, String> = match r {
            Ok(x) => Ok(x),
            Err(_) => Err(format!("panic: {}", crate::take_panic())),
        };
        write_all(fd, &serde_json::to_vec(&r).unwrap());
    });
    match how {
        Ok(0) => serde_json::from_slice::<Result<T, String>>(&out).unwrap_or_else(|e| Err(format!("no result: {}", e))),
        Ok(n) => Err(format!("exit {}", n)),
        Err(e) => Err(e),
    }
}

pub fn execute(p: &Prop, plan: &Plan, verbose: bool) -> Outcome {
    let (out, how) = in_fork(QUIET_S, |fd| child_main(p, plan, verbose, fd));
    match how {
        Ok(_) => serde_json::from_slice(&out).unwrap_or_else(|e| Outcome {
            harness_error: Some(format!("run left no outcome: {}", e)),
            ..Default::default()
        }),
        // it went on and on, but it went on
        Err(e) if e == "slow" => Outcome { stats: [("runs_cut_short".to_string(), 1)].into_iter().collect(), ..Default::default() },
        Err(e) => Outcome {
            class: Some(if e == "hang" { "hang".into() } else { "abort".into() }),
            detail: format!("the process running the simulation ended by {}", e),
            ..Default::default()
        },
    }
}

// ------------------------------------------------------------------------------------------------
// workers

#[derive(Serialize, Deserialize, Default)]
struct WorkerReport {
    runs: u64,
    found: Option<(u64, Outcome)>,
    errors: Vec<(u64, String)>,
    stats: BTreeMap<String, u64>,
    runs_with: BTreeMap<String, u64>,
    logs: BTreeSet<u64>,
    schedules: BTreeSet<u64>,
    states: BTreeSet<u64>,
    nontrivial: BTreeSet<u64>,
    steps: u64,
    sim_ns: u64,
    allocs: u64,
    switches: u64,
    clock_reads: u64,
    hash_calls: u64,
    capped: bool,
}

fn shared_u64() -> &'static AtomicU64 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const AtomicU64)
    }
}

fn pin(cpu: usize) {
    unsafe {
        let mut cur: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut cur) != 0 {
            return;
        }
        let allowed: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &cur)).collect();
        if allowed.is_empty() {
            return;
        }
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(allowed[cpu % allowed.len()], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

fn limits() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        // what the code under test prints is of no interest
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if n >= 0 {
            libc::dup2(n, 1);
            libc::dup2(n, 2);
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn worker(p: &Prop, seed: u64, me: u64, n: u64, runs: u64, deadline: u64, stop_at: &AtomicU64, fd: i32) {
    pin(me as usize);
    limits();
    let mut rep = WorkerReport::default();
    let mut run = me;
    while run < runs {
        if run > stop_at.load(Ordering::SeqCst) {
            break;
        }
        if sys::real_now_ns() > deadline {
            rep.capped = true;
            break;
        }
        let plan = make_plan(p, seed, run);
        let o = execute(p, &plan, false);
        rep.runs += 1;
        for (k, v) in &o.stats {
            *rep.stats.entry(k.clone()).or_default() += v;
            *rep.runs_with.entry(k.clone()).or_default() += 1;
        }
        rep.steps += o.steps;
        rep.sim_ns += o.sim_ns;
        rep.allocs += o.allocs;
        rep.switches += o.n_switches;
        rep.clock_reads += o.clock_reads;
        rep.hash_calls += o.hash_calls;
        if rep.logs.insert(o.log_hash) && o.stats.get("nontrivial").copied().unwrap_or(0) > 0 {
            rep.nontrivial.insert(o.log_hash);
        }
        rep.schedules.insert(o.switch_hash);
        for s in &o.states {
            if rep.states.len() < 400_000 {
                rep.states.insert(*s);
            }
        }
        if let Some(e) = &o.harness_error {
            rep.errors.push((run, e.clone()));
            stop_at.fetch_min(run, Ordering::SeqCst);
            break;
        }
        if o.class.is_some() {
            stop_at.fetch_min(run, Ordering::SeqCst);
            rep.found = Some((run, o));
            break;
        }
        run += n;
    }
    write_all(fd, &serde_json::to_vec(&rep).unwrap());
}

fn spawn_worker(p: &Prop, seed: u64, me: u64, n: u64, runs: u64, deadline: u64, stop: &AtomicU64) -> (i32, i32) {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                worker(p, seed, me, n, runs, deadline, stop, fds[1])
            }));
            if r.is_err() {
                let rep = WorkerReport {
                    errors: vec![(me, format!("worker: {}", crate::take_panic()))],
                    ..Default::default()
                };
                write_all(fds[1], &serde_json::to_vec(&rep).unwrap());
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        (pid, fds[0])
    }
}

pub struct Search {
    pub runs: u64,
    pub found: Option<(Plan, Outcome)>,
    pub error: Option<String>,
    pub coverage: Value,
    pub wall_s: f64,
}

pub fn search(p: &Prop, seed: u64, runs: u64, workers: u64, cap_s: f64) -> Search {
    let t0 = sys::real_now_ns();
    let deadline = t0 + (cap_s * 1e9) as u64;
    let stop = shared_u64();
    stop.store(u64::MAX, Ordering::SeqCst);
    let kids: Vec<(i32, i32)> = (0..workers).map(|w| spawn_worker(p, seed, w, workers, runs, deadline, stop)).collect();
    let mut reps = Vec::new();
    let mut error = None;
    for (pid, fd) in kids {
        let mut out = Vec::new();
        let _ = read_all(fd, &mut out, u64::MAX, &std::sync::atomic::AtomicU64::new(0));
        unsafe {
            libc::close(fd);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
        match serde_json::from_slice::<WorkerReport>(&out) {
            Ok(r) => reps.push(r),
            Err(e) => error = Some(format!("a worker died: {}", e)),
        }
    }
    let wall = (sys::real_now_ns() - t0) as f64 / 1e9;
    let mut t = WorkerReport::default();
    let mut found: Option<(u64, Outcome)> = None;
    let mut first_error: Option<(u64, String)> = None;
    for r in reps {
        t.runs += r.runs;
        t.steps += r.steps;
        t.sim_ns += r.sim_ns;
        t.allocs += r.allocs;
        t.switches += r.switches;
        t.clock_reads += r.clock_reads;
        t.hash_calls += r.hash_calls;
        t.capped |= r.capped;
        for (k, v) in r.stats {
            *t.stats.entry(k).or_default() += v;
        }
        for (k, v) in r.runs_with {
            *t.runs_with.entry(k).or_default() += v;
        }
        t.logs.extend(r.logs);
        t.nontrivial.extend(r.nontrivial);
        t.schedules.extend(r.schedules);
        t.states.extend(r.states);
        for e in r.errors {
            if first_error.as_ref().map_or(true, |f| e.0 < f.0) {
                first_error = Some(e);
            }
        }
        if let Some(f) = r.found {
            if found.as_ref().map_or(true, |g| f.0 < g.0) {
                found = Some(f);
            }
        }
    }
    if let Some((run, e)) = first_error {
        if found.as_ref().map_or(true, |f| run < f.0) {
            error = Some(format!("run {}: {}", run, e));
        }
    }
    let mut faults = BTreeMap::new();
    let mut events = BTreeMap::new();
    for (k, v) in &t.stats {
        if let Some(f) = k.strip_prefix("fault.") {
            faults.insert(f.to_string(), json!({"injected": v, "runs": t.runs_with[k]}));
        } else if k != "nontrivial" {
            events.insert(k.clone(), *v);
        }
    }
    let mut samples = Vec::new();
    for run in 0..runs.min(2) {
        let plan = make_plan(p, seed, run);
        let o = execute(p, &plan, false);
        let text = serde_json::to_string(&plan.body).unwrap();
        samples.push(json!({
            "run": run, "schedule_seed": plan.sched.seed, "p_switch": plan.sched.p_switch,
            "mean_allocations_between_preemptions": plan.sched.alloc_mean,
            "plan": text.chars().take(1500).collect::<String>(), "plan_bytes": text.len(),
            "log_hash": format!("{:016x}", o.log_hash), "switches": o.n_switches, "steps": o.steps,
            "simulated_us": o.sim_ns / 1000, "events": o.stats,
        }));
    }
    let coverage = json!({
        "evaluations": t.runs,
        "distinct_nontrivial": t.nontrivial.len(),
        "rule": p.rule,
        "samples": samples,
        "runs_planned": runs,
        "stopped_by_time_limit": t.capped,
        "seeds_per_hour": (t.runs as f64 / wall * 3600.0).round(),
        "simulated_seconds": t.sim_ns as f64 / 1e9,
        "simulated_seconds_per_hour": (t.sim_ns as f64 / 1e9 / wall * 3600.0).round(),
        "scheduling_points": t.steps,
        "node_switches": t.switches,
        "library_allocations_under_the_scheduler": t.allocs,
        "distinct_histories": t.logs.len(),
        "distinct_interleavings": t.schedules.len(),
        "distinct_states": t.states.len(),
        "distinct_measures": "histories: hash of the run's event log; interleavings: hash of the list of (scheduling point, node switched to); states: hashes of the states of the system under test as named in DESIGN.md, at most 64 per run",
        "faults": faults,
        "events": events,
        "clock_reads_by_library_or_std": t.clock_reads,
        "hash_seed_requests": t.hash_calls,
        "real_components": p.real,
        "stub_components": p.stubs,
        "workers": workers,
    });
    let found = found.map(|(run, o)| (make_plan(p, seed, run), o));
    Search { runs: t.runs, found, error, coverage, wall_s: wall }
}

// ------------------------------------------------------------------------------------------------
// minimising

struct Mini<'a> {
    p: &'a Prop,
    class: String,
    deadline: u64,
    tries: u64,
    best: Plan,
    alt_seeds: bool,
}

impl<'a> Mini<'a> {
    fn over(&self) -> bool {
        sys::real_now_ns() > self.deadline
    }
    fn try_plan(&mut self, plan: &Plan) -> bool {
        if self.over() {
            return false;
        }
        let seeds = if self.alt_seeds { 6 } else { 1 };
        for k in 0..seeds {
            let mut q = plan.clone();
            if k > 0 {
                q.sched.seed = mix(plan.sched.seed ^ k) >> 12;
            }
            self.tries += 1;
            let o = execute(self.p, &q, false);
            if o.class.as_deref() == Some(self.class.as_str()) {
                self.best = q;
                return true;
            }
        }
        false
    }
    fn try_body(&mut self, body: Value) -> bool {
        let mut q = self.best.clone();
        q.body = body;
        self.try_plan(&q)
    }

    fn pass(&mut self) -> bool {
        let mut changed = false;
        // arrays, largest first
        let mut paths = Vec::new();
        collect(&self.best.body, &mut Vec::new(), &mut paths);
        let mut arrays: Vec<(usize, Vec<Key>)> = paths
            .iter()
            .filter_map(|p| match at(&self.best.body, p) {
                Some(Value::Array(a)) if !a.is_empty() => Some((a.len(), p.clone())),
                _ => None,
            })
            .collect();
        arrays.sort_by(|a, b| a.1.len().cmp(&b.1.len()).then(b.0.cmp(&a.0)));
        for (_, path) in arrays {
            let mut chunk = match at(&self.best.body, &path) {
                Some(Value::Array(a)) => a.len(),
                _ => continue,
            };
            while chunk >= 1 && !self.over() {
                let mut i = 0;
                loop {
                    let len = match at(&self.best.body, &path) {
                        Some(Value::Array(a)) => a.len(),
                        _ => 0,
                    };
                    if i >= len || self.over() {
                        break;
                    }
                    let mut b = self.best.body.clone();
                    if let Some(Value::Array(a)) = at_mut(&mut b, &path) {
                        a.drain(i..(i + chunk).min(len));
                    }
                    if self.try_body(b) {
                        changed = true;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        // single values
        let mut paths = Vec::new();
        collect(&self.best.body, &mut Vec::new(), &mut paths);
        for path in paths {
            if self.over() {
                break;
            }
            let Some(v) = at(&self.best.body, &path).cloned() else { continue };
            let mut cands: Vec<Value> = Vec::new();
            match &v {
                Value::Object(_) => cands.push(Value::Null),
                Value::Bool(true) => cands.push(Value::Bool(false)),
                Value::Number(n) => {
                    if let Some(u) = n.as_u64() {
                        for c in [0, 1, u / 2, u.saturating_sub(1)] {
                            if c < u && !cands.contains(&json!(c)) {
                                cands.push(json!(c));
                            }
                        }
                    } else {
                        cands.push(json!(0.0));
                    }
                }
                Value::String(s) if !s.is_empty() => {
                    let words: Vec<&str> = s.split(' ').collect();
                    if words.len() > 1 {
                        let mut n = words.len() / 2;
                        while n >= 1 {
                            let mut i = 0;
                            while i < words.len() {
                                let mut w = words.clone();
                                w.drain(i..(i + n).min(words.len()));
                                cands.push(json!(w.join(" ")));
                                i += n;
                            }
                            if words.len() > 40 {
                                break;
                            }
                            n /= 2;
                        }
                    }
                    let chars: Vec<char> = s.chars().collect();
                    if words.len() == 1 {
                        cands.push(json!(""));
                        cands.push(json!("a"));
                        if chars.len() > 1 {
                            cands.push(json!(chars[..chars.len() / 2].iter().collect::<String>()));
                            cands.push(json!(chars[1..].iter().collect::<String>()));
                            cands.push(json!(chars[..chars.len() - 1].iter().collect::<String>()));
                        }
                    }
                }
                _ => {}
            }
            for c in cands {
                if c == v {
                    continue;
                }
                let mut b = self.best.body.clone();
                if let Some(slot) = at_mut(&mut b, &path) {
                    *slot = c;
                }
                if self.try_body(b) {
                    changed = true;
                    break;
                }
            }
        }
        changed
    }
}

#[derive(Clone)]
enum Key {
    I(usize),
    K(String),
}

fn collect(v: &Value, path: &mut Vec<Key>, out: &mut Vec<Vec<Key>>) {
    out.push(path.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(Key::I(i));
                collect(x, path, out);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                path.push(Key::K(k.clone()));
                collect(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a Value, path: &[Key]) -> Option<&'a Value> {
    let mut v = v;
    for k in path {
        v = match k {
            Key::I(i) => v.get(i)?,
            Key::K(s) => v.get(s)?,
        };
    }
    Some(v)
}
fn at_mut<'a>(v: &'a mut Value, path: &[Key]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in path {
        v = match k {
            Key::I(i) => v.get_mut(i)?,
            Key::K(s) => v.get_mut(s)?,
        };
    }
    Some(v)
}

/// A smaller plan with the same kind of violation, and its outcome.
pub fn minimise(p: &Prop, plan: Plan, outcome: &Outcome, budget_s: f64) -> (Plan, Outcome, u64) {
    let class = outcome.class.clone().unwrap();
    let mut m = Mini {
        p,
        class: class.clone(),
        deadline: sys::real_now_ns() + (budget_s * 1e9) as u64,
        tries: 0,
        best: plan.clone(),
        alt_seeds: false,
    };
    if class == "hang" {
        return (plan, outcome.clone(), 0);
    }
    // without any preemption?
    let mut q = plan.clone();
    q.sched.switches = Some(vec![]);
    q.sched.poison = 0;
    q.sched.skew_ns = 0;
    let mut quiet = m.try_plan(&q);
    if !quiet {
        q.sched.poison = plan.sched.poison;
        q.sched.skew_ns = plan.sched.skew_ns;
        quiet = m.try_plan(&q);
    }
    m.alt_seeds = !quiet;
    while m.pass() && !m.over() {}
    m.alt_seeds = false;
    // fix the schedule of what is left, and thin it out
    let o = execute(p, &m.best, false);
    if o.class.as_deref() == Some(class.as_str()) && class != "abort" {
        let mut q = m.best.clone();
        q.sched.switches = Some(o.switches.clone());
        if m.try_plan(&q) {
            let mut chunk = o.switches.len().div_ceil(2);
            while chunk >= 1 && !m.over() {
                let mut i = 0;
                loop {
                    let cur = m.best.sched.switches.clone().unwrap_or_default();
                    if i >= cur.len() || m.over() {
                        break;
                    }
                    let mut c = cur.clone();
                    c.drain(i..(i + chunk).min(cur.len()));
                    let mut q = m.best.clone();
                    q.sched.switches = Some(c);
                    if !m.try_plan(&q) {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
    }
    let best = m.best.clone();
    let o = execute(p, &best, true);
    if o.class.as_deref() == Some(class.as_str()) {
        (best, o, m.tries)
    } else {
        let o = execute(p, &plan, true);
        (plan, o, m.tries)
    }
}

#[derive(Serialize, Deserialize)]
pub struct ReplayFile {
    pub plan: Plan,
    pub class: String,
    pub detail: String,
    pub log_hash: u64,
    pub log: Vec<String>,
    pub original_run: u64,
    pub note: String,
}
