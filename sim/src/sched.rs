//! The simulator: a seeded scheduler that decides which node runs, a discrete-event clock, message
//! delivery, locks, and the log of everything that happened.
//!
//! A node is a real thread, but exactly one runs at any time: it holds the baton, and gives it up
//! only at a scheduling point (an explicit one, an allocation inside library code, a futex wait).
//! Which node gets the baton is decided by the run's random number generator, or, when replaying,
//! by the recorded list of switches. A switch is recorded as (step, node), where steps count
//! scheduling points; between switches the running node goes on.

use crate::alloc::{host, IN_SUT};
use crate::rng::Rng;
use crate::sys;
use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};

pub const MAX_NODES: usize = 32;
pub const STEP_CAP: u64 = 40_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Wait {
    Timer(u64),
    Mail(u64),
    Lock(usize),
    Futex(usize),
    Cond(u64),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Run,
    Blocked(Wait),
    Done,
    Dead,
}

pub type Msg = Box<dyn Any + Send>;

enum Ev {
    Wake(usize, u64),
    Deliver(usize, Msg),
}

#[derive(Default)]
struct LockState {
    readers: u32,
    writer: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

pub struct Sim {
    rng: Rng,
    trace: Option<Vec<(u64, u8)>>,
    trace_pos: usize,
    pub switches: Vec<(u64, u8)>,
    nodes: Vec<Status>,
    mail: Vec<VecDeque<Msg>>,
    locks: Vec<LockState>,
    events: BTreeMap<(u64, u64), Ev>,
    ev_seq: u64,
    token: u64,
    p_switch: f64,
    statics: u64,
    alloc_mean: f64,
    pub log_hash: u64,
    pub log_lines: Option<Vec<String>>,
    pub stats: BTreeMap<&'static str, u64>,
    pub states: BTreeSet<u64>,
    pub violation: Option<Violation>,
    pub harness_error: Option<String>,
}

struct Global(UnsafeCell<Option<Sim>>);
// Only the thread that holds the baton touches it.
unsafe impl Sync for Global {}
static SIM: Global = Global(UnsafeCell::new(None));

static STEP_HERE: AtomicU64 = AtomicU64::new(0);
/// Where the steps of this process are counted: in memory the parent sees, if it set that up.
static STEP_AT: std::sync::atomic::AtomicPtr<AtomicU64> = std::sync::atomic::AtomicPtr::new(&STEP_HERE as *const AtomicU64 as *mut AtomicU64);

#[allow(non_snake_case)]
fn STEP() -> &'static AtomicU64 {
    unsafe { &*STEP_AT.load(Ordering::Relaxed) }
}

/// Count steps at this address from now on.
pub fn count_steps_at(at: *mut AtomicU64) {
    STEP_AT.store(at, Ordering::Relaxed);
}
static NEXT: AtomicU64 = AtomicU64::new(u64::MAX);
static NOW: AtomicU64 = AtomicU64::new(0);
static FINISHED: AtomicU32 = AtomicU32::new(0);
static STOPPING: AtomicBool = AtomicBool::new(false);
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU32 = AtomicU32::new(0);
static GO: [AtomicU32; MAX_NODES] = [ZERO; MAX_NODES];

thread_local! {
    static NODE: Cell<u32> = const { Cell::new(u32::MAX) };
    static HASHES: Cell<u64> = const { Cell::new(0) };
    static HASH_ID: Cell<u64> = const { Cell::new(u64::MAX) };
}

#[allow(clippy::mut_from_ref)]
pub fn sim() -> &'static mut Sim {
    unsafe { (*SIM.0.get()).as_mut().expect("no simulation") }
}

pub fn node_id() -> usize {
    NODE.with(|n| n.get()) as usize
}
pub fn in_node() -> bool {
    NODE.with(|n| n.get()) != u32::MAX
}
pub fn node_hash_call() -> Option<(u64, u64)> {
    if !in_node() {
        return None;
    }
    let call = HASHES.with(|h| {
        h.set(h.get() + 1);
        h.get()
    });
    Some((HASH_ID.with(|h| h.get()), call))
}
pub fn sim_clock_ns() -> u64 {
    NOW.load(Ordering::Relaxed) + STEP().load(Ordering::Relaxed) * 50
}
pub fn step() -> u64 {
    STEP().load(Ordering::Relaxed)
}
pub fn now() -> u64 {
    NOW.load(Ordering::Relaxed)
}

#[derive(Clone, Debug)]
pub struct Setup {
    pub seed: u64,
    pub trace: Option<Vec<(u64, u8)>>,
    /// probability of a switch at an explicit scheduling point
    pub p_switch: f64,
    /// mean number of library allocations between preemptions; 0 switches them off
    pub alloc_mean: f64,
    pub verbose: bool,
}

pub fn init(s: Setup) {
    let rng = Rng::derive(s.seed, "schedule");
    let mut sim = Sim {
        rng,
        trace: s.trace,
        trace_pos: 0,
        switches: Vec::new(),
        nodes: Vec::new(),
        mail: Vec::new(),
        locks: Vec::new(),
        events: BTreeMap::new(),
        ev_seq: 0,
        token: 0,
        p_switch: s.p_switch,
        statics: 0,
        alloc_mean: s.alloc_mean,
        log_hash: 0xcbf2_9ce4_8422_2325,
        log_lines: if s.verbose { Some(Vec::new()) } else { None },
        stats: BTreeMap::new(),
        states: BTreeSet::new(),
        violation: None,
        harness_error: None,
    };
    sim.plan_next();
    unsafe { *SIM.0.get() = Some(sim) };
}

/// From here on the simulator answers clocks, futexes and scheduling.
pub fn go_live() {
    seam::install(static_point);
    sys::SIM_ON.store(true, Ordering::SeqCst);
}

impl Sim {
    /// Decide the step of the next preemption.
    fn plan_next(&mut self) {
        let now = STEP().load(Ordering::Relaxed);
        let next = match &self.trace {
            Some(t) => {
                while self.trace_pos < t.len() && t[self.trace_pos].0 <= now {
                    self.trace_pos += 1;
                }
                t.get(self.trace_pos).map_or(u64::MAX, |x| x.0)
            }
            None if self.alloc_mean > 0.0 => now + self.rng.geometric(self.alloc_mean),
            None => u64::MAX,
        };
        NEXT.store(next, Ordering::Relaxed);
    }

    fn runnable(&self, except: Option<usize>) -> Vec<usize> {
        (0..self.nodes.len())
            .filter(|&i| self.nodes[i] == Status::Run && Some(i) != except)
            .collect()
    }

    fn due_events(&mut self) {
        while let Some((&(at, seq), _)) = self.events.iter().next() {
            if at > NOW.load(Ordering::Relaxed) {
                break;
            }
            let ev = self.events.remove(&(at, seq)).unwrap();
            match ev {
                Ev::Wake(n, tok) => {
                    if let Status::Blocked(Wait::Timer(t) | Wait::Mail(t)) = self.nodes[n] {
                        if t == tok {
                            self.nodes[n] = Status::Run;
                        }
                    }
                }
                Ev::Deliver(n, m) => {
                    if matches!(self.nodes[n], Status::Dead | Status::Done) {
                        count("net_to_dead_node");
                        continue;
                    }
                    self.mail[n].push_back(m);
                    if let Status::Blocked(Wait::Mail(_)) = self.nodes[n] {
                        self.nodes[n] = Status::Run;
                    }
                }
            }
        }
    }

    fn push_event(&mut self, at: u64, ev: Ev) {
        self.ev_seq += 1;
        self.events.insert((at, self.ev_seq), ev);
    }

    /// The switch recorded for this step, if replaying.
    fn traced(&mut self, step: u64) -> Option<Option<usize>> {
        let t = self.trace.as_ref()?;
        while self.trace_pos < t.len() && t[self.trace_pos].0 < step {
            self.trace_pos += 1;
        }
        match t.get(self.trace_pos) {
            Some(&(s, n)) if s == step => Some(Some(n as usize)),
            _ => Some(None),
        }
    }

    /// Choose who runs next when the current node goes on being runnable.
    fn choose_voluntary(&mut self, me: usize, step: u64) -> usize {
        let others = self.runnable(Some(me));
        let target = match self.traced(step) {
            Some(Some(n)) if others.contains(&n) => n,
            Some(_) => me,
            None if others.is_empty() => me,
            None => others[self.rng.usize(others.len())],
        };
        if target != me {
            self.switches.push((step, target as u8));
        }
        self.plan_next();
        target
    }

    /// Choose who runs next when the current node cannot. `None`: nobody, ever.
    fn choose_forced(&mut self) -> Option<usize> {
        // its own step, so that it cannot coincide with a voluntary switch
        let step = STEP().fetch_add(1, Ordering::Relaxed) + 1;
        loop {
            self.due_events();
            let run = self.runnable(None);
            if !run.is_empty() {
                let target = match self.traced(step) {
                    Some(Some(n)) if run.contains(&n) => n,
                    Some(_) => run[0],
                    None => run[self.rng.usize(run.len())],
                };
                self.switches.push((step, target as u8));
                self.plan_next();
                return Some(target);
            }
            let at = self.events.iter().next()?.0 .0;
            NOW.store(at, Ordering::Relaxed);
        }
    }
}

fn hand_over(me: usize, to: usize) {
    if me == to {
        return;
    }
    GO[to].store(1, Ordering::SeqCst);
    sys::futex_wake(&GO[to]);
    wait_go(me);
}

fn wait_go(me: usize) {
    while GO[me].swap(0, Ordering::SeqCst) == 0 {
        sys::futex_wait(&GO[me], 0);
    }
}

fn park_forever() -> ! {
    static NEVER: AtomicU32 = AtomicU32::new(0);
    loop {
        sys::futex_wait(&NEVER, 0);
    }
}

/// End the run: the controller takes over.
fn finish() -> ! {
    STOPPING.store(true, Ordering::SeqCst);
    FINISHED.store(1, Ordering::SeqCst);
    sys::futex_wake(&FINISHED);
    park_forever()
}

/// Give up the baton; returns when this node has it again.
fn yield_blocked(me: usize) {
    match sim().choose_forced() {
        Some(n) => hand_over(me, n),
        None => dead_end(),
    }
}

fn dead_end() -> ! {
    let s = sim();
    let stuck: Vec<String> = s
        .nodes
        .iter()
        .enumerate()
        .filter(|(_, st)| matches!(st, Status::Blocked(_)))
        .map(|(i, st)| format!("node {} waits {:?}", i, st))
        .collect();
    if !stuck.is_empty() && s.violation.is_none() {
        s.violation = Some(Violation { class: "deadlock".into(), detail: stuck.join("; ") });
    }
    finish()
}

/// Steps of the whole run at the last explicit point, and the number of these.
static LAST_POINT: AtomicU64 = AtomicU64::new(0);
static POINTS: AtomicU64 = AtomicU64::new(0);

fn check_cap(explicit: bool) {
    let s = STEP().load(Ordering::Relaxed);
    let (what, n) = if explicit {
        LAST_POINT.store(s, Ordering::Relaxed);
        ("calls into the environment", POINTS.fetch_add(1, Ordering::Relaxed) + 1)
    } else {
        ("allocations since the last call into the environment", s - LAST_POINT.load(Ordering::Relaxed))
    };
    if n > STEP_CAP {
        fail("no-progress", format!("no end after {} {}", STEP_CAP, what));
    }
}

/// Called by the allocator for every allocation of library code.
pub fn alloc_point() {
    if !in_node() || STOPPING.load(Ordering::Relaxed) {
        return;
    }
    let s = STEP().fetch_add(1, Ordering::Relaxed) + 1;
    if s % 0x10000 == 0 {
        host(|| check_cap(false));
    }
    if s >= NEXT.load(Ordering::Relaxed) {
        host(|| {
            let me = node_id();
            let to = sim().choose_voluntary(me, s);
            if to != me {
                count("preemptions_in_library");
            }
            hand_over(me, to);
        });
    }
}

/// Library code is about to read or write a static variable.
fn static_point() {
    if IN_SUT.with(|c| c.get()) == 0 {
        return;
    }
    host(|| {
        if !in_node() || STOPPING.load(Ordering::Relaxed) {
            return;
        }
        let s = STEP().fetch_add(1, Ordering::Relaxed) + 1;
        if s % 0x10000 == 0 {
            check_cap(false);
        }
        count("accesses_to_statics");
        let me = node_id();
        let sim = sim();
        let want = if sim.trace.is_some() {
            s >= NEXT.load(Ordering::Relaxed)
        } else {
            // often at first, then more rarely: some code does nothing else
            sim.statics += 1;
            let p = sim.p_switch * (200.0 / sim.statics as f64).min(1.0);
            sim.rng.chance(p) || s >= NEXT.load(Ordering::Relaxed)
        };
        if want {
            let to = sim.choose_voluntary(me, s);
            if to != me {
                count("preemptions_at_statics");
                count("preemptions_in_library");
            }
            hand_over(me, to);
        }
    })
}

/// An explicit scheduling point of a node (callback, I/O, between operations).
pub fn point() {
    if !in_node() {
        return;
    }
    host(|| {
        check_cap(true);
        let me = node_id();
        let s = STEP().fetch_add(1, Ordering::Relaxed) + 1;
        NOW.fetch_add(1000, Ordering::Relaxed);
        let sim = sim();
        sim.due_events();
        let want = if sim.trace.is_some() {
            s >= NEXT.load(Ordering::Relaxed)
        } else {
            // one draw per point, whatever the rest decides
            let p = sim.p_switch;
            sim.rng.chance(p) || s >= NEXT.load(Ordering::Relaxed)
        };
        if want {
            let to = sim.choose_voluntary(me, s);
            hand_over(me, to);
        }
    })
}

fn block(w: Wait) {
    let me = node_id();
    sim().nodes[me] = Status::Blocked(w);
    yield_blocked(me);
}

fn new_token() -> u64 {
    let s = sim();
    s.token += 1;
    s.token
}

pub fn sleep(ns: u64) {
    host(|| {
        let t = new_token();
        let at = now() + ns.max(1);
        sim().push_event(at, Ev::Wake(node_id(), t));
        block(Wait::Timer(t));
    })
}

pub fn send(to: usize, m: Msg, delay: u64) {
    let at = now() + delay.max(1);
    sim().push_event(at, Ev::Deliver(to, m));
}

/// Receive the next message, or `None` after the timeout.
pub fn recv(timeout: Option<u64>) -> Option<Msg> {
    host(|| {
        let me = node_id();
        sim().due_events();
        if sim().mail[me].is_empty() {
            let t = new_token();
            if let Some(d) = timeout {
                let at = now() + d.max(1);
                sim().push_event(at, Ev::Wake(me, t));
            }
            block(Wait::Mail(t));
        }
        sim().mail[me].pop_front()
    })
}

pub fn new_lock() -> usize {
    sim().locks.push(LockState::default());
    sim().locks.len() - 1
}

pub fn lock(id: usize, write: bool) {
    host(|| {
        point();
        loop {
            let l = &mut sim().locks[id];
            if write && !l.writer && l.readers == 0 {
                l.writer = true;
                return;
            }
            if !write && !l.writer {
                l.readers += 1;
                return;
            }
            count("lock_contended");
            block(Wait::Lock(id));
        }
    })
}

pub fn unlock(id: usize, write: bool) {
    host(|| {
        let s = sim();
        if write {
            s.locks[id].writer = false;
        } else {
            s.locks[id].readers -= 1;
        }
        for st in s.nodes.iter_mut() {
            if *st == Status::Blocked(Wait::Lock(id)) {
                *st = Status::Run;
            }
        }
        point();
    })
}

/// Wait until another node calls `notify` with the same key.
pub fn wait_on(key: u64) {
    host(|| block(Wait::Cond(key)))
}
pub fn notify(key: u64) {
    for st in sim().nodes.iter_mut() {
        if *st == Status::Blocked(Wait::Cond(key)) {
            *st = Status::Run;
        }
    }
}

pub fn futex_block(addr: usize) {
    host(|| {
        count("library_or_std_lock_waits");
        block(Wait::Futex(addr));
    })
}
pub fn futex_unblock(addr: usize, n: u32) -> u32 {
    let mut woken = 0;
    for st in sim().nodes.iter_mut() {
        if woken < n && *st == Status::Blocked(Wait::Futex(addr)) {
            *st = Status::Run;
            woken += 1;
        }
    }
    woken
}

/// What a thread does while it unwinds from a panic.
struct LastAct<F: FnOnce()>(Option<F>);

impl<F: FnOnce()> Drop for LastAct<F> {
    fn drop(&mut self) {
        if let Some(f) = self.0.take() {
            f()
        }
    }
}

/// Start a node. Its hash seeds are those of `hash_id`.
pub fn spawn(hash_id: u64, f: impl FnOnce() + Send + 'static) -> usize {
    host(|| {
        let s = sim();
        let id = s.nodes.len();
        assert!(id < MAX_NODES, "too many nodes");
        s.nodes.push(Status::Run);
        s.mail.push(VecDeque::new());
        // Starting the thread is not part of the simulation: wait until it is parked.
        static READY: AtomicU32 = AtomicU32::new(0);
        READY.store(0, Ordering::SeqCst);
        // threads of real programs have all kinds of names, and none
        let kind = crate::rng::mix(sys::HASH_SEED.load(Ordering::Relaxed) ^ (id as u64 + 1));
        // and some of their work is done by destructors while a panic unwinds
        let unwinding = (kind >> 8) % 12 == 0;
        let b = match kind % 8 {
            0 => std::thread::Builder::new().name("main".into()),
            1 => std::thread::Builder::new().name(String::new()),
            2 | 3 => std::thread::Builder::new().name(format!("builder-{}", id)),
            4 => std::thread::Builder::new().name("tokio-runtime-worker".into()),
            _ => std::thread::Builder::new(),
        };
        b.stack_size(4 << 20)
            .spawn(move || {
                NODE.with(|n| n.set(id as u32));
                HASH_ID.with(|h| h.set(hash_id));
                READY.store(1, Ordering::SeqCst);
                sys::futex_wake(&READY);
                wait_go(id);
                let body = move || -> () {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                    if r.is_err() {
                        let m = crate::take_panic();
                        sim().harness_error = Some(format!("panic in node {}: {}", id, m));
                        finish();
                    }
                    sim().nodes[id] = Status::Done;
                    match sim().choose_forced() {
                        Some(n) => hand_over(id, n),
                        None => dead_end(),
                    }
                    park_forever()
                };
                if unwinding {
                    count("nodes_run_while_unwinding");
                    let _last_act = LastAct(Some(body));
                    std::panic::resume_unwind(Box::new(()));
                }
                body()
            })
            .expect("thread");
        while READY.load(Ordering::SeqCst) == 0 {
            sys::futex_wait(&READY, 0);
        }
        id
    })
}

/// Run all nodes to their end (or to the first violation).
pub fn run() {
    if let Some(n) = sim().choose_forced() {
        GO[n].store(1, Ordering::SeqCst);
        sys::futex_wake(&GO[n]);
        while FINISHED.load(Ordering::SeqCst) == 0 {
            sys::futex_wait(&FINISHED, 0);
        }
    }
}

/// The current node stops existing here and now: it never runs again and nothing is cleaned up.
pub fn die() -> ! {
    host(|| {
        let me = node_id();
        sim().nodes[me] = Status::Dead;
        sim().mail[me].clear();
        match sim().choose_forced() {
            Some(n) => hand_over(me, n),
            None => dead_end(),
        }
    });
    park_forever()
}

pub fn is_gone(n: usize) -> bool {
    matches!(sim().nodes[n], Status::Dead | Status::Done)
}

/// Report a violation and end the run.
pub fn fail(class: &str, detail: String) -> ! {
    host(|| {
        let s = sim();
        if s.violation.is_none() {
            s.violation = Some(Violation { class: class.into(), detail });
        }
    });
    if in_node() {
        finish()
    } else {
        // the controller itself found it
        panic!("__violation__")
    }
}

pub fn harness_error(detail: String) -> ! {
    host(|| sim().harness_error = Some(detail));
    if in_node() {
        finish()
    } else {
        panic!("__harness_error__")
    }
}

pub fn count(key: &'static str) {
    add(key, 1)
}
pub fn add(key: &'static str, n: u64) {
    host(|| *sim().stats.entry(key).or_insert(0) += n)
}

pub fn log(args: fmt::Arguments) {
    host(|| {
        let s = sim();
        let line = format!("[{} t={}us n{}] {}", step(), now() / 1000, node_id() as i32, args);
        let mut h = s.log_hash;
        for b in line.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        s.log_hash = (h ^ 0xff).wrapping_mul(0x0000_0100_0000_01b3);
        if let Some(l) = &mut s.log_lines {
            l.push(line);
        }
    })
}

#[macro_export]
macro_rules! slog {
    ($($t:tt)*) => { $crate::sched::log(format_args!($($t)*)) };
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &b in bytes {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    crate::rng::mix(h)
}

/// Remember that this state was reached (bounded).
pub fn state(h: u64) {
    host(|| {
        let s = sim();
        if s.states.len() < 64 {
            s.states.insert(h);
        }
    })
}
