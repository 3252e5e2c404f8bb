//! Deterministic simulation of elasticlunr-rs and its surroundings. See /verif/DESIGN.md.

#[macro_use]
mod sched;

mod alloc;
mod disk;
mod drive;
mod harness;
mod net;
mod parts;
mod props;
mod serfault;
mod shared;
mod sys;

use oracle::{jsclient, json, model, rng, vocab};
use harness::{Prop, ReplayFile};
use serde_json::json;
use std::cell::RefCell;

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// The message of this thread's last panic.
pub fn take_panic() -> String {
    LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        alloc::host(|| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|l| *l.borrow_mut() = m + &at);
        })
    }));
}

fn find(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    }
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("ESIM_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into())
}

fn main() {
    sys::fix_addresses();
    hook();
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = arg(&args, "--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args, seed),
        Some("replay") => replay(args.get(2).expect("file"), args.iter().any(|a| a == "-v")),
        Some("one") => one(&args, seed),
        Some("selftest") => selftest(&args, seed),
        Some("vocab") => vocab_agreement(),
        _ => {
            eprintln!("esim check|replay|one|selftest ...");
            2
        }
    };
    std::process::exit(code);
}

fn check(args: &[String], seed: u64) -> i32 {
    let p = find(&arg(args, "--prop").expect("--prop"));
    let tier = arg(args, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let runs = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.runs.1 } else { p.runs.0 });
    let cap = arg(args, "--cap").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 700.0 } else { 120.0 });
    let workers = arg(args, "--workers")
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64));
    let t0 = sys::real_now_ns();
    // every worker starts from this state, and so does a replay
    (p.warm)();
    let s = harness::search(&p, seed, runs, workers, cap);
    let root = verif_dir();
    let mut code = 0;
    let mut violations = 0;
    let mut search_out = None;
    if let Some(e) = &s.error {
        println!("HARNESS-ERROR property={} {}", p.id, e);
        code = 2;
    }
    if let (Some((plan, o)), true) = (&s.found, code == 0) {
        violations = 1;
        let original = plan.run;
        let (small, o, tries) = harness::minimise(&p, plan.clone(), o, if thorough { 120.0 } else { 60.0 });
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-s{}-r{}.json", p.id, seed, original));
        let write = |plan: &harness::Plan, o: &harness::Outcome, note: String| {
            let f = ReplayFile {
                class: o.class.clone().unwrap_or_default(),
                detail: o.detail.clone(),
                log_hash: o.log_hash,
                log: o.log.clone(),
                original_run: original,
                note,
                plan: plan.clone(),
            };
            std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap()).expect("replay file");
            // a fresh process has to see the same thing
            let again = std::process::Command::new("/proc/self/exe").arg("replay").arg(&path).output();
            again.ok().and_then(|o| o.status.code())
        };
        let mut o = o;
        let mut seen = write(&small, &o, format!("minimised in {} simulated runs; replay with: check.sh --replay FILE", tries));
        if seen != Some(1) {
            // what made it smaller did not last: keep all of it
            o = harness::execute(&p, plan, true);
            seen = write(plan, &o, "as found: the minimised run did not repeat. Replay with: check.sh --replay FILE".into());
        }
        let class = o.class.clone().unwrap_or_default();
        println!("{}: {}", class, o.detail.lines().next().unwrap_or(""));
        for l in o.detail.lines().skip(1).take(30) {
            println!("  {}", l);
        }
        match seen {
            Some(1) => {
                println!("VIOLATION property={} replay={}", p.id, path.display());
                code = 1;
            }
            Some(3) => {
                println!("note: the replay violates the property each time, but not in the same way each time");
                println!("VIOLATION property={} replay={}", p.id, path.display());
                code = 1;
            }
            _ => {
                println!("HARNESS-ERROR property={} the replay did not reproduce: {}", p.id, path.display());
                code = 2;
            }
        }
        search_out = Some(json!({"class": class, "replay": path.display().to_string(), "minimising_runs": tries}));
    }
    let mut coverage = s.coverage;
    if let Some(f) = search_out {
        coverage["found"] = f;
    }
    let ev = json!({
        "property": p.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": coverage, "assumptions": p.assumptions, "violations": violations,
        "wall_s": (sys::real_now_ns() - t0) as f64 / 1e9,
    });
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{}: {} simulated runs in {:.1} s ({} distinct histories), exit {}",
        p.id,
        s.runs,
        s.wall_s,
        ev["coverage"]["distinct_histories"],
        code
    );
    code
}

fn replay(path: &str, verbose: bool) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let f: ReplayFile = serde_json::from_str(&text).expect("replay file");
    let p = find(&f.plan.property);
    (p.warm)();
    let o = harness::execute(&p, &f.plan, true);
    if verbose {
        for l in &o.log {
            println!("{}", l);
        }
    }
    println!("{:?}: {}", o.class, o.detail);
    if let Some(e) = &o.harness_error {
        println!("harness error: {}", e);
    }
    if o.class.as_deref() == Some(f.class.as_str()) && o.log_hash == f.log_hash && o.detail == f.detail {
        println!("VIOLATION property={} replay={} (reproduced exactly)", f.plan.property, path);
        1
    } else if o.class.is_some() {
        println!("VIOLATION property={} replay={} (another violation than recorded)", f.plan.property, path);
        3
    } else {
        println!("no violation");
        0
    }
}

fn one(args: &[String], seed: u64) -> i32 {
    let p = find(&arg(args, "--prop").expect("--prop"));
    let run = arg(args, "--run").and_then(|s| s.parse().ok()).unwrap_or(0);
    (p.warm)();
    let plan = harness::make_plan(&p, seed, run);
    println!("{}", serde_json::to_string_pretty(&plan).unwrap());
    let t0 = sys::real_now_ns();
    let o = harness::execute(&p, &plan, true);
    for l in &o.log {
        println!("{}", l);
    }
    println!("class {:?} detail {} error {:?}", o.class, o.detail, o.harness_error);
    println!("{} switches, {} steps, {} us simulated, {} us real, {:?}", o.n_switches, o.steps, o.sim_ns / 1000, (sys::real_now_ns() - t0) / 1000, o.stats);
    0
}

/// Every run twice: with the seed, and replaying the recorded schedule. Everything observable has
/// to be the same, or the simulator is not in control of something.
fn selftest(args: &[String], seed: u64) -> i32 {
    let n: u64 = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(50);
    let only = arg(args, "--prop");
    let mut bad = 0;
    for p in props::all() {
        if only.as_deref().map_or(false, |o| o != p.id) {
            continue;
        }
        (p.warm)();
        let mut same = 0;
        for run in 0..n {
            let plan = harness::make_plan(&p, seed, run);
            let a = harness::execute(&p, &plan, true);
            let b = harness::execute(&p, &plan, true);
            let mut q = plan.clone();
            q.sched.switches = Some(a.switches.clone());
            let c = harness::execute(&p, &q, true);
            let key = |o: &harness::Outcome| (o.log_hash, o.switch_hash, o.steps, o.sim_ns, o.allocs, o.class.clone(), o.detail.clone(), o.harness_error.clone());
            if key(&a) == key(&b) && key(&a) == key(&c) {
                same += 1;
            } else {
                bad += 1;
                println!("{} run {}: not repeatable", p.id, run);
                for (x, y) in [(&a, &b), (&a, &c)] {
                    println!("  {:?}\n  {:?}", key(x), key(y));
                    if let Some(i) = x.log.iter().zip(&y.log).position(|(s, t)| s != t) {
                        println!("  first difference:\n    {}\n    {}", x.log[i], y.log[i]);
                    }
                }
            }
        }
        println!("{}: {}/{} runs repeat exactly, by seed and by recorded schedule", p.id, same, n);
    }
    if bad > 0 {
        1
    } else {
        0
    }
}

/// Maintenance: the words of the vocabulary on which the library and the reference client agree go
/// to stdout, the others to stderr. (`data/en_vocab.txt` holds the former.)
fn vocab_agreement() -> i32 {
    use elasticlunr::lang::{English, Language};
    let l = English::new();
    let p = l.make_pipeline();
    for w in vocab::words("vocab") {
        let a = p.run(l.tokenize(w));
        let b = jsclient::english(w);
        if a == b {
            println!("{}", w);
        } else {
            eprintln!("{} library {:?} client {:?}", w, a, b);
        }
    }
    0
}
