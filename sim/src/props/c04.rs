//! C04: the written index is byte-for-byte reproducible.

use super::*;
use crate::alloc::sut;
use crate::disk::{FaultyWriter, IoEvent};
use crate::drive::*;
use crate::harness;
use crate::sched;
use crate::serfault::Rec;
use serde::Serialize as _;
use serde_derive::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Replica {
    start_us: u64,
    /// what this thread does with the library before and between: 0 nothing, 1 build others, 2 churn memory
    noise: u64,
    /// saves on the way, after which operation
    saves: Vec<usize>,
    chunk: u64,
    io: Vec<IoEvent>,
    hash_id: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Body {
    spec: IndexSpec,
    ops: Vec<DocOp>,
    replicas: Vec<Replica>,
    other_seed: u64,
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        gen,
        exec,
        runs: (9000, 200_000),
        rule: "a case is one history of adds (failures included) carried out by 1-3 replicas with their own hash seeds, thread, starting time, preceding work, saves on the way and writer behaviour, and by a process of its own; non-trivial when a fault fired or nodes were switched inside the library, and its event log differs from every other run's",
        real: REAL,
        stubs: &["writers (short, interrupted, slow)", "document source, iterator, items and field tokenizers (plan)"],
        assumptions: &["addresses differ between replicas because they run on different threads with different preceding allocations; address space randomisation itself is off so that runs repeat"],
        warm: nothing,
    }
}

fn gen(rng: &mut Rng, _run: u64) -> Value {
    let lang = super::c02::pick_lang(rng);
    let spec = gen_spec(rng, &lang, 10);
    let n = *rng.pick(&[3, 10, 30]);
    let mut pool = vocab::pool(rng, &lang, n);
    let crowd = crowd(rng);
    if crowd.is_some() {
        crowd_pool(rng, &mut pool);
    }
    let docs = if let Some(n) = crowd { n } else if rng.chance(0.05) { 60 } else { 1 + rng.usize(9) };
    let mut ops = Vec::new();
    for i in 0..docs {
        let k = if rng.chance(0.15) { rng.usize(docs) } else { i };
        let r = vocab::doc_ref(rng, k);
        let values = gen_values(rng, &spec, &r, &pool, if crowd.is_some() { 3 } else { 10 });
        let mut op = DocOp { r, values, fault: None };
        if rng.chance(0.15) {
            op.fault = Some(gen_fault(rng, &spec, &op, "panic"));
        }
        ops.push(op);
    }
    stretch(rng, &spec, ops.iter_mut().collect(), &pool, 700);
    let replicas = (0..1 + rng.usize(3))
        .map(|i| Replica {
            start_us: *rng.pick(&[0, 0, 10, 100_000, 5_000_000]),
            noise: rng.below(3),
            saves: (0..rng.below(4)).map(|_| rng.usize(docs)).collect(),
            chunk: *rng.pick(&[0, 1, 3, 50, 4096]),
            io: crate::disk::gen_events(rng, 2000, &["intr", "short", "stall"], 4),
            hash_id: 1000 + i as u64 * 17 + rng.below(1000),
        })
        .collect();
    serde_json::to_value(Body { spec, ops, replicas, other_seed: rng.u64() >> 12 }).unwrap()
}

#[derive(Serialize, Deserialize, Clone, PartialEq)]
struct Result {
    compact: String,
    pretty: String,
    events: Vec<String>,
}

fn write(d: &Driver) -> Result {
    let mut r = Rec::default();
    sut(|| {
        let _ = d.index.serialize(&mut r);
    });
    Result { compact: d.json(), pretty: d.json_pretty(), events: r.events }
}

fn exec(v: &Value) {
    let b: Body = harness::body(v);
    let (spec, ops, seed) = (b.spec.clone(), b.ops.clone(), b.other_seed);
    let want = harness::isolated(move || {
        crate::sys::HASH_SEED.store(seed, std::sync::atomic::Ordering::SeqCst);
        crate::sys::surroundings(seed);
        // a new thread, for new hash seeds
        std::thread::spawn(move || {
            let mut d = Driver::new(&spec);
            for op in &ops {
                d.add(op);
            }
            write(&d)
        })
        .join()
        .map_err(|_| ())
    });
    let want = match want {
        Ok(Ok(w)) => w,
        _ => {
            sched::count("reference_unavailable");
            return;
        }
    };
    sched::go_live();
    for (i, r) in b.replicas.iter().enumerate() {
        let (r, spec, ops, want) = (r.clone(), b.spec.clone(), b.ops.clone(), want.clone());
        sched::spawn(r.hash_id, move || replica(i, r, spec, ops, want));
    }
    sched::run();
    if sched::sim().stats.get("preemptions_in_library").copied().unwrap_or(0) > 0 {
        sched::count("nontrivial");
    }
}

fn first_difference(what: &str, i: usize, got: &str, want: &str) -> ! {
    let at = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| {
        let b = s.as_bytes();
        String::from_utf8_lossy(&b[at.saturating_sub(80).min(b.len())..(at + 120).min(b.len())]).into_owned()
    };
    sched::fail("not-reproducible", format!("replica {}, {}, at byte {}:\nhere:            ...{}\nanother process: ...{}", i, what, at, cut(got), cut(want)))
}

fn replica(i: usize, r: Replica, spec: IndexSpec, ops: Vec<DocOp>, want: Result) {
    if r.start_us > 0 {
        sched::sleep(r.start_us * 1000);
    }
    let mut keep: Vec<Vec<u8>> = Vec::new();
    if r.noise == 1 {
        let mut s = spec.clone();
        let n = s.fields.len();
        s.fields.reverse();
        // (what a field's own tokenizer takes apart would be one enormous word to the language's)
        s.custom = spec.custom.iter().filter(|i| **i < n).map(|i| n - 1 - i).collect();
        let mut d = Driver::new(&s);
        for op in ops.iter().rev() {
            let mut op = DocOp { fault: None, ..op.clone() };
            op.values.resize(n, String::new());
            op.values.reverse();
            d.add(&op);
        }
        let _ = d.json();
    }
    let mut d = Driver::new(&spec);
    for (k, op) in ops.iter().enumerate() {
        if r.noise == 2 {
            for n in 0..5usize {
                keep.push(vec![1; (k * 37 + n * 113) % 900]);
            }
            if k % 2 == 0 {
                keep.drain(..keep.len() / 2);
            }
        }
        let a = d.add(op);
        slog!("replica {} op {} {:?} {}", i, k, op.r, matches!(a, Added::Done));
        if r.saves.contains(&k) {
            sched::count("saves_on_the_way");
            let mut w = FaultyWriter::new(&[], 100);
            sut(|| {
                let _ = serde_json::to_writer(&mut w, &d.index);
            });
        }
    }
    let got = write(&d);
    sched::state(sched::fnv(got.compact.as_bytes()));
    slog!("replica {} wrote {} bytes {:x}", i, got.compact.len(), sched::fnv(got.compact.as_bytes()));
    if got.compact != want.compact {
        first_difference("compact", i, &got.compact, &want.compact);
    }
    if got.pretty != want.pretty {
        first_difference("pretty", i, &got.pretty, &want.pretty);
    }
    if got.events != want.events {
        first_difference("serializer calls", i, &got.events.join(" "), &want.events.join(" "));
    }
    let again = write(&d);
    if again != got {
        first_difference("second save", i, &again.compact, &got.compact);
    }
    for pretty in [false, true] {
        let mut w = FaultyWriter::new(&r.io, r.chunk as usize);
        let res = sut(|| if pretty { serde_json::to_writer_pretty(&mut w, &d.index) } else { serde_json::to_writer(&mut w, &d.index) });
        let full = if pretty { &want.pretty } else { &want.compact };
        if let Err(e) = res {
            sched::fail("recoverable-write-fault-not-recovered", e.to_string());
        }
        if w.out != full.as_bytes() {
            first_difference("through a writer", i, &String::from_utf8_lossy(&w.out), full);
        }
        sched::count("images_compared");
    }
}
