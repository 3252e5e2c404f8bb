//! C14: abandoned work leaves no memory behind.
//!
//! Nodes repeat rounds of work: build indexes, stores and configurations, feed them with adds that
//! fail half-way, save to sinks and load from sources that fail, give up builders, and drop
//! everything. The allocator counts the bytes allocated by library code of each node that are still
//! live; after the first rounds they must not grow any more.

use super::c07::{gen_what, len_of, Obj, What};
use super::*;
use crate::alloc::{self, sut};
use crate::disk::{FaultyReader, FaultyWriter, IoEvent};
use crate::drive::*;
use crate::harness;
use crate::parts::*;
use crate::sched;
use elasticlunr::config::SearchOptions;
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use elasticlunr::{Index, IndexBuilder};
use serde::Serialize as _;
use serde_derive::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Save {
    how: u8,
    chunk: u64,
    io: Vec<IoEvent>,
    /// a serializer that fails at this call
    fail_at: Option<u64>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Load {
    how: u8,
    /// of the image, in per mille; 1000: all
    keep: u64,
    io: Vec<IoEvent>,
    /// change this byte
    alter: Option<u64>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Work {
    what: What,
    saves: Vec<Save>,
    loads: Vec<Load>,
    /// for an index, give up a builder of it as well: 0 no, 1 dropped, 2 a field twice, 3 panicking add with too many values
    builder: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Node {
    work: Vec<Work>,
    /// keep the objects from round to round, and do the same to them again
    resident: bool,
    /// other words and references every round
    varied: bool,
    rounds: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Body {
    nodes: Vec<Node>,
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        gen,
        exec,
        runs: (7000, 150_000),
        rule: "a case is 1-3 threads that repeat a round of work (1-3 objects fed, saved, loaded, given up and dropped, with failures at planned points) 12-20 times, with the same or with new contents, and an interleaving of them; non-trivial when an add, save or load failed in the rounds, and its event log differs from every other run's",
        real: REAL,
        stubs: &["allocator (counts live bytes allocated by library code per thread; a scheduling point)", "document source, items, tokenizers, readers and writers (plan)"],
        assumptions: &["what the first six rounds leave behind may stay (things initialised once); later rounds may not add to it", "a thread that is stopped for good keeps what it has"],
        warm: nothing,
    }
}

fn gen(rng: &mut Rng, _run: u64) -> Value {
    let nodes = (0..*rng.pick(&[1, 1, 2, 3]))
        .map(|_| {
            let work = (0..*rng.pick(&[1, 1, 2, 3]))
                .map(|_| {
                    let mut what = if rng.chance(0.06) { What::Options(gen_options(rng)) } else { gen_what(rng) };
                    if let What::Index(spec, ops) = &mut what {
                        if rng.chance(0.3) {
                            spec.wrap = false;
                            spec.custom.clear();
                            for v in ops.iter_mut().flat_map(|o| &mut o.values) {
                                // what were several tokens must not become one
                                *v = v.replace(',', " ");
                            }
                            normalise(spec);
                        }
                        for op in ops.iter_mut() {
                            op.fault = if rng.chance(0.45) { Some(gen_fault(rng, spec, op, "panic")) } else { None };
                        }
                    }
                    let saves = (0..rng.below(3))
                        .map(|_| Save {
                            how: rng.below(4) as u8,
                            chunk: *rng.pick(&[0, 0, 3, 50]),
                            io: crate::disk::gen_events(rng, 600, &["intr", "short", "err", "zero", "full", "panic", "dead"], 3),
                            fail_at: if rng.chance(0.4) { Some(rng.below(200)) } else { None },
                        })
                        .collect();
                    let loads = (0..rng.below(3))
                        .map(|_| Load {
                            how: rng.below(5) as u8,
                            keep: if rng.chance(0.4) { 1000 } else { rng.below(1000) },
                            io: crate::disk::gen_events(rng, 600, &["intr", "short", "err", "panic"], 2),
                            alter: if rng.chance(0.3) { Some(rng.below(1 << 30)) } else { None },
                        })
                        .collect();
                    Work { what, saves, loads, builder: *rng.pick(&[0, 0, 1, 2, 3]) }
                })
                .collect();
            let varied = rng.chance(0.4);
            Node { work, resident: !varied && rng.chance(0.3), varied, rounds: 12 + rng.below(9) }
        })
        .collect();
    serde_json::to_value(Body { nodes }).unwrap()
}

fn tag(round: u64) -> String {
    let mut s = String::from("q");
    let mut n = round + 1;
    while n > 0 {
        s.push((b'a' + (n % 26) as u8) as char);
        n /= 26;
    }
    s
}

fn words_with(t: &str, tag: &str) -> String {
    t.split(' ').map(|w| if w.is_empty() { String::new() } else { format!("{}{}", w, tag) }).collect::<Vec<_>>().join(" ")
}

/// The same work with other contents.
fn vary(w: &What, round: u64) -> What {
    let t = tag(round);
    let mut w = w.clone();
    match &mut w {
        What::Index(_, ops) => {
            for op in ops {
                op.r.push_str(&t);
                for v in &mut op.values {
                    *v = words_with(v, &t);
                }
            }
        }
        What::Inverted(ops) => {
            for op in ops {
                let (TokOp::Add(r, x, _) | TokOp::Remove(r, x)) = op;
                r.push_str(&t);
                x.push_str(&t);
            }
        }
        What::Store(_, ops) => {
            for op in ops {
                match op {
                    StoreOp::Add(r, d) => {
                        r.push_str(&t);
                        d.values_mut().for_each(|v| v.push_str(&t));
                    }
                    StoreOp::Remove(r) | StoreOp::Len(r, _, _) => r.push_str(&t),
                    StoreOp::Save(_) | StoreOp::Copy(_) => {}
                }
            }
        }
        What::Options(o) => o.fields.iter_mut().for_each(|f| f.0.push_str(&t)),
    }
    w
}

fn exec(v: &Value) {
    let mut b: Body = harness::body(v);
    for n in &mut b.nodes {
        for w in &mut n.work {
            if let What::Store(_, ops) = &mut w.what {
                *ops = without_open_questions(ops);
            }
        }
    }
    sched::go_live();
    for (i, n) in b.nodes.into_iter().enumerate() {
        sched::spawn(i as u64, move || node(i, n));
    }
    sched::run();
}

const WARM: usize = 6;

fn node(me: usize, n: Node) {
    let mut lives: Vec<i64> = Vec::new();
    let mut kept: Vec<Option<Obj>> = n.work.iter().map(|_| None).collect();
    for round in 0..n.rounds {
        for (k, w) in n.work.iter().enumerate() {
            let what = if n.varied { vary(&w.what, round) } else { w.what.clone() };
            let o = match kept[k].take() {
                Some(o) => o,
                None => Obj::new(&what),
            };
            let o = work(me, o, &what, w);
            if n.resident {
                kept[k] = Some(o);
            } else {
                sched::point();
                sut(|| drop(o));
            }
        }
        let l = alloc::live(me);
        slog!("node {} round {} live {}", me, round, l);
        lives.push(l);
    }
    sched::count("rounds_of_work_measured");
    sched::state((n.varied as u64) << 32 | lives.last().copied().unwrap_or(0) as u64);
    if lives.len() >= WARM + 6 {
        let early = lives[WARM - 3..WARM + 3].iter().max().unwrap();
        let late = lives[lives.len() - 3..].iter().min().unwrap();
        if late > early {
            let how = match (n.resident, n.varied) {
                (true, _) => "the same done to the same objects",
                (_, true) => "similar work",
                _ => "the same work",
            };
            sched::fail(
                "memory-grows",
                format!("node {}: {} repeated {} times; bytes the library still holds after each round: {:?}", me, how, lives.len(), lives),
            );
        }
    }
}

fn work(me: usize, mut o: Obj, what: &What, w: &Work) -> Obj {
    for i in 0..len_of(what) {
        o.feed(what, i);
    }
    let text = match guarded(|| serde_json::to_string(&o)) {
        Ok(Ok(t)) => t,
        e => sched::fail("save-panic", format!("node {}: {:?}", me, e)),
    };
    for s in &w.saves {
        save(&o, s);
    }
    for l in &w.loads {
        load(what, &text, l);
    }
    if let What::Index(spec, ops) = what {
        builder(spec, ops, w.builder);
    }
    o
}

fn note<T>(r: &Result<Result<T, String>, Added>, failed: &'static str, panicked: &'static str) {
    match r {
        Ok(Ok(_)) => {}
        Ok(Err(_)) => {
            sched::count(failed);
            sched::count("nontrivial");
        }
        Err(_) => {
            sched::count(panicked);
            sched::count("nontrivial");
        }
    }
}

fn save(o: &Obj, s: &Save) {
    if let Some(k) = s.fail_at {
        let mut r = crate::serfault::Rec { fail_at: Some(k), ..Default::default() };
        let x = guarded(|| o.serialize(&mut r).map_err(|e| e.to_string()));
        note(&x, "saves_failed", "saves_panicked");
    }
    let mut f = FaultyWriter::new(&s.io, s.chunk as usize);
    let x = guarded(|| {
        match s.how {
            0 => serde_json::to_writer(&mut f, o),
            1 => serde_json::to_writer_pretty(&mut f, o),
            2 => {
                // (the buffer must not flush when dropped: if the sink then panics, the compiler
                // forgets the error that to_writer was about to return)
                let mut b = std::io::BufWriter::with_capacity(64, &mut f);
                let r = serde_json::to_writer(&mut b, o);
                let _ = b.into_parts();
                r
            }
            _ => serde_json::to_value(o).map(drop),
        }
        .map_err(|e| e.to_string())
    });
    note(&x, "saves_failed", "saves_panicked");
}

fn load(what: &What, text: &str, l: &Load) {
    let mut data = text.as_bytes().to_vec();
    if l.keep < 1000 {
        data.truncate(data.len() * l.keep as usize / 1000);
    }
    if let (Some(a), false) = (l.alter, data.is_empty()) {
        let at = (a / 256) as usize % data.len();
        data[at] = a as u8;
    }
    let mut r = FaultyReader::new(data.clone(), &l.io, 0);
    fn get<T: serde::de::DeserializeOwned>(how: u8, data: &[u8], r: &mut FaultyReader) -> Result<T, String> {
        let e = |e: serde_json::Error| e.to_string();
        match how {
            1 => serde_json::from_slice(data).map_err(e),
            2 => serde_json::from_str(std::str::from_utf8(data).map_err(|e| e.to_string())?).map_err(e),
            3 => serde_json::from_slice::<Value>(data).and_then(serde_json::from_value).map_err(e),
            4 => serde_json::from_reader(std::io::BufReader::with_capacity(29, r)).map_err(e),
            _ => serde_json::from_reader(r).map_err(e),
        }
    }
    sched::count("loads");
    let x = guarded(|| -> Result<(), String> {
        match what {
            What::Index(_, ops) => {
                let mut i: Index = get(l.how, &data, &mut r)?;
                // used as well
                if let (Some(op), true) = (ops.first(), i.get_fields().len() >= ops.first().map_or(0, |o| o.values.len())) {
                    // (fields have lost their tokenizers)
                    let values: Vec<String> = op.values.iter().map(|v| v.replace(',', " ")).collect();
                    i.add_doc(&op.r, &values);
                }
            }
            What::Inverted(_) => drop(get::<InvertedIndex>(l.how, &data, &mut r)?),
            What::Store(..) => drop(get::<DocumentStore>(l.how, &data, &mut r)?),
            What::Options(_) => drop(get::<SearchOptions>(l.how, &data, &mut r)?),
        }
        Ok(())
    });
    note(&x, "loads_failed", "loads_panicked");
}

fn builder(spec: &IndexSpec, ops: &[DocOp], how: u8) {
    let mk = || {
        let mut b = IndexBuilder::with_language(base_language(&spec.lang)).set_ref(&spec.ref_field).save_docs(spec.save);
        for f in &spec.fields {
            b = b.add_field(f);
        }
        b
    };
    match how {
        1 => {
            sut(|| drop(mk()));
            sched::count("builders_dropped");
        }
        2 => {
            let x = guarded(|| -> Result<(), String> {
                let b = mk().add_field("twice");
                let _ = b.add_fields(&["other", "twice"]);
                Ok(())
            });
            note(&x, "builders_panicked", "builders_panicked");
        }
        3 => {
            let x = guarded(|| -> Result<(), String> {
                let mut i = mk().build();
                let n = i.get_fields().len();
                let words: String = ops.iter().flat_map(|o| o.values.iter().map(|v| v.replace(',', " "))).collect();
                // one more than there are fields
                i.add_doc("r", (0..n + 1).map(|_| words.as_str()));
                Ok(())
            });
            note(&x, "adds_panicked_in_the_library", "adds_panicked_in_the_library");
        }
        _ => {}
    }
}
