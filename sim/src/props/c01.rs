//! C01: a published index answers searches from exactly the completed adds.

use super::*;
use crate::disk::{FaultyReader, FaultyWriter, IoEvent, SimDisk};
use crate::drive::*;
use crate::harness;
use crate::jsclient::Client;
use crate::model::{close, Image, Model};
use crate::sched;
use serde_derive::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::{Read, Write};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    Add(DocOp),
    /// this many documents of their own with the same text
    Crowd { n: u64, values: Vec<String> },
    Publish { pretty: bool, chunk: u64, io: Vec<IoEvent>, die: bool },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Builder {
    spec: IndexSpec,
    steps: Vec<Step>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Query {
    words: String,
    expand: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Fetch {
    after_us: u64,
    from: usize,
    chunk: u64,
    io: Vec<IoEvent>,
    queries: Vec<Query>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Body {
    builders: Vec<Builder>,
    clients: Vec<Vec<Fetch>>,
    disk_seed: u64,
}

fn known() -> &'static std::collections::BTreeSet<String> {
    static K: std::sync::OnceLock<std::collections::BTreeSet<String>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        vocab::words("vocab")
            .into_iter()
            .flat_map(|w| crate::jsclient::tokenizer(w).into_iter().chain([w.to_lowercase()]).map(|t| crate::jsclient::trimmer(&t)).collect::<Vec<_>>())
            .collect()
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        gen,
        exec,
        runs: (14000, 300_000),
        rule: "a case is a plan (1-3 builders with their documents, faults in the caller's code, retries and publications; 1-2 search clients) with a seeded schedule; non-trivial when at least one fault fired, or two nodes were interleaved by preemption inside the library, and its event log differs from every other run's",
        real: REAL,
        stubs: &["elasticlunr.js client (own model)", "disk (simulated)", "document source, iterator and field tokenizers (plan)"],
        assumptions: &["English texts are drawn from a vocabulary on which our port of the elasticlunr.js pipeline and the library agree", "while an add is left interrupted nothing is published (C02 states what holds then)"],
        warm: || {
            known();
        },
    }
}

/// The documents of a crowd.
fn crowd_ops<'a>(spec: &'a IndexSpec, n: u64, values: &'a [String]) -> impl Iterator<Item = DocOp> + 'a {
    (0..n.min(80_000)).map(move |i| {
        let r = format!("crowd{}", i);
        let values = values.iter().enumerate().map(|(k, v)| if spec.fields.get(k) == Some(&spec.ref_field) { r.clone() } else { v.clone() }).collect();
        DocOp { r, values, fault: None }
    })
}

fn gen(rng: &mut Rng, run: u64) -> Value {
    // once in a while, more documents than fit into what one might count them with
    let masses = match run % 7000 {
        11 | 2011 | 4011 => Some(4100 + rng.below(5000)),
        6011 => Some(65_600 + rng.below(500)),
        _ => None,
    };
    if let Some(n) = masses {
        let spec = gen_spec(rng, "English", 3);
        let pool = vocab::pool(rng, "English", 2);
        let values = gen_values(rng, &spec, "", &pool, 3).into_iter().map(|v| if v.is_empty() { pool[0].clone() } else { v }).collect();
        let builders = vec![Builder { spec, steps: vec![Step::Crowd { n, values }, publish(rng)] }];
        let queries = pool.iter().map(|w| Query { words: w.clone(), expand: false }).collect();
        let clients = vec![vec![Fetch { after_us: 1, from: 0, chunk: 0, io: vec![], queries }]];
        return serde_json::to_value(Body { builders, clients, disk_seed: 1 }).unwrap();
    }
    let nb = *rng.pick(&[1, 1, 1, 2, 2, 3]);
    let mut builders = Vec::new();
    let mut all_words = Vec::new();
    for _ in 0..nb {
        let spec = gen_spec(rng, "English", 16);
        let size = *rng.pick(&[3, 8, 8, 20, 60]);
        let crowd = if rng.chance(0.008) { Some(270 + rng.usize(400)) } else { None };
        let mut pool = vocab::pool(rng, "English", size);
        if crowd.is_some() {
            crowd_pool(rng, &mut pool);
        }
        all_words.extend(pool.iter().cloned());
        let docs = match rng.below(40) {
            _ if crowd.is_some() => crowd.unwrap(),
            0 => 40 + rng.usize(80),
            1..=5 => 12 + rng.usize(20),
            _ => 1 + rng.usize(9),
        };
        let mut steps: Vec<Step> = Vec::new();
        for i in 0..docs {
            let r = vocab::doc_ref(rng, i);
            let mut values = gen_values(rng, &spec, &r, &pool, 12);
            if rng.chance(0.02) && !values.is_empty() {
                // a word very often
                let w = rng.pick(&pool).clone();
                let n = if run % 500 == 7 { 70_000 } else { 200 + rng.usize(200) };
                let k = rng.usize(values.len());
                if spec.fields[k] != spec.ref_field {
                    let sep = if spec.custom.contains(&k) { "," } else { " " };
                    values[k] = vec![w.as_str(); n].join(sep);
                }
            }
            let mut op = DocOp { r, values, fault: None };
            if rng.chance(0.35) {
                let act = *rng.pick(&["panic", "panic", "panic", "stall"]);
                op.fault = Some(gen_fault(rng, &spec, &op, act));
            }
            steps.push(Step::Add(op.clone()));
            // delivered once more, later on
            if rng.chance(0.15) {
                op.fault = if rng.chance(0.4) { Some(gen_fault(rng, &spec, &op, "panic")) } else { None };
                let at = rng.usize(steps.len()) + 1;
                steps.insert(at.min(steps.len()), Step::Add(op));
            }
            if rng.chance(0.12) {
                steps.push(publish(rng));
            }
        }
        stretch(rng, &spec, steps.iter_mut().filter_map(|s| if let Step::Add(o) = s { Some(o) } else { None }).collect(), &pool, 700);
        if rng.chance(0.3) {
            // arrival order is not the order of references
            rng.shuffle(&mut steps);
        }
        let p = publish(rng);
        steps.push(p);
        builders.push(Builder { spec, steps });
    }
    let clients = (0..1 + rng.usize(2))
        .map(|_| {
            (0..1 + rng.usize(4))
                .map(|_| Fetch {
                    after_us: rng.below(3000),
                    from: rng.usize(nb),
                    chunk: *rng.pick(&[0, 0, 7, 64, 1000]),
                    io: crate::disk::gen_events(rng, 3000, &["intr", "short", "stall"], 3),
                    queries: (0..4 + rng.usize(10))
                        .map(|_| {
                            let n = *rng.pick(&[1, 1, 1, 2, 3]);
                            let words: Vec<String> = (0..n)
                                .map(|_| {
                                    let w = rng.pick(&all_words);
                                    match rng.below(8) {
                                        0 => "the".to_string(),
                                        1 => w.to_uppercase(),
                                        2 => w.chars().take(3).collect(),
                                        3 => format!("{}zq", w),
                                        _ => w.clone(),
                                    }
                                })
                                .collect();
                            Query { words: words.join(" "), expand: rng.chance(0.3) }
                        })
                        .collect(),
                })
                .collect()
        })
        .collect();
    serde_json::to_value(Body { builders, clients, disk_seed: rng.u64() >> 12 }).unwrap()
}

fn publish(rng: &mut Rng) -> Step {
    Step::Publish {
        pretty: rng.chance(0.3),
        chunk: *rng.pick(&[0, 0, 5, 100, 4096]),
        io: crate::disk::gen_events(rng, 4000, &["intr", "short", "stall", "intr"], 3),
        die: rng.chance(0.04),
    }
}

#[derive(Default)]
struct World {
    /// one per builder: each is a machine of its own
    disk: Vec<SimDisk>,
    /// snapshots of the models, by builder and content
    published: BTreeMap<(usize, u64), Model>,
    done: usize,
}

fn exec(v: &Value) {
    let b: Body = harness::body(v);
    // keep to words on which the client and the library are known to agree (also when minimising)
    let known = known();
    for bu in &b.builders {
        for st in &bu.steps {
            let (Step::Add(DocOp { values, .. }) | Step::Crowd { values, .. }) = st else { continue };
            for (i, v) in values.iter().enumerate() {
                let raw = if bu.spec.custom.contains(&i) { crate::model::csv_tokens(v) } else { crate::jsclient::tokenizer(v) };
                for t in raw {
                    let t = crate::jsclient::trimmer(&t);
                    if !known.contains(&t) && !is_made_up(&t) && !crate::jsclient::is_stop(&t) && bu.spec.fields.get(i) != Some(&bu.spec.ref_field) {
                        harness::bad_body(format!("unknown word {:?}", t));
                    }
                }
            }
        }
    }
    // what is resent after a failure is the same document
    for bu in &b.builders {
        let mut open: BTreeMap<&str, &DocOp> = BTreeMap::new();
        for st in &bu.steps {
            let Step::Add(op) = st else { continue };
            if open.get(op.r.as_str()).map_or(false, |o| o.values != op.values) {
                harness::bad_body("another document under the reference of an interrupted one");
            }
            if op.fault.is_some() {
                open.insert(&op.r, op);
            }
        }
    }
    let oracles: Vec<Oracle> = b
        .builders
        .iter()
        .map(|bu| {
            let crowds: Vec<DocOp> = bu.steps.iter().filter_map(|s| if let Step::Crowd { values, .. } = s { crowd_ops(&bu.spec, 1, values).next() } else { None }).collect();
            let texts = texts_of(&bu.spec, bu.steps.iter().filter_map(|s| if let Step::Add(o) = s { Some(o) } else { None }).chain(&crowds));
            independent_oracle(&bu.spec, &texts)
        })
        .collect();
    let world: Shared<World> = Shared::new(World::default());
    world.get().disk.resize_with(b.builders.len(), SimDisk::default);
    sched::go_live();
    let nb = b.builders.len();
    for (i, bu) in b.builders.into_iter().enumerate() {
        let world = world.clone();
        let oracle = oracles[i].clone();
        let seed = b.disk_seed ^ i as u64;
        sched::spawn(i as u64, move || builder(i, bu, oracle, world, seed));
    }
    for (i, c) in b.clients.into_iter().enumerate() {
        let world = world.clone();
        sched::spawn(100 + i as u64, move || client(c, nb, world));
    }
    sched::run();
}

fn builder(i: usize, bu: Builder, oracle: Oracle, world: Shared<World>, seed: u64) {
    let spec = bu.spec;
    let mut d = Driver::new(&spec);
    let mut model = Model::new(&spec.fields, &spec.ref_field, spec.save);
    let contrib = |k: usize, t: &str| oracle[&(k, t.to_string())].clone();
    let mut pending: Vec<DocOp> = Vec::new();
    let mut version = 0;
    for st in &bu.steps {
        match st {
            Step::Add(op) => match d.add(op) {
                Added::Done => {
                    slog!("b{} add {:?}", i, op.r);
                    model.add(&op.r, &op.values, &contrib);
                    pending.retain(|p| p.r != op.r);
                }
                Added::Injected => {
                    slog!("b{} add {:?} interrupted", i, op.r);
                    pending.push(op.clone());
                }
                Added::Panicked(m) => sched::fail("unexpected-panic", format!("add_doc({:?}) panicked: {}", op.r, m)),
            },
            Step::Crowd { n, values } => {
                for op in crowd_ops(&spec, *n, values) {
                    match d.add(&op) {
                        Added::Done => model.add(&op.r, &op.values, &contrib),
                        r => sched::fail("unexpected-panic", format!("add_doc({:?}): {:?}", op.r, r)),
                    }
                }
                slog!("b{} adds a crowd of {}", i, n);
            }
            Step::Publish { pretty, chunk, io, die } => {
                for op in std::mem::take(&mut pending) {
                    sched::count("retries");
                    let op = DocOp { fault: None, ..op };
                    match d.add(&op) {
                        Added::Done => model.add(&op.r, &op.values, &contrib),
                        r => sched::fail("unexpected-panic", format!("retry of add_doc({:?}): {:?}", op.r, r)),
                    }
                }
                let text = if *pretty { d.json_pretty() } else { d.json() };
                sched::state(sched::fnv(text.as_bytes()));
                version += 1;
                slog!("b{} publishes version {}: {} bytes {:x}", i, version, text.len(), sched::fnv(text.as_bytes()));
                let w = world.get();
                w.published.insert((i, sched::fnv(text.as_bytes())), model.clone());
                // write to a temporary file in pieces, make it durable, put it in place
                let mut fw = FaultyWriter::new(io, *chunk as usize);
                let tmp = format!("tmp{}", i);
                let name = format!("index{}", i);
                let f = w.disk[i].create(&tmp);
                if fw.write_all(text.as_bytes()).is_err() {
                    sched::harness_error("publishing failed".into());
                }
                let bytes = fw.out;
                if *die {
                    sched::count("fault.builder_crash_while_publishing");
                    sched::count("nontrivial");
                    w.disk[i].append(f, &bytes[..bytes.len() / 2]);
                    w.disk[i].crash(&mut crate::rng::Rng::new(seed));
                    w.done += 1;
                    sched::die();
                }
                w.disk[i].append(f, &bytes);
                sched::point();
                let w = world.get();
                w.disk[i].sync(f);
                w.disk[i].rename(&tmp, &name);
                w.disk[i].sync_dir();
                sched::count("publications");
            }
        }
    }
    world.get().done += 1;
}

fn client(fetches: Vec<Fetch>, nb: usize, world: Shared<World>) {
    for f in &fetches {
        sched::sleep(f.after_us * 1000);
        fetch(f, f.from % nb.max(1), &world);
    }
    // the last word: what is published when every builder is done
    while world.get().done < nb {
        sched::sleep(1_000_000);
    }
    for b in 0..nb {
        for f in fetches.iter().take(2) {
            fetch(f, b, &world);
        }
    }
}

fn fetch(f: &Fetch, from: usize, world: &Shared<World>) {
    let Some(data) = world.get().disk[from].read(&format!("index{}", from)) else {
        slog!("client: nothing published by {}", from);
        return;
    };
    let key = (from, sched::fnv(&data));
    let mut r = FaultyReader::new(data, &f.io, f.chunk as usize);
    let mut got = Vec::new();
    if r.read_to_end(&mut got).is_err() {
        sched::harness_error("fetch failed".into());
    }
    let Some(model) = world.get().published.get(&key) else {
        sched::harness_error("fetched what nobody published".into());
    };
    sched::count("fetches");
    let text = match String::from_utf8(got) {
        Ok(t) => t,
        Err(_) => sched::fail("not-utf8", "the published index is not UTF-8".into()),
    };
    slog!("client: loads {:x}", key.1);
    let c = match Client::load(&text) {
        Ok(c) => c,
        Err(e) => sched::fail("client-cannot-load", e),
    };
    if c.fields != model.fields {
        sched::fail("fields", format!("{:?} instead of {:?}", c.fields, model.fields));
    }
    for q in &f.queries {
        let got = c.search(&q.words, q.expand);
        let want = expected(model, &q.words, q.expand);
        sched::count("queries");
        let same = got.len() == want.len() && got.iter().zip(&want).all(|((a, x), (b, y))| a == b && close(*x, *y));
        if !same {
            let missing: Vec<_> = want.keys().filter(|k| !got.contains_key(*k)).collect();
            let extra: Vec<_> = got.keys().filter(|k| !want.contains_key(*k)).collect();
            let scores: Vec<_> = want.iter().filter(|(k, v)| got.get(*k).map_or(false, |g| !close(*g, **v))).map(|(k, v)| format!("{:?}: {} instead of {}", k, got[k], v)).collect();
            sched::fail("search-result", format!("query {:?} (expand {}): not found {:?}, wrongly found {:?}, scores {:?}", q.words, q.expand, missing, extra, scores));
        }
        if model.save {
            let texts = c.by_key("docs");
            for d in got.keys() {
                for (k, v) in &model.docs[d] {
                    let text = texts.get(d.as_str()).and_then(|t| t.get(k)).and_then(|t| t.str());
                    if text != Some(v.as_str()) {
                        sched::fail("stored-text", format!("document {:?} member {:?}: {:?} instead of {:?}", d, k, text, v));
                    }
                }
            }
        }
    }
    // every word at once
    match Image::parse(&text) {
        Err(e) => sched::fail("image", e),
        Ok(im) => {
            if let Some(e) = model.diff(&im) {
                sched::fail("content", e);
            }
        }
    }
}

/// The search result computed from the completed adds.
fn expected(m: &Model, q: &str, expand: bool) -> BTreeMap<String, f64> {
    let toks = crate::jsclient::english(q);
    let n = m.docs.len() as f64;
    let mut res: BTreeMap<String, f64> = BTreeMap::new();
    for f in &m.fields {
        let post = &m.post[f];
        let mut score: BTreeMap<&String, f64> = BTreeMap::new();
        let mut exact: BTreeMap<&String, f64> = BTreeMap::new();
        for t in &toks {
            for (term, docs) in post.range(t.clone()..) {
                let hit = if expand { term.starts_with(t.as_str()) } else { term == t };
                if !hit {
                    break;
                }
                let idf = 1.0 + (n / (docs.len() as f64 + 1.0)).ln();
                let (a, b) = (term.chars().count() as f64, t.chars().count() as f64);
                let penalty = if term == t { 1.0 } else { (1.0 - (a - b) / a) * 0.15 };
                for (d, tf) in docs {
                    let len = m.info.get(d).and_then(|i| i.get(f)).copied().unwrap_or(0) as f64;
                    let norm = if len > 0.0 { 1.0 / len.sqrt() } else { 1.0 };
                    *score.entry(d).or_default() += tf * idf * norm * penalty;
                    if term == t {
                        *exact.entry(d).or_default() += 1.0;
                    }
                }
            }
        }
        for (d, s) in score {
            let k = exact.get(d).copied().unwrap_or(0.0);
            *res.entry(d.clone()).or_default() += if expand && k == 0.0 { s } else { s * k / toks.len() as f64 };
        }
    }
    res
}
