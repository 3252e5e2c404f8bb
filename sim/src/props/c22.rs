//! C22: a published index's parts can be loaded, queried and maintained on their own.
//!
//! Writers build indexes from documents whose adds fail and are retried, and publish them. Search
//! servers written in Rust fetch an image through readers that may fail, load its document store
//! and inverted indexes with the library's own types, and query them; then they take documents out
//! and put them back, save the parts to their own disk, crash and load them again.

use super::c09::{Inverted, Query as TokQuery};
use super::c10::{Query as StoreQuery, Store};
use super::*;
use crate::alloc::sut;
use crate::disk::{FaultyReader, FaultyWriter, IoEvent, SimDisk};
use crate::drive::*;
use crate::harness;
use crate::model::Model;
use crate::parts::*;
use crate::sched;
use crate::shared::Object as _;
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use serde::de::DeserializeOwned;
use serde_derive::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    Add(DocOp),
    Publish { pretty: bool, chunk: u64, io: Vec<IoEvent> },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Writer {
    spec: IndexSpec,
    steps: Vec<Step>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Act {
    /// take the n-th document out
    Remove(u64),
    /// put the one taken out first back in
    Restore,
    /// change the n-th document's weight of its m-th term
    Reweigh(u64, u64, u64),
    /// queries with strings like the ones known
    Probe(String, u64),
    Audit,
    /// write the parts to files; crash if asked; go on with what can be loaded
    Save { chunk: u64, io: Vec<IoEvent>, crash: bool },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Visit {
    after_us: u64,
    from: usize,
    how: u8,
    chunk: u64,
    io: Vec<IoEvent>,
    acts: Vec<Act>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Body {
    writers: Vec<Writer>,
    servers: Vec<Vec<Visit>>,
    disk_seed: u64,
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        gen,
        exec,
        runs: (9000, 200_000),
        rule: "a case is a plan (1-2 writers with their documents, faults in the caller's code, retries and publications; 1-2 servers with their visits, reader faults, edits, saves and crashes) with a seeded schedule; non-trivial when at least one fault fired, or a server crashed, or two nodes were interleaved by preemption inside the library, and its event log differs from every other run's",
        real: REAL,
        stubs: &["disks (simulated)", "document source, iterator and field tokenizers (plan)", "toy language in some runs"],
        assumptions: &["what one text contributes to one field is taken from the library itself, from an index with only that text built in a process of its own", "terms of at most about 120 characters (the JSON reader's nesting limit)", "weights are compared to 1e-9 relative after loading"],
        warm: nothing,
    }
}

fn gen(rng: &mut Rng, _run: u64) -> Value {
    let nw = *rng.pick(&[1, 1, 1, 2]);
    let mut words: Vec<String> = Vec::new();
    let writers: Vec<Writer> = (0..nw)
        .map(|_| {
            let lang = super::c02::pick_lang(rng);
            let spec = gen_spec(rng, &lang, 8);
            let n = *rng.pick(&[2, 5, 15]);
            let mut pool = vocab::pool(rng, &lang, n);
            let crowd = crowd(rng);
            if crowd.is_some() {
                crowd_pool(rng, &mut pool);
            }
            words.extend(pool.iter().cloned());
            let docs = crowd.unwrap_or_else(|| 1 + rng.usize(9));
            let mut steps: Vec<Step> = Vec::new();
            for i in 0..docs {
                let r = vocab::doc_ref(rng, i);
                let values = gen_values(rng, &spec, &r, &pool, if crowd.is_some() { 3 } else { 8 });
                let mut op = DocOp { r, values, fault: None };
                if rng.chance(0.3) {
                    op.fault = Some(gen_fault(rng, &spec, &op, "panic"));
                }
                steps.push(Step::Add(op.clone()));
                if rng.chance(0.15) {
                    op.fault = None;
                    let at = rng.usize(steps.len()) + 1;
                    steps.insert(at.min(steps.len()), Step::Add(op));
                }
            }
            stretch(rng, &spec, steps.iter_mut().filter_map(|s| if let Step::Add(o) = s { Some(o) } else { None }).collect(), &pool, 100);
            if rng.chance(0.3) {
                rng.shuffle(&mut steps);
            }
            if rng.chance(0.4) {
                let at = rng.usize(steps.len() + 1);
                steps.insert(at, publish(rng));
            }
            let p = publish(rng);
            steps.push(p);
            Writer { spec, steps }
        })
        .collect();
    let servers = (0..*rng.pick(&[1, 1, 2]))
        .map(|_| {
            (0..1 + rng.usize(3))
                .map(|_| Visit {
                    after_us: rng.below(3000),
                    from: rng.usize(nw),
                    how: rng.below(6) as u8,
                    chunk: *rng.pick(&[0, 0, 3, 64, 1000]),
                    io: crate::disk::gen_events(rng, 3000, &["intr", "short", "stall", "intr", "short", "err", "panic"], 3),
                    acts: (0..rng.usize(9))
                        .map(|_| match rng.below(10) {
                            0..=2 => Act::Remove(rng.below(1000)),
                            3 | 4 => Act::Restore,
                            5 => Act::Reweigh(rng.below(1000), rng.below(1000), 1 + rng.below(90)),
                            6 => {
                                let w = rng.pick(&words).clone();
                                Act::Probe(vocab::kin(rng, &w), rng.below(1000))
                            }
                            7 => Act::Audit,
                            _ => Act::Save {
                                chunk: *rng.pick(&[0, 0, 5, 200]),
                                io: crate::disk::gen_events(rng, 1500, &["intr", "short", "stall", "full", "err", "zero", "panic"], 2),
                                crash: rng.chance(0.6),
                            },
                        })
                        .collect(),
                })
                .collect()
        })
        .collect();
    serde_json::to_value(Body { writers, servers, disk_seed: rng.u64() >> 12 }).unwrap()
}

fn publish(rng: &mut Rng) -> Step {
    Step::Publish { pretty: rng.chance(0.3), chunk: *rng.pick(&[0, 0, 5, 4096]), io: crate::disk::gen_events(rng, 4000, &["intr", "short", "stall"], 2) }
}

#[derive(Default)]
struct World {
    disk: Vec<SimDisk>,
    published: BTreeMap<(usize, u64), Model>,
    done: usize,
}

fn exec(v: &Value) {
    let b: Body = harness::body(v);
    let mut oracles = Vec::new();
    for w in &b.writers {
        // what is resent after a failure is the same document
        let mut open: BTreeMap<&str, &DocOp> = BTreeMap::new();
        for st in &w.steps {
            let Step::Add(op) = st else { continue };
            if open.get(op.r.as_str()).map_or(false, |o| o.values != op.values) {
                harness::bad_body("another document under the reference of an interrupted one");
            }
            if op.fault.is_some() {
                open.insert(&op.r, op);
            }
        }
        let texts = texts_of(&w.spec, w.steps.iter().filter_map(|s| if let Step::Add(o) = s { Some(o) } else { None }));
        match solo_oracle(&w.spec, &texts) {
            Ok(o) => oracles.push(o),
            Err(e) => {
                slog!("reference unavailable: {}", e);
                sched::count("reference_unavailable");
                return;
            }
        }
    }
    let world: Shared<World> = Shared::new(World::default());
    world.get().disk.resize_with(b.writers.len(), SimDisk::default);
    sched::go_live();
    let nw = b.writers.len();
    for (i, w) in b.writers.into_iter().enumerate() {
        let (world, oracle) = (world.clone(), oracles[i].clone());
        sched::spawn(i as u64, move || writer(i, w, oracle, world));
    }
    for (i, s) in b.servers.into_iter().enumerate() {
        let world = world.clone();
        let seed = b.disk_seed ^ i as u64;
        sched::spawn(100 + i as u64, move || server(i, s, nw, world, seed));
    }
    sched::run();
}

fn writer(i: usize, w: Writer, oracle: Oracle, world: Shared<World>) {
    let spec = w.spec;
    let mut d = Driver::new(&spec);
    let mut model = Model::new(&spec.fields, &spec.ref_field, spec.save);
    let contrib = |k: usize, t: &str| oracle[&(k, t.to_string())].clone();
    let mut pending: Vec<DocOp> = Vec::new();
    for st in &w.steps {
        match st {
            Step::Add(op) => match d.add(op) {
                Added::Done => {
                    model.add(&op.r, &op.values, &contrib);
                    pending.retain(|p| p.r != op.r);
                }
                Added::Injected => pending.push(op.clone()),
                Added::Panicked(m) => sched::fail("unexpected-panic", format!("add_doc({:?}) panicked: {}", op.r, m)),
            },
            Step::Publish { pretty, chunk, io } => {
                for op in std::mem::take(&mut pending) {
                    sched::count("retries");
                    match d.add(&DocOp { fault: None, ..op.clone() }) {
                        Added::Done => model.add(&op.r, &op.values, &contrib),
                        r => sched::fail("unexpected-panic", format!("retry of add_doc({:?}): {:?}", op.r, r)),
                    }
                }
                let mut fw = FaultyWriter::new(io, *chunk as usize);
                let r = guarded(|| if *pretty { serde_json::to_writer_pretty(&mut fw, &d.index) } else { serde_json::to_writer(&mut fw, &d.index) });
                match r {
                    Ok(Ok(())) => {}
                    r => sched::fail("publishing", format!("{:?}", r.map(|x| x.map_err(|e| e.to_string())))),
                }
                let bytes = fw.out;
                slog!("w{} publishes {:x}", i, sched::fnv(&bytes));
                let x = world.get();
                x.published.insert((i, sched::fnv(&bytes)), model.clone());
                let f = x.disk[i].create("tmp");
                x.disk[i].append(f, &bytes);
                x.disk[i].sync(f);
                x.disk[i].rename("tmp", "index");
                x.disk[i].sync_dir();
                sched::count("publications");
                sched::point();
            }
        }
    }
    world.get().done += 1;
}

/// What a server reads of an image; it does not care for the rest.
#[derive(serde_derive::Deserialize)]
struct Loaded {
    #[serde(rename = "documentStore")]
    store: DocumentStore,
    index: BTreeMap<String, InvertedIndex>,
}

struct Parts {
    store: DocumentStore,
    store_model: StoreModel,
    index: BTreeMap<String, (InvertedIndex, TokModel)>,
    /// documents taken out: text, lengths, weights by field and term
    out: Vec<(String, BTreeMap<String, String>, BTreeMap<String, u64>, Vec<(String, String, f64)>)>,
}

fn load(how: u8, data: &[u8], io: &[IoEvent], chunk: usize, must_fail: &mut bool) -> Result<Loaded, String> {
    fn members<T: DeserializeOwned>(v: &mut Value, k: &str) -> Result<T, String> {
        serde_json::from_value(v.get_mut(k).map(Value::take).unwrap_or_default()).map_err(|e| e.to_string())
    }
    let mut r = FaultyReader::new(data.to_vec(), io, chunk);
    let x = guarded(|| match how {
        0 => serde_json::from_slice(data).map_err(|e| e.to_string()),
        1 => {
            // one member after the other
            let mut v: Value = serde_json::from_reader(&mut r).map_err(|e| e.to_string())?;
            let store = members(&mut v, "documentStore")?;
            let mut index = BTreeMap::new();
            let ix = v.get_mut("index").and_then(|x| x.as_object_mut()).ok_or("no index")?;
            for f in ix.keys().cloned().collect::<Vec<_>>() {
                index.insert(f.clone(), serde_json::from_value(ix[&f].take()).map_err(|e| e.to_string())?);
            }
            Ok(Loaded { store, index })
        }
        2 => {
            // each part's own text
            let v: Value = serde_json::from_slice(data).map_err(|e| e.to_string())?;
            let store = serde_json::from_str(&v["documentStore"].to_string()).map_err(|e| e.to_string())?;
            let mut index = BTreeMap::new();
            for (f, x) in v["index"].as_object().ok_or("no index")? {
                index.insert(f.clone(), serde_json::from_str(&x.to_string()).map_err(|e| e.to_string())?);
            }
            Ok(Loaded { store, index })
        }
        3 => serde_json::from_reader(std::io::BufReader::with_capacity(37, &mut r)).map_err(|e| e.to_string()),
        _ => serde_json::from_reader(&mut r).map_err(|e| e.to_string()),
    });
    *must_fail = r.failed;
    match x {
        Ok(r) => r,
        Err(Added::Injected) => Err("the reader panicked".into()),
        Err(e) => sched::fail("load-panics", format!("{:?}", e)),
    }
}

fn server(me: usize, visits: Vec<Visit>, nw: usize, world: Shared<World>, seed: u64) {
    let mut rng = crate::rng::Rng::derive(seed, "server");
    for v in &visits {
        sched::sleep(v.after_us * 1000);
        visit(me, v, v.from % nw.max(1), &world, &mut rng);
    }
    while world.get().done < nw {
        sched::sleep(1_000_000);
    }
    // what is published in the end
    if let Some(v) = visits.last() {
        for w in 0..nw {
            visit(me, v, w, &world, &mut rng);
        }
    }
}

fn visit(me: usize, v: &Visit, from: usize, world: &Shared<World>, rng: &mut crate::rng::Rng) {
    let Some(data) = world.get().disk[from].read("index") else {
        slog!("s{}: nothing published by {}", me, from);
        return;
    };
    let Some(model) = world.get().published.get(&(from, sched::fnv(&data))).cloned() else {
        sched::harness_error("fetched what nobody published".into());
    };
    let mut must_fail = false;
    let mut got = load(v.how, &data, &v.io, v.chunk as usize, &mut must_fail);
    match (&got, must_fail) {
        (Ok(_), true) => sched::fail("reader-failure-accepted", "parts were loaded from a reader that failed".into()),
        (Err(_), true) => {
            sched::count("nontrivial");
            let quiet: Vec<IoEvent> = v.io.iter().filter(|e| ["intr", "short", "stall"].contains(&e.kind.as_str())).cloned().collect();
            got = load(v.how, &data, &quiet, v.chunk as usize, &mut must_fail);
        }
        _ => {}
    }
    let got = match got {
        Ok(g) => g,
        Err(e) => sched::fail("cannot-load", e),
    };
    sched::count("parts_loaded");
    let mut keys: Vec<&String> = got.index.keys().collect();
    let mut want: Vec<&String> = model.fields.iter().collect();
    keys.sort();
    want.sort();
    if keys != want {
        sched::fail("fields", format!("{:?} instead of {:?}", keys, want));
    }
    let mut p = Parts {
        store: got.store,
        store_model: StoreModel { save: model.save, docs: model.docs.clone(), info: model.info.clone() },
        index: got
            .index
            .into_iter()
            .map(|(f, i)| {
                let m = TokModel { post: model.post[&f].clone(), known: model.nodes(&f), deep: false };
                (f, (i, m))
            })
            .collect(),
        out: vec![],
    };
    audit(&p, "as loaded");
    // the last durable state of the server's own files, with the models it stands for
    let mut disk = SimDisk::default();
    let mut saved: BTreeMap<u64, (StoreModel, BTreeMap<String, TokModel>)> = BTreeMap::new();
    for (k, a) in v.acts.iter().enumerate() {
        sched::point();
        act(me, k, a, &mut p, &mut disk, &mut saved, rng);
    }
    audit(&p, "at the end");
    sched::state(sched::fnv(crate::shared::text_of(&p.store).as_bytes()));
    sut(|| drop(p));
}

fn audit(p: &Parts, when: &str) {
    sched::count("audits");
    let x = guarded(|| {
        if let Some(d) = Store::audit(&p.store, &p.store_model, &crate::shared::text_of(&p.store)) {
            return Some(format!("document store {}: {}", when, d));
        }
        for (f, (i, m)) in &p.index {
            if let Some(d) = Inverted::audit(i, m, &crate::shared::text_of(i)) {
                return Some(format!("inverted index {:?} {}: {}", f, when, d));
            }
        }
        None
    });
    match x {
        Ok(None) => {}
        Ok(Some(d)) => sched::fail("wrong-content", d),
        Err(e) => sched::fail("unexpected-panic", format!("{}: {:?}", when, e)),
    }
}

fn no_panic<R>(what: String, f: impl FnOnce() -> R) -> R {
    match guarded(f) {
        Ok(r) => r,
        Err(e) => sched::fail("unexpected-panic", format!("{}: {:?}", what, e)),
    }
}

fn act(me: usize, k: usize, a: &Act, p: &mut Parts, disk: &mut SimDisk, saved: &mut BTreeMap<u64, (StoreModel, BTreeMap<String, TokModel>)>, rng: &mut crate::rng::Rng) {
    let nth = |n: u64, p: &Parts| (!p.store_model.docs.is_empty()).then(|| p.store_model.docs.keys().nth(n as usize % p.store_model.docs.len()).unwrap().clone());
    match a {
        Act::Remove(n) => {
            let Some(r) = nth(*n, p) else { return };
            slog!("s{} step {} takes {:?} out", me, k, r);
            sched::count("documents_taken_out");
            let mut terms = Vec::new();
            for (f, (_, m)) in &p.index {
                for (t, d) in &m.post {
                    if let Some(w) = d.get(&r) {
                        terms.push((f.clone(), t.clone(), *w));
                    }
                }
            }
            for (f, t, _) in &terms {
                let (i, m) = p.index.get_mut(f).unwrap();
                no_panic(format!("remove_token({:?}, {:?})", r, t), || i.remove_token(&r, t));
                m.apply(&TokOp::Remove(r.clone(), t.clone()));
            }
            no_panic(format!("remove_doc({:?})", r), || p.store.remove_doc(&r));
            let text = p.store_model.docs.get(&r).cloned().unwrap_or_default();
            let info = p.store_model.info.get(&r).cloned().unwrap_or_default();
            p.store_model.apply(&StoreOp::Remove(r.clone()));
            p.out.push((r, text, info, terms));
            audit(p, "after taking a document out");
        }
        Act::Restore => {
            if p.out.is_empty() {
                return;
            }
            let (r, text, info, terms) = p.out.remove(0);
            slog!("s{} step {} puts {:?} back", me, k, r);
            for (f, t, w) in &terms {
                let (i, m) = p.index.get_mut(f).unwrap();
                no_panic(format!("add_token({:?}, {:?})", r, t), || i.add_token(&r, t, *w));
                m.post.entry(t.clone()).or_default().insert(r.clone(), *w);
            }
            for (f, n) in &info {
                no_panic(format!("add_field_length({:?}, {:?})", r, f), || p.store.add_field_length(&r, f, *n as usize));
                p.store_model.apply(&StoreOp::Len(r.clone(), f.clone(), *n));
            }
            no_panic(format!("add_doc({:?})", r), || p.store.add_doc(&r, text.clone()));
            p.store_model.apply(&StoreOp::Add(r, text));
            audit(p, "after putting a document back");
        }
        Act::Reweigh(n, m, w) => {
            let Some(r) = nth(*n, p) else { return };
            let mut terms: Vec<(String, String)> = Vec::new();
            for (f, (_, x)) in &p.index {
                terms.extend(x.post.iter().filter(|(_, d)| d.contains_key(&r)).map(|(t, _)| (f.clone(), t.clone())));
            }
            if terms.is_empty() {
                return;
            }
            let (f, t) = terms[*m as usize % terms.len()].clone();
            let op = TokOp::Add(r, t, *w);
            slog!("s{} step {} {:?}", me, k, op);
            let (i, x) = p.index.get_mut(&f).unwrap();
            no_panic(format!("{:?}", op), || apply_tok(i, &op));
            x.apply(&op);
            audit(p, "after changing a weight");
        }
        Act::Probe(t, n) => {
            let r = nth(*n, p).unwrap_or_default();
            sched::count("queries");
            for q in [TokQuery::Has(t.clone()), TokQuery::Docs(t.clone()), TokQuery::Df(t.clone()), TokQuery::Tf(r.clone(), t.clone())] {
                for (f, (i, m)) in &p.index {
                    if let Some(d) = no_panic(format!("{:?}", q), || Inverted::query(i, m, &q)) {
                        sched::fail("wrong-answer", format!("field {:?}: {:?}: {}", f, q, d));
                    }
                }
            }
            for q in [StoreQuery::Has(t.clone()), StoreQuery::Get(t.clone()), StoreQuery::Len(r, t.clone()), StoreQuery::Size] {
                if let Some(d) = no_panic(format!("{:?}", q), || Store::query(&p.store, &p.store_model, &q)) {
                    sched::fail("wrong-answer", format!("{:?}: {}", q, d));
                }
            }
        }
        Act::Audit => audit(p, "in between"),
        Act::Save { chunk, io, crash } => {
            // one file with all parts
            let mut fw = FaultyWriter::new(io, *chunk as usize);
            let x = guarded(|| {
                let view: (&DocumentStore, BTreeMap<&String, &InvertedIndex>) = (&p.store, p.index.iter().map(|(f, (i, _))| (f, i)).collect());
                serde_json::to_writer(&mut fw, &view).map_err(|e| e.to_string())
            });
            let (failed, bytes) = (fw.failed, fw.out);
            match x {
                Ok(Ok(())) if failed => sched::fail("failed-save-reported-as-done", "a writer failed, and the save succeeded".into()),
                Ok(Ok(())) => {
                    saved.insert(sched::fnv(&bytes), (p.store_model.clone(), p.index.iter().map(|(f, (_, m))| (f.clone(), m.clone())).collect()));
                    let f = disk.create("tmp");
                    disk.append(f, &bytes);
                    disk.sync(f);
                    disk.rename("tmp", "parts");
                    disk.sync_dir();
                    sched::count("parts_saved");
                }
                Ok(Err(_)) | Err(Added::Injected) if failed => {
                    sched::count("nontrivial");
                    let f = disk.create("tmp");
                    disk.append(f, &bytes);
                }
                r => sched::fail("save", format!("{:?}", r)),
            }
            if !*crash {
                return;
            }
            let Some(_) = disk.read("parts") else { return };
            sched::count("fault.server_crash");
            sched::count("nontrivial");
            disk.crash(rng);
            let Some(data) = disk.read("parts") else { sched::harness_error("synced file lost".into()) };
            let Some((s, t)) = saved.get(&sched::fnv(&data)).cloned() else { sched::harness_error("synced file changed".into()) };
            slog!("s{} step {} starts again from {:x}", me, k, sched::fnv(&data));
            let x: Result<Result<(DocumentStore, BTreeMap<String, InvertedIndex>), _>, _> = guarded(|| serde_json::from_slice(&data).map_err(|e| e.to_string()));
            let (store, index) = match x {
                Ok(Ok(x)) => x,
                e => sched::fail("cannot-load", format!("the server's own parts: {:?}", e.map(|r| r.map(|_| ())))),
            };
            let mut index = index;
            // (what was taken out after the save is back in)
            p.out.retain(|(r, ..)| !s.docs.contains_key(r));
            let old = std::mem::replace(&mut p.store, store);
            p.store_model = s;
            sut(|| drop(old));
            for (f, m) in t {
                let Some(i) = index.remove(&f) else { sched::fail("cannot-load", format!("field {:?} is missing", f)) };
                p.index.insert(f, (i, m));
            }
            audit(p, "after a restart");
        }
    }
}
