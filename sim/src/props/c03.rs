//! C03: indexes built at the same time do not influence each other.

use super::*;
use crate::alloc::sut;
use crate::disk::FaultyWriter;
use crate::drive::*;
use crate::harness;
use crate::sched;
use serde_derive::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Builder {
    spec: IndexSpec,
    ops: Vec<DocOp>,
    /// build it this often, one after the other
    repeat: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Node {
    /// built on one thread, their adds taking turns
    builders: Vec<Builder>,
    /// other uses of the library on this thread between adds: 0 none, 1 languages, 2 stores, 3 loads
    noise: u64,
    start_us: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Body {
    nodes: Vec<Node>,
    /// built from inside callbacks of the others
    nested: Vec<Builder>,
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        gen,
        exec,
        runs: (9000, 200_000),
        rule: "a case is a plan (1-4 threads, each building 1-3 indexes in turns or one after the other, in any languages, some from inside callbacks of others, some failing or abandoned) with a seeded schedule; non-trivial when a fault or nested build happened, or nodes were switched inside the library, and its event log differs from every other run's",
        real: REAL,
        stubs: &["document source, iterator, items and field tokenizers (plan)", "toy languages in some runs"],
        assumptions: &["the reference is the same history run by the library alone in a process of its own"],
        warm: nothing,
    }
}

fn gen_builder(rng: &mut Rng, lang: &str, words: &[String], nested: usize) -> Builder {
    let mut spec = gen_spec(rng, lang, 6);
    if rng.chance(0.4) {
        spec.wrap = true;
        normalise(&mut spec);
    }
    let mut ops = Vec::new();
    for i in 0..1 + rng.usize(6) {
        let r = if rng.chance(0.7) { format!("{}", i) } else { vocab::doc_ref(rng, i) };
        let values = gen_values(rng, &spec, &r, words, 7);
        let mut op = DocOp { r, values, fault: None };
        if rng.chance(0.35) {
            let act = if nested > 0 && rng.chance(0.4) { "nest" } else { *rng.pick(&["panic", "panic", "stall", "crash"]) };
            let mut f = gen_fault(rng, &spec, &op, act);
            if act == "crash" && rng.chance(0.5) {
                f.act = "panic".into();
            }
            if act == "nest" {
                f.arg = rng.below(nested as u64);
            }
            op.fault = Some(f);
        }
        ops.push(op);
    }
    if stretch(rng, &spec, ops.iter_mut().collect(), words, 400) {
        return Builder { spec, ops, repeat: 1 };
    }
    Builder { spec, ops, repeat: *rng.pick(&[1, 1, 1, 2, 3]) }
}

fn gen(rng: &mut Rng, _run: u64) -> Value {
    // languages in play: often the same or few, so that anything kept per language would be shared
    let langs: Vec<String> = (0..*rng.pick(&[1, 1, 2, 2, 3, 4])).map(|_| super::c02::pick_lang(rng)).collect();
    let n = *rng.pick(&[4, 10, 25]);
    let pools: Vec<Vec<String>> = langs.iter().map(|l| vocab::pool(rng, l, n)).collect();
    let mut nested = Vec::new();
    if rng.chance(0.4) {
        for _ in 0..1 + rng.usize(2) {
            let k = rng.usize(langs.len());
            let mut b = gen_builder(rng, &langs[k], &pools[k], 0);
            b.repeat = 1;
            for o in &mut b.ops {
                if o.fault.as_ref().map_or(false, |f| f.act == "crash") {
                    o.fault = None;
                }
            }
            nested.push(b);
        }
    }
    let nodes = (0..*rng.pick(&[1, 2, 2, 2, 3, 3, 4]))
        .map(|_| Node {
            builders: (0..*rng.pick(&[1, 1, 1, 2, 2, 3]))
                .map(|_| {
                    let k = rng.usize(langs.len());
                    gen_builder(rng, &langs[k], &pools[k], nested.len())
                })
                .collect(),
            noise: *rng.pick(&[0, 0, 0, 1, 2, 3]),
            start_us: *rng.pick(&[0, 0, 50, 500]),
        })
        .collect();
    serde_json::to_value(Body { nodes, nested }).unwrap()
}

/// After each operation: how it ended, and the image.
type Trail = Vec<(String, String)>;

fn outcome(a: &Added) -> String {
    match a {
        Added::Done => "done".into(),
        Added::Injected => "interrupted".into(),
        Added::Panicked(m) => format!("panic: {}", m),
    }
}

fn alone(b: &Builder) -> Result<Trail, String> {
    harness::isolated(|| {
        let mut d = Driver::new(&b.spec);
        b.ops
            .iter()
            .map(|op| {
                let mut op = op.clone();
                if op.fault.as_ref().map_or(false, |f| f.act != "panic") {
                    op.fault = None;
                }
                let r = d.add(&op);
                (outcome(&r), d.json())
            })
            .collect()
    })
}

fn exec(v: &Value) {
    let b: Body = harness::body(v);
    let mut refs: Vec<Vec<Trail>> = Vec::new();
    for n in &b.nodes {
        let mut row = Vec::new();
        for bu in &n.builders {
            match alone(bu) {
                Ok(t) => row.push(t),
                Err(e) => {
                    slog!("reference unavailable: {}", e);
                    sched::count("reference_unavailable");
                    return;
                }
            }
        }
        refs.push(row);
    }
    let mut nested_refs = Vec::new();
    for bu in &b.nested {
        match alone(bu) {
            Ok(t) => nested_refs.push(t),
            Err(_) => {
                sched::count("reference_unavailable");
                return;
            }
        }
    }
    let nested: Vec<(Builder, Trail)> = b.nested.into_iter().zip(nested_refs).collect();
    sched::go_live();
    for (i, n) in b.nodes.into_iter().enumerate() {
        let refs = refs[i].clone();
        let nested = nested.clone();
        sched::spawn(i as u64, move || node(i, n, refs, nested));
    }
    sched::run();
    if sched::sim().stats.get("preemptions_in_library").copied().unwrap_or(0) > 0 {
        sched::count("nontrivial");
    }
}

fn check(who: &str, spec: &IndexSpec, k: usize, op: &DocOp, r: &Added, d: &Driver, want: &(String, String)) {
    let got = match guarded(|| d.index.to_json()) {
        Ok(t) => t,
        Err(e) => sched::fail("save-panics", format!("{} (language {}), operation {}: {:?}", who, spec.lang, k, e)),
    };
    sched::count("images_checked");
    slog!("{} op {} {:?}: {} {:x}", who, k, op.r, outcome(r), sched::fnv(got.as_bytes()));
    sched::state(sched::fnv(got.as_bytes()));
    if outcome(r) != want.0 {
        sched::fail("outcome-differs-from-solo", format!("{} (language {}), add_doc({:?}): {} instead of {}", who, spec.lang, op.r, outcome(r), want.0));
    }
    if got != want.1 {
        let at = got.bytes().zip(want.1.bytes()).take_while(|(a, b)| a == b).count();
        let cut = |s: &str| {
            let b = s.as_bytes();
            String::from_utf8_lossy(&b[at.saturating_sub(80).min(b.len())..(at + 120).min(b.len())]).into_owned()
        };
        sched::fail(
            "image-differs-from-solo",
            format!("{} (language {}), after add_doc({:?}), at byte {}:\nbuilt here:  ...{}\nbuilt alone: ...{}", who, spec.lang, op.r, at, cut(&got), cut(&want.1)),
        );
    }
}

fn whole(who: &str, b: &Builder, t: &Trail) {
    let mut d = Driver::new(&b.spec);
    for (k, op) in b.ops.iter().enumerate() {
        let r = d.add(op);
        check(who, &b.spec, k, op, &r, &d, &t[k]);
    }
}

fn node(i: usize, n: Node, refs: Vec<Trail>, nested: Vec<(Builder, Trail)>) {
    if n.start_us > 0 {
        sched::sleep(n.start_us * 1000);
    }
    let rounds = n.builders.iter().map(|b| b.repeat).max().unwrap_or(0);
    for round in 0..rounds {
        let mut ds: Vec<Option<Driver>> = n
            .builders
            .iter()
            .map(|b| {
                (b.repeat > round).then(|| {
                    let d = Driver::new(&b.spec);
                    for (k, (nb, nt)) in nested.iter().enumerate() {
                        let (nb, nt) = (nb.clone(), nt.clone());
                        d.hub.s().nest.push(Box::new(move || whole(&format!("index {} nested in a callback of node {}", k, i), &nb, &nt)));
                    }
                    d
                })
            })
            .collect();
        let longest = n.builders.iter().map(|b| b.ops.len()).max().unwrap_or(0);
        for k in 0..longest {
            for (j, b) in n.builders.iter().enumerate() {
                let (Some(d), Some(op)) = (ds[j].as_mut(), b.ops.get(k)) else { continue };
                let mut op = op.clone();
                // abandoned only in the last round
                if round + 1 < rounds && op.fault.as_ref().map_or(false, |f| f.act == "crash") {
                    op.fault = None;
                }
                let r = d.add(&op);
                check(&format!("node {} index {} round {}", i, j, round), &b.spec, k, &op, &r, d, &refs[j][k]);
                noise(n.noise, k, d);
            }
        }
    }
}

/// Other uses of the library next to the builders.
fn noise(kind: u64, k: usize, d: &Driver) {
    match kind {
        1 => sut(|| {
            let (name, code) = vocab::BASE_LANGS[k * 5 % vocab::BASE_LANGS.len()];
            if let Some(l) = elasticlunr::lang::from_name(name) {
                let p = l.make_pipeline();
                let ws = vocab::words(code);
                let t: Vec<&str> = (0..5).map(|i| ws[(k * 7 + i) % ws.len()]).collect();
                let _ = p.run(l.tokenize(&t.join(" ")));
            }
        }),
        2 => sut(|| {
            let mut s = elasticlunr::document_store::DocumentStore::new(k % 2 == 0);
            let mut ix = elasticlunr::inverted_index::InvertedIndex::new();
            for i in 0..4 {
                let r = format!("{}", (i + k) % 5);
                s.add_doc(&r, Default::default());
                s.add_field_length(&r, "title", 77);
                ix.add_token(&r, "noise", 7.5);
                ix.add_token(&r, "no", 1.5);
            }
            s.remove_doc("1");
            ix.remove_token("1", "noise");
        }),
        3 => {
            let text = d.json();
            let mut w = FaultyWriter::new(&[], 64);
            sut(|| {
                let _ = serde_json::to_writer(&mut w, &d.index);
                let l: Result<elasticlunr::Index, _> = serde_json::from_str(&text);
                if let Ok(mut l) = l {
                    let n = l.get_fields().len();
                    l.add_doc("noise", vec!["noise from elsewhere"; n]);
                    let _ = l.to_json_pretty();
                }
            })
        }
        _ => {}
    }
}
