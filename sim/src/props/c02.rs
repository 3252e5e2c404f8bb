//! C02: an interrupted add is contained, and retrying it converges.

use super::*;
use crate::drive::*;
use crate::harness;
use crate::model::{Image, Tracker};
use crate::sched;
use serde_derive::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step {
    op: DocOp,
    /// look at the image afterwards
    look: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Builder {
    spec: IndexSpec,
    steps: Vec<Step>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Body {
    builders: Vec<Builder>,
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        gen,
        exec,
        runs: (16000, 400_000),
        rule: "a case is a plan (1-2 builders, each with a history of adds, most of them failing at a chosen call of the caller's code, repeated and finally retried) with a seeded schedule; non-trivial when at least one fault fired and its event log differs from every other run's",
        real: REAL,
        stubs: &["document source, iterator, items and field tokenizers (plan)", "toy language in some runs; otherwise the real language behind the seam"],
        assumptions: &["what one text contributes to one field is taken from the library itself, from an index with only that text built in a process of its own"],
        warm: nothing,
    }
}

pub fn pick_lang(rng: &mut Rng) -> String {
    match rng.below(10) {
        0..=3 => "English".into(),
        4 => "Toy0".into(),
        5..=8 if rng.chance(0.15) => format!("Parts{}", rng.below(24)),
        5..=7 if rng.chance(0.7) => format!("Toy{}", 1 + rng.below(3)),
        5..=7 => format!("Toy{}", 4 + rng.below(7)),
        _ => rng.pick(vocab::BASE_LANGS).0.into(),
    }
}

fn gen(rng: &mut Rng, _run: u64) -> Value {
    let builders = (0..*rng.pick(&[1, 1, 1, 2]))
        .map(|_| {
            let lang = pick_lang(rng);
            let mut spec = gen_spec(rng, &lang, 8);
            if rng.chance(0.5) {
                spec.wrap = true;
                normalise(&mut spec);
            }
            let size = *rng.pick(&[2, 5, 12]);
            let pool = vocab::pool(rng, &lang, size);
            let docs = 1 + rng.usize(7);
            let mut steps = Vec::new();
            for i in 0..docs {
                let r = vocab::doc_ref(rng, i);
                let mut values = gen_values(rng, &spec, &r, &pool, 8);
                for _ in 0..1 + rng.below(4) {
                    let mut op = DocOp { r: r.clone(), values: values.clone(), fault: None };
                    if rng.chance(0.06) {
                        // more values than fields
                        while op.values.len() <= spec.fields.len() {
                            op.values.push("surplus".into());
                        }
                    }
                    if rng.chance(0.7) {
                        let act = *rng.pick(&["panic", "panic", "panic", "panic", "stall"]);
                        op.fault = Some(gen_fault(rng, &spec, &op, act));
                    }
                    steps.push(Step { op, look: rng.chance(0.6) });
                    if rng.chance(0.15) {
                        // an update of the same document
                        values = gen_values(rng, &spec, &r, &pool, 8);
                    }
                }
            }
            if rng.chance(0.02) && !steps.is_empty() {
                // one add is interrupted over and over
                let i = rng.usize(steps.len());
                let s = Step { look: false, ..steps[i].clone() };
                if s.op.fault.is_some() {
                    let n = *rng.pick(&[40, 130, 300]);
                    steps.splice(i..i, (0..n).map(|_| s.clone()));
                }
            }
            stretch(rng, &spec, steps.iter_mut().map(|s| &mut s.op).collect(), &pool, 400);
            if rng.chance(0.6) {
                rng.shuffle(&mut steps);
            }
            Builder { spec, steps }
        })
        .collect();
    serde_json::to_value(Body { builders }).unwrap()
}

fn exec(v: &Value) {
    let b: Body = harness::body(v);
    let mut oracles = Vec::new();
    for bu in &b.builders {
        let texts = texts_of(&bu.spec, bu.steps.iter().map(|s| &s.op));
        match solo_oracle(&bu.spec, &texts) {
            Ok(o) => oracles.push(o),
            Err(e) => {
                slog!("reference unavailable: {}", e);
                sched::count("reference_unavailable");
                return;
            }
        }
    }
    sched::go_live();
    for (i, bu) in b.builders.into_iter().enumerate() {
        let oracle = oracles[i].clone();
        sched::spawn(i as u64, move || builder(i, bu, oracle));
    }
    sched::run();
}

fn builder(i: usize, bu: Builder, oracle: Oracle) {
    let spec = bu.spec;
    let mut d = Driver::new(&spec);
    let mut t = Tracker::new(&spec.fields, &spec.ref_field, spec.save);
    let contrib = |k: usize, s: &str| oracle[&(k, s.to_string())].clone();
    let mut pending: Vec<DocOp> = Vec::new();
    for st in &bu.steps {
        let op = &st.op;
        apply(i, &mut d, &mut t, op, &contrib, spec.fields.len(), &mut pending);
        if st.look {
            look(&d, &mut t, pending.is_empty(), &format!("after add_doc({:?})", op.r));
        }
    }
    // retry everything that is still open
    for op in std::mem::take(&mut pending) {
        sched::count("retries");
        let mut op = DocOp { fault: None, ..op };
        op.values.truncate(spec.fields.len());
        apply(i, &mut d, &mut t, &op, &contrib, spec.fields.len(), &mut pending);
    }
    look(&d, &mut t, pending.is_empty(), "after all retries");
}

fn apply(i: usize, d: &mut Driver, t: &mut Tracker, op: &DocOp, c: &dyn Fn(usize, &str) -> crate::model::Contrib, n: usize, pending: &mut Vec<DocOp>) {
    match d.add(op) {
        Added::Done => {
            slog!("b{} add {:?}", i, op.r);
            t.done(&op.r, &op.values[..n.min(op.values.len())], c);
            pending.retain(|p| p.r != op.r);
        }
        Added::Panicked(m) if op.values.len() <= n => {
            sched::fail("unexpected-panic", format!("add_doc({:?}) panicked: {}", op.r, m))
        }
        r => {
            if r != Added::Injected {
                sched::count("fault.too_many_values");
                sched::count("nontrivial");
            }
            slog!("b{} add {:?} interrupted", i, op.r);
            t.interrupted(&op.r, &op.values, c);
            pending.retain(|p| p.r != op.r);
            pending.push(op.clone());
        }
    }
}

fn look(d: &Driver, t: &mut Tracker, settled: bool, when: &str) {
    let text = match guarded(|| d.index.to_json()) {
        Ok(t) => t,
        Err(e) => sched::fail("save-panics", format!("{}: {:?}", when, e)),
    };
    sched::count("images_checked");
    sched::state(sched::fnv(text.as_bytes()));
    let im = match Image::parse(&text) {
        Ok(i) => i,
        Err(e) => sched::fail("inconsistent-image", format!("{}: {}", when, e)),
    };
    if let Err(e) = t.check(&im) {
        sched::fail("content", format!("{}: {}", when, e));
    }
    if settled {
        for f in &t.fields {
            let want = t.nodes(f);
            if im.index[f].nodes != want {
                let x: Vec<_> = im.index[f].nodes.symmetric_difference(&want).take(3).collect();
                sched::fail("content", format!("{}: field {:?} knows other prefixes than one uninterrupted add gives, e.g. {:?}", when, f, x));
            }
        }
    }
}
