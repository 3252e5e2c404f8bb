//! C12: caller code runs exactly once, in order, on the right data.

use super::*;
use crate::alloc::sut;
use crate::disk::{FaultyWriter, IoEvent};
use crate::drive::*;
use crate::harness;
use crate::model::{Contrib, Image, Model};
use crate::sched;
use serde_derive::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    Add(DocOp),
    Save(u8, Vec<IoEvent>),
    /// a pipeline used on its own
    Run(Vec<String>, Option<Fault>),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Builder {
    spec: IndexSpec,
    steps: Vec<Step>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Body {
    builders: Vec<Builder>,
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        gen,
        exec,
        runs: (14000, 300_000),
        rule: "a case is 1-2 builders with adds, saves and direct pipeline runs, all caller code behind recording seams, with failures injected at planned calls, and a seeded interleaving; non-trivial when a fault fired, and its event log differs from every other run's",
        real: REAL,
        stubs: &["document source, iterator, items and field tokenizers (plan)", "toy language in some runs; otherwise the real language behind the recording seam"],
        assumptions: &["the order between different pipeline functions is only constrained by what the properties say: each function's own calls in token order"],
        warm: nothing,
    }
}

fn gen(rng: &mut Rng, _run: u64) -> Value {
    let builders = (0..*rng.pick(&[1, 1, 1, 2]))
        .map(|_| {
            let lang = super::c02::pick_lang(rng);
            let mut spec = gen_spec(rng, &lang, 8);
            spec.wrap = true;
            normalise(&mut spec);
            let n = *rng.pick(&[2, 5, 15]);
            let pool = vocab::pool(rng, &lang, n);
            let nd = 1 + rng.usize(8);
            let mut steps: Vec<Step> = (0..nd)
                .map(|i| match rng.below(10) {
                    0 => Step::Save(rng.below(3) as u8, crate::disk::gen_events(rng, 800, &["intr", "short", "err", "full"], 2)),
                    1 => {
                        let toks: Vec<String> = (0..rng.below(8)).map(|_| rng.pick(&pool).clone()).collect();
                        let f = rng.chance(0.4).then(|| Fault { site: "fn".into(), nth: rng.below(3 * toks.len() as u64 + 1), act: "panic".into(), arg: 0 });
                        Step::Run(toks, f)
                    }
                    _ => {
                        let k = if rng.chance(0.3) { rng.usize(nd) } else { i };
                        let r = vocab::doc_ref(rng, k);
                        let mut values = gen_values(rng, &spec, &r, &pool, 8);
                        if values.len() > 1 && rng.chance(0.2) {
                            // the same text twice
                            let (a, b) = (rng.usize(values.len()), rng.usize(values.len()));
                            if spec.fields[a] != spec.ref_field && spec.fields[b] != spec.ref_field {
                                values[b] = values[a].clone();
                            }
                        }
                        let mut op = DocOp { r, values, fault: None };
                        if rng.chance(0.4) {
                            let act = *rng.pick(&["panic", "panic", "panic", "stall"]);
                            op.fault = Some(gen_fault(rng, &spec, &op, act));
                        }
                        Step::Add(op)
                    }
                })
                .collect();
            stretch(rng, &spec, steps.iter_mut().filter_map(|s| if let Step::Add(o) = s { Some(o) } else { None }).collect(), &pool, 700);
            Builder { spec, steps }
        })
        .collect();
    serde_json::to_value(Body { builders }).unwrap()
}

fn exec(v: &Value) {
    let b: Body = harness::body(v);
    if b.builders.iter().any(|b| !b.spec.wrap) {
        harness::bad_body("not behind the seam");
    }
    sched::go_live();
    for (i, bu) in b.builders.into_iter().enumerate() {
        sched::spawn(i as u64, move || builder(i, bu));
    }
    sched::run();
}

/// What was called during one add, whatever the fields' turns: each function may be called token by
/// token or stage by stage, field by field or after all fields were tokenized.
#[derive(Default, Debug)]
struct Flow {
    /// tokenizer calls and what they gave
    toks: Vec<(Call, Option<Vec<String>>)>,
    /// per function: inputs, outputs
    fns: BTreeMap<usize, (Vec<String>, Vec<Option<String>>)>,
}

impl Flow {
    fn of(calls: &[Call]) -> Result<Flow, String> {
        let mut f = Flow::default();
        for c in calls {
            match c {
                Call::Iter | Call::AsRef => {}
                Call::Tok(_) | Call::Ftok(..) => f.toks.push((c.clone(), None)),
                Call::TokRet(t) => match f.toks.last_mut() {
                    Some(u) if u.1.is_none() => u.1 = Some(t.clone()),
                    _ => return Err("a result before any call".into()),
                },
                Call::Fn(k, t) => f.fns.entry(*k).or_default().0.push(t.clone()),
                Call::FnRet(k, t) => f.fns.entry(*k).or_default().1.push(t.clone()),
            }
        }
        Ok(f)
    }

    /// Each function got what the one before let through, in order. `part`: it may have stopped on
    /// the way. Returns what came out, by tokenizer call.
    fn check(&self, nfns: usize, part: bool) -> Result<Vec<Vec<String>>, String> {
        let mut want: Vec<(usize, String)> = Vec::new();
        for (i, (_, ts)) in self.toks.iter().enumerate() {
            want.extend(ts.iter().flatten().map(|t| (i, t.clone())));
        }
        if let Some(k) = self.fns.keys().find(|k| **k >= nfns) {
            return Err(format!("function {} called, but the pipeline has {}", k, nfns));
        }
        for k in 0..nfns {
            let none = (vec![], vec![]);
            let (ins, outs) = self.fns.get(&k).unwrap_or(&none);
            let fine = ins.len() <= want.len() && ins.iter().zip(&want).all(|(a, b)| *a == b.1) && (part || ins.len() == want.len());
            if !fine {
                return Err(format!("function {} was called with {:?} instead of {:?}", k, ins, want.iter().map(|w| &w.1).collect::<Vec<_>>()));
            }
            want = outs.iter().zip(&want).filter_map(|(o, w)| o.clone().map(|o| (w.0, o))).collect();
        }
        let mut v = vec![Vec::new(); self.toks.len()];
        for (i, t) in want {
            v[i].push(t);
        }
        Ok(v)
    }
}

fn builder(me: usize, bu: Builder) {
    let spec = bu.spec.clone();
    let hub = Hub::new();
    hub.s().record = true;
    let index = make_index(&spec, &hub);
    let nfns = base_language(&spec.lang).make_pipeline().queue.len();
    let pipeline = sut(|| sim_language(&spec.lang, &hub).make_pipeline());
    let mut d = Driver { index, hub };
    silent(&d, me, "building");
    let mut model = Model::new(&spec.fields, &spec.ref_field, spec.save);
    let mut pending: Vec<DocOp> = Vec::new();
    let mut steps = bu.steps.clone();
    let n = steps.len();
    let mut k = 0;
    while k < steps.len() {
        let st = steps[k].clone();
        match &st {
            Step::Add(op) => {
                let r = d.add(op);
                let calls = std::mem::take(&mut d.hub.s().calls);
                sched::add("calls_recorded", calls.len() as u64);
                slog!("b{} step {} add {:?} {:?}: {} calls {:x}", me, k, op.r, r, calls.len(), sched::fnv(format!("{:?}", calls).as_bytes()));
                sched::state(sched::fnv(format!("{:?}", calls).as_bytes()));
                let bad = |m: String| -> ! { sched::fail("wrong-calls", format!("builder {} step {} add_doc({:?}, {:?}) -> {:?}: {}", me, k, op.r, op.values, r, m)) };
                let failed = match &r {
                    Added::Done => false,
                    Added::Injected => true,
                    Added::Panicked(m) => sched::fail("unexpected-panic", format!("add_doc({:?}): {}", op.r, m)),
                };
                if failed {
                    // the call that failed is the last thing that happened
                    let f = op.fault.as_ref().unwrap();
                    let fits = match calls.last() {
                        Some(Call::Iter) => f.site == "iter",
                        Some(Call::AsRef) => f.site == "asref",
                        Some(Call::Tok(_)) => f.site == "tok",
                        Some(Call::Ftok(..)) => f.site == "ftok",
                        Some(Call::Fn(..)) => f.site == "fn",
                        _ => false,
                    };
                    let at = calls.iter().filter(|c| matches!((c, f.site.as_str()), (Call::Iter, "iter") | (Call::AsRef, "asref") | (Call::Tok(_), "tok") | (Call::Ftok(..), "ftok") | (Call::Fn(..), "fn"))).count() as u64;
                    if !fits || at != f.nth + 1 {
                        bad(format!("after the failure at {} {} more was called; last {:?}", f.site, f.nth, calls.last()));
                    }
                }
                let flow = match Flow::of(&calls) {
                    Ok(f) => f,
                    Err(e) => bad(e),
                };
                let want: Vec<Call> = op
                    .values
                    .iter()
                    .enumerate()
                    .take(spec.fields.len())
                    .filter(|(i, _)| spec.fields[*i] != spec.ref_field)
                    .map(|(i, v)| if spec.custom.contains(&i) { Call::Ftok(i, v.clone()) } else { Call::Tok(v.clone()) })
                    .collect();
                let got: Vec<Call> = flow.toks.iter().map(|u| u.0.clone()).collect();
                if if failed { !want.starts_with(&got) } else { got != want } {
                    bad(format!("tokenizers called {:?} instead of {:?}", got, want));
                }
                let outs = match flow.check(nfns, failed) {
                    Ok(o) => o,
                    Err(e) => bad(e),
                };
                if failed {
                    pending.push(op.clone());
                } else {
                    // another text, interrupted before, may have left weights of its own
                    pending.retain(|p| p.r != op.r || p.values != op.values);
                    // what came out of the last function is what is indexed
                    let mut it = outs.into_iter();
                    for (i, _) in op.values.iter().enumerate() {
                        if spec.fields[i] != spec.ref_field {
                            model.apply_field(&op.r, &spec.fields[i], &Contrib::of_tokens(&it.next().unwrap_or_default()));
                        }
                    }
                    model.list(&op.r, &op.values);
                }
            }
            Step::Save(how, io) => {
                sut(|| match how {
                    0 => {
                        let _ = d.index.to_json();
                    }
                    1 => {
                        let _ = d.index.to_json_pretty();
                        let _ = d.index.get_fields();
                    }
                    _ => {
                        let mut w = FaultyWriter::new(io, 20);
                        let _ = serde_json::to_writer(&mut w, &d.index);
                    }
                });
                sched::count("saves");
                silent(&d, me, "saving");
            }
            Step::Run(toks, f) => {
                d.hub.arm(f.clone());
                let r = guarded(|| pipeline.run(toks.clone()));
                d.hub.s().fault = None;
                let mut calls = vec![Call::Tok(String::new()), Call::TokRet(toks.clone())];
                calls.append(&mut d.hub.s().calls);
                sched::count("pipeline_runs");
                let flow = Flow::of(&calls).unwrap_or_default();
                let failed = matches!(r, Err(Added::Injected));
                let bad = |m: String| -> ! { sched::fail("wrong-calls", format!("builder {} step {} Pipeline::run({:?}): {}", me, k, toks, m)) };
                if flow.toks.len() != 1 {
                    bad("a tokenizer was called".into());
                }
                match (flow.check(nfns, failed).map(|o| o.concat()), &r) {
                    (Err(e), _) => bad(e),
                    (Ok(o), Ok(got)) if o != *got => bad(format!("returned {:?} instead of {:?}", got, o)),
                    (_, Err(Added::Panicked(m))) => bad(format!("panicked: {}", m)),
                    _ => {}
                }
            }
        }
        k += 1;
        if k == n {
            // finish what was interrupted
            for op in std::mem::take(&mut pending) {
                steps.push(Step::Add(DocOp { fault: None, ..op }));
            }
        }
    }
    // Every document's last text is indexed; terms of an earlier, interrupted or replaced text may
    // remain, so look at what is there for each of the recorded terms.
    let text = d.json();
    silent(&d, me, "saving");
    match Image::parse(&text) {
        Err(e) => sched::fail("image", e),
        Ok(im) => {
            for f in &spec.fields {
                for (t, docs) in &model.post[f] {
                    for (doc, w) in docs {
                        let got = im.index[f].post.get(t).and_then(|p| p.get(doc));
                        if !got.map_or(false, |g| crate::model::close(*g, *w)) {
                            sched::fail("indexed-differs", format!("builder {} field {:?} term {:?} document {:?}: {:?} instead of {}", me, f, t, doc, got, w));
                        }
                    }
                }
            }
            for (doc, fs) in &model.info {
                for (f, n) in fs {
                    if im.info.get(doc).and_then(|x| x.get(f)) != Some(n) {
                        sched::fail("indexed-differs", format!("builder {} length of {:?} in {:?}: {:?} instead of {}", me, f, doc, im.info.get(doc), n));
                    }
                }
            }
        }
    }
    let hub = d.hub.clone();
    drop(d);
    if !hub.s().calls.is_empty() {
        sched::fail("called-outside-add", format!("builder {}: dropping the index called {:?}", me, hub.s().calls));
    }
}

fn silent(d: &Driver, me: usize, when: &str) {
    if !d.hub.s().calls.is_empty() {
        sched::fail("called-outside-add", format!("builder {}: {} called {:?}", me, when, d.hub.s().calls));
    }
}
