//! C09: a shared inverted index is an exact map from tokens to documents.

use super::*;
use crate::harness;
use crate::model::close;
use crate::parts::*;
#[allow(unused_imports)]
use crate::shared::MaybeNot as _;
use crate::shared::{self, Object, Probe, Step};
use elasticlunr::inverted_index::InvertedIndex;
use serde_derive::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Query {
    Has(String),
    Docs(String),
    Tf(String, String),
    Df(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Body {
    #[serde(default)]
    pub deep: bool,
    clients: Vec<Vec<Step<TokOp, Query>>>,
    seed: u64,
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        gen,
        exec,
        runs: (14000, 300_000),
        rule: "a case is 1-4 clients with scripts of additions, removals and queries on one inverted index under a lock, with backups, process and machine crashes and reloads, and a seeded interleaving; non-trivial when a crash or disk fault happened or clients waited for the lock or were switched inside the library, and its event log differs from every other run's",
        real: REAL,
        stubs: &["clients", "read-write lock (simulated)", "disk (torn and lost unsynced writes, full)"],
        assumptions: &["weights are finite; after a reload compared within rounding", "the empty token is left out"],
        warm: nothing,
    }
}

fn gen(rng: &mut Rng, _run: u64) -> Value {
    let n = *rng.pick(&[2, 4, 8, 20]);
    let mut toks = token_pool(rng, n);
    let deep = rng.chance(0.04);
    if deep {
        let k = 101 + rng.usize(500);
        let long: String = (0..k).map(|_| *rng.pick(&['a', 'b', 'é', '日'])).collect();
        toks.truncate(2);
        toks.push(long.chars().take(k - 1).collect());
        toks.push(long.chars().take(1 + rng.usize(k)).collect());
        toks.push(long);
    }
    let crowd = crowd(rng);
    let nr = crowd.unwrap_or_else(|| *rng.pick(&[1, 2, 3, 8]));
    let refs = ref_pool(rng, nr);
    let nc = *rng.pick(&[1, 2, 2, 3, 4]);
    let len = *rng.pick(&[5, 15, 40]);
    let mut clients: Vec<Vec<Step<TokOp, Query>>> = (0..nc)
        .map(|_| {
            shared::gen_steps(rng, len, &mut |rng| tok_op(rng, &refs, &toks), &mut |rng| {
                let mut t = rng.pick(&toks).clone();
                match rng.below(8) {
                    2 | 3 => t = vocab::kin(rng, &t),
                    0 => {
                        let k = 1 + rng.usize(t.chars().count());
                        t = t.chars().take(k).collect();
                    }
                    1 => t.push(*rng.pick(&['a', 'é', 'x', ' '])),
                    _ => {}
                }
                match rng.below(4) {
                    0 => Query::Has(t),
                    1 => Query::Docs(t),
                    2 => Query::Tf(rng.pick(&refs).clone(), t),
                    _ => Query::Df(t),
                }
            })
        })
        .collect();
    if crowd.is_some() {
        let t = rng.pick(&toks).clone();
        let mut all: Vec<TokOp> = refs.iter().map(|r| TokOp::Add(r.clone(), t.clone(), weight(rng))).collect();
        rng.shuffle(&mut all);
        let at = rng.usize(clients[0].len() + 1);
        clients[0].insert(at, Step::Batch(all));
    }
    serde_json::to_value(Body { deep, clients, seed: rng.u64() >> 12 }).unwrap()
}

pub struct Inverted {
    pub deep: bool,
}

fn docs_diff(got: &Option<BTreeMap<String, f64>>, want: &Option<BTreeMap<String, f64>>) -> bool {
    match (got, want) {
        (None, None) => false,
        (Some(a), Some(b)) => a.len() != b.len() || a.iter().zip(b).any(|((x, p), (y, q))| x != y || !close(*p, *q)),
        _ => true,
    }
}

impl Object for Inverted {
    type Sut = InvertedIndex;
    type Model = TokModel;
    type Op = TokOp;
    type Query = Query;
    fn shareable() -> bool {
        Probe::<InvertedIndex>(std::marker::PhantomData).shareable()
    }
    fn durable(&self) -> bool {
        !self.deep
    }
    fn fresh(&self) -> (InvertedIndex, TokModel) {
        (InvertedIndex::new(), TokModel { deep: self.deep, ..Default::default() })
    }
    fn decided(m: &TokModel, op: &TokOp) -> bool {
        let (TokOp::Add(_, t, _) | TokOp::Remove(_, t)) = op;
        // the JSON reader has a nesting limit
        !t.is_empty() && (m.deep || t.chars().count() <= 100)
    }
    fn apply(s: &mut InvertedIndex, op: &TokOp) {
        apply_tok(s, op)
    }
    fn model(m: &mut TokModel, op: &TokOp) {
        m.apply(op)
    }
    fn query(s: &InvertedIndex, m: &TokModel, q: &Query) -> Option<String> {
        let known = |t: &str| m.known.contains(t);
        let docs = |t: &str| known(t).then(|| m.post.get(t).cloned().unwrap_or_default());
        match q {
            Query::Has(t) | Query::Docs(t) | Query::Tf(_, t) | Query::Df(t) if t.is_empty() => None,
            Query::Has(t) => (s.has_token(t) != known(t)).then(|| format!("{} instead of {}", s.has_token(t), known(t))),
            Query::Docs(t) => {
                let (a, b) = (s.get_docs(t), docs(t));
                docs_diff(&a, &b).then(|| format!("{:?} instead of {:?}", a, b))
            }
            Query::Tf(d, t) => {
                let (a, b) = (s.get_term_frequency(d, t), m.post.get(t).and_then(|x| x.get(d)).copied().unwrap_or(0.0));
                (!close(a, b)).then(|| format!("{:?} instead of {:?}", a, b))
            }
            Query::Df(t) => {
                let (a, b) = (s.get_doc_frequency(t), m.post.get(t).map_or(0, |x| x.len()) as i64);
                (a != b).then(|| format!("{} instead of {}", a, b))
            }
        }
    }
    fn audit(s: &InvertedIndex, m: &TokModel, image: &str) -> Option<String> {
        if let Some(d) = diff_inverted(image, m) {
            return Some(format!("image: {}", d));
        }
        for t in &m.known {
            let longer = format!("{}\u{1}", t);
            let mut qs = vec![Query::Has(t.clone()), Query::Docs(t.clone()), Query::Df(t.clone()), Query::Has(longer.clone()), Query::Docs(longer)];
            if let Some(d) = m.post.get(t) {
                qs.extend(d.keys().map(|d| Query::Tf(d.clone(), t.clone())));
            }
            for q in qs {
                if let Some(d) = Self::query(s, m, &q) {
                    return Some(format!("{:?}: {}", q, d));
                }
            }
        }
        (shared::text_of(s) != image).then(|| "the queries changed the image".into())
    }
}

fn exec(v: &Value) {
    let b: Body = harness::body(v);
    shared::run(Inverted { deep: b.deep }, b.clients, b.seed);
    let st = &crate::sched::sim().stats;
    if st.contains_key("lock_contended") || st.contains_key("preemptions_in_library") {
        crate::sched::count("nontrivial");
    }
}
