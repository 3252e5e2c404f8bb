//! C10: a shared document store tracks exactly the documents it holds.

use super::*;
use crate::harness;
use crate::parts::*;
#[allow(unused_imports)]
use crate::shared::MaybeNot as _;
use crate::shared::{self, Object, Probe, Step};
use elasticlunr::document_store::DocumentStore;
use serde_derive::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Query {
    Has(String),
    Get(String),
    Len(String, String),
    Size,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Body {
    save: bool,
    clients: Vec<Vec<Step<StoreOp, Query>>>,
    seed: u64,
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        gen,
        exec,
        runs: (14000, 300_000),
        rule: "a case is 1-4 clients with scripts of additions, updates, removals, field lengths and queries on one document store under a lock, with backups, process and machine crashes and reloads, and a seeded interleaving; non-trivial when a crash or disk fault happened or clients waited for the lock or were switched inside the library, and its event log differs from every other run's",
        real: REAL,
        stubs: &["clients", "read-write lock (simulated)", "disk (torn and lost unsynced writes, full)"],
        assumptions: &["what a removal does to field lengths recorded for a document that was never listed is left open"],
        warm: nothing,
    }
}

fn gen(rng: &mut Rng, _run: u64) -> Value {
    let crowd = crowd(rng);
    let nr = crowd.unwrap_or_else(|| *rng.pick(&[1, 2, 3, 10]));
    let refs = ref_pool(rng, nr);
    let nf = 1 + rng.usize(4);
    let fields = vocab::fields(rng, nf);
    let nc = *rng.pick(&[1, 2, 2, 3, 4]);
    let len = *rng.pick(&[5, 15, 40]);
    let mut clients: Vec<Vec<Step<StoreOp, Query>>> = (0..nc)
        .map(|_| {
            shared::gen_steps(rng, len, &mut |rng| store_op(rng, &refs, &fields), &mut |rng| {
                let mut r = rng.pick(&refs).clone();
                if rng.chance(0.2) {
                    r = vocab::kin(rng, &r);
                }
                match rng.below(4) {
                    0 => Query::Has(r),
                    1 => Query::Get(r),
                    2 => Query::Len(r, rng.pick(&fields).clone()),
                    _ => Query::Size,
                }
            })
        })
        .collect();
    if crowd.is_some() {
        let mut all: Vec<StoreOp> = refs.iter().map(|r| StoreOp::Add(r.clone(), doc(rng))).collect();
        rng.shuffle(&mut all);
        let at = rng.usize(clients[0].len() + 1);
        clients[0].insert(at, Step::Batch(all));
    }
    serde_json::to_value(Body { save: rng.chance(0.7), clients, seed: rng.u64() >> 12 }).unwrap()
}

pub struct Store(pub bool);

impl Object for Store {
    type Sut = DocumentStore;
    type Model = StoreModel;
    type Op = StoreOp;
    type Query = Query;
    fn shareable() -> bool {
        Probe::<DocumentStore>(std::marker::PhantomData).shareable()
    }
    fn fresh(&self) -> (DocumentStore, StoreModel) {
        (DocumentStore::new(self.0), StoreModel { save: self.0, ..Default::default() })
    }
    fn decided(m: &StoreModel, op: &StoreOp) -> bool {
        !m.open_question(op)
    }
    fn apply(s: &mut DocumentStore, op: &StoreOp) {
        apply_store(s, op)
    }
    fn model(m: &mut StoreModel, op: &StoreOp) {
        m.apply(op)
    }
    fn query(s: &DocumentStore, m: &StoreModel, q: &Query) -> Option<String> {
        match q {
            Query::Has(r) => {
                let (a, b) = (s.has_doc(r), m.docs.contains_key(r));
                (a != b).then(|| format!("{} instead of {}", a, b))
            }
            Query::Get(r) => {
                let (a, b) = (s.get_doc(r), m.docs.get(r).cloned());
                (a != b).then(|| format!("{:?} instead of {:?}", a, b))
            }
            Query::Len(r, f) => {
                if !m.docs.contains_key(r) && m.info.contains_key(r) {
                    return None;
                }
                let (a, b) = (s.get_field_length(r, f) as u64, m.info.get(r).and_then(|x| x.get(f)).copied().unwrap_or(0));
                (a != b).then(|| format!("{} instead of {}", a, b))
            }
            Query::Size => {
                let (a, b) = ((s.len(), s.length, s.is_empty(), s.is_stored(), s.save), (m.docs.len(), m.docs.len(), m.docs.is_empty(), m.save, m.save));
                (a != b).then(|| format!("(len, length, is_empty, is_stored, save) {:?} instead of {:?}", a, b))
            }
        }
    }
    fn audit(s: &DocumentStore, m: &StoreModel, image: &str) -> Option<String> {
        if let Some(d) = diff_store(image, m) {
            return Some(format!("image: {}", d));
        }
        let mut qs = vec![Query::Size, Query::Has("no such document".into()), Query::Get("no such document".into())];
        for r in m.docs.keys().chain(m.info.keys()) {
            qs.push(Query::Has(r.clone()));
            qs.push(Query::Get(r.clone()));
            qs.push(Query::Len(r.clone(), "no such field".into()));
            for f in m.info.get(r).into_iter().flat_map(|x| x.keys()) {
                qs.push(Query::Len(r.clone(), f.clone()));
            }
        }
        for q in qs {
            if let Some(d) = Self::query(s, m, &q) {
                return Some(format!("{:?}: {}", q, d));
            }
        }
        // a copy is a store of its own
        let mut c = s.clone();
        if shared::text_of(&c) != image {
            return Some("a clone differs".into());
        }
        for r in m.docs.keys() {
            c.remove_doc(r);
        }
        c.add_doc("one more", Default::default());
        (shared::text_of(s) != image).then(|| "queries or changes to a clone changed the image".into())
    }
}

fn exec(v: &Value) {
    let b: Body = harness::body(v);
    shared::run(Store(b.save), b.clients, b.seed);
    let st = &crate::sched::sim().stats;
    if st.contains_key("lock_contended") || st.contains_key("preemptions_in_library") {
        crate::sched::count("nontrivial");
    }
}
