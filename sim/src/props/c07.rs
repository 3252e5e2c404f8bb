//! C07: a failing sink is reported, loses nothing and leaves the index unchanged.

use super::*;
use crate::alloc::sut;
use crate::disk::{FaultyWriter, IoEvent};
use crate::drive::*;
use crate::harness;
use crate::parts::*;
use crate::sched;
use crate::serfault::Rec;
use elasticlunr::config::SearchOptions;
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use serde::Serialize;
use serde_derive::Deserialize;
use serde_json::Value;
use std::io::Write;

#[derive(serde_derive::Serialize, Deserialize, Clone, Debug)]
pub enum What {
    Index(IndexSpec, Vec<DocOp>),
    Inverted(Vec<TokOp>),
    Store(bool, Vec<StoreOp>),
    Options(OptSpec),
}

#[derive(serde_derive::Serialize, Deserialize, Clone, Debug)]
struct Attempt {
    /// 0 compact, 1 pretty, 2 serializer, 3 compact through a buffer, 4 value
    how: u8,
    chunk: u64,
    /// positions are taken modulo the length of the output
    io: Vec<IoEvent>,
    fail_at: Option<u64>,
    permanent: bool,
    /// how often this is done
    #[serde(default)]
    times: u64,
}

#[derive(serde_derive::Serialize, Deserialize, Clone, Debug)]
struct Saver {
    what: What,
    /// of the operations, this many (in per mille) come before the saves
    before: u64,
    attempts: Vec<Attempt>,
}

#[derive(serde_derive::Serialize, Deserialize, Clone, Debug)]
struct Body {
    savers: Vec<Saver>,
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        gen,
        exec,
        runs: (14000, 300_000),
        rule: "a case is 1-3 objects (index, inverted index or document store) with a history, each saved several times to writers and serializers with faults at planned positions, and an interleaving of these saves; non-trivial when an unrecoverable fault was reported by a sink, and its event log differs from every other run's",
        real: REAL,
        stubs: &["writers (short, interrupted, slow, failing once or for good, full, accepting nothing, panicking)", "serializer (records its calls, fails at the n-th once or for good)"],
        assumptions: &["the complete image is what an undisturbed save of an equal object gives, in a process of its own"],
        warm: nothing,
    }
}

pub fn gen_what(rng: &mut Rng) -> What {
    match rng.below(6) {
        0 => {
            let n = 1 + rng.usize(12);
            let toks = token_pool(rng, n);
            let refs = ref_pool(rng, 4);
            if rng.chance(0.03) {
                // a node with many children
                let (n, r) = (100 + rng.below(300) as u32, rng.pick(&refs).clone());
                return What::Inverted((0..n).map(|i| TokOp::Add(r.clone(), format!("{}{}", toks[0], char::from_u32(0x400 + 7 * i).unwrap()), 1)).collect());
            }
            What::Inverted((0..rng.below(25)).map(|_| tok_op(rng, &refs, &toks)).collect())
        }
        1 => {
            let refs = ref_pool(rng, 5);
            let n = 1 + rng.usize(4);
            let fields = vocab::fields(rng, n);
            What::Store(rng.chance(0.7), (0..rng.below(20)).map(|_| store_op(rng, &refs, &fields)).collect())
        }
        _ => {
            let lang = super::c02::pick_lang(rng);
            let spec = gen_spec(rng, &lang, 6);
            let n = *rng.pick(&[2, 6, 15]);
            let pool = vocab::pool(rng, &lang, n);
            let mut ops: Vec<DocOp> = (0..rng.below(7))
                .map(|i| {
                    let r = vocab::doc_ref(rng, i as usize);
                    let values = gen_values(rng, &spec, &r, &pool, 6);
                    let mut op = DocOp { r, values, fault: None };
                    if rng.chance(0.1) {
                        op.fault = Some(gen_fault(rng, &spec, &op, "panic"));
                    }
                    op
                })
                .collect();
            stretch(rng, &spec, ops.iter_mut().collect(), &pool, 100);
            What::Index(spec, ops)
        }
    }
}

fn gen(rng: &mut Rng, _run: u64) -> Value {
    let savers = (0..*rng.pick(&[1, 1, 2, 3]))
        .map(|_| {
            let what = gen_what(rng);
            let attempts = (0..1 + rng.below(8))
                .map(|_| {
                    let fatal = rng.chance(0.75);
                    let kinds: &[&str] = if fatal {
                        &["intr", "short", "stall", "err", "err", "zero", "full", "panic", "dead"]
                    } else {
                        &["intr", "short", "stall"]
                    };
                    let len = *rng.pick(&[60, 400, 3000, 1 << 40]);
                    Attempt {
                        how: *rng.pick(&[0, 0, 1, 2, 2, 3, 4]),
                        chunk: *rng.pick(&[0, 0, 1, 2, 9, 100]),
                        io: crate::disk::gen_events(rng, len, kinds, 4),
                        fail_at: if rng.chance(0.8) { Some(rng.below(1 << 40)) } else { None },
                        permanent: rng.chance(0.4),
                        times: 1,
                    }
                })
                .collect();
            let mut attempts: Vec<Attempt> = attempts;
            if rng.chance(0.02) {
                // a sink that is out of order for long
                let i = rng.usize(attempts.len());
                attempts[i].times = *rng.pick(&[70, 300, 1100]);
            }
            Saver { what, before: rng.below(1001), attempts }
        })
        .collect();
    serde_json::to_value(Body { savers }).unwrap()
}

pub enum Obj {
    Index(Box<Driver>),
    Inverted(InvertedIndex),
    Store(DocumentStore),
    Options(SearchOptions),
}

impl Serialize for Obj {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Obj::Index(d) => d.index.serialize(s),
            Obj::Inverted(i) => i.serialize(s),
            Obj::Store(d) => d.serialize(s),
            Obj::Options(d) => d.serialize(s),
        }
    }
}

impl Obj {
    pub fn new(w: &What) -> Obj {
        match w {
            What::Index(s, _) => Obj::Index(Box::new(Driver::new(s))),
            What::Inverted(_) => Obj::Inverted(InvertedIndex::new()),
            What::Store(save, _) => Obj::Store(DocumentStore::new(*save)),
            What::Options(o) => Obj::Options(make_options(o)),
        }
    }
    pub fn feed(&mut self, w: &What, i: usize) {
        match (self, w) {
            (Obj::Index(d), What::Index(_, ops)) => {
                if let Added::Panicked(m) = d.add(&ops[i]) {
                    sched::fail("unexpected-panic", format!("add_doc({:?}): {}", ops[i].r, m));
                }
            }
            (Obj::Inverted(x), What::Inverted(ops)) => {
                if let Err(e) = guarded(|| apply_tok(x, &ops[i])) {
                    sched::fail("unexpected-panic", format!("{:?}: {:?}", ops[i], e));
                }
            }
            (Obj::Store(x), What::Store(_, ops)) => {
                if let Err(e) = guarded(|| apply_store(x, &ops[i])) {
                    sched::fail("unexpected-panic", format!("{:?}: {:?}", ops[i], e));
                }
            }
            _ => {}
        }
    }
    fn full(&self) -> Full {
        let mut r = Rec::default();
        sut(|| {
            let _ = self.serialize(&mut r);
            Full {
                compact: serde_json::to_string(self).unwrap_or_default(),
                pretty: serde_json::to_string_pretty(self).unwrap_or_default(),
                events: r.events,
                value: serde_json::to_value(self).map_or(String::new(), |v| v.to_string()),
            }
        })
    }
}

#[derive(serde_derive::Serialize, Deserialize, Clone, PartialEq)]
struct Full {
    compact: String,
    pretty: String,
    events: Vec<String>,
    /// members in the order of their names
    value: String,
}

pub fn len_of(w: &What) -> usize {
    match w {
        What::Index(_, o) => o.len(),
        What::Inverted(o) => o.len(),
        What::Store(_, o) => o.len(),
        What::Options(_) => 0,
    }
}

fn exec(v: &Value) {
    let mut b: Body = harness::body(v);
    for s in &mut b.savers {
        if let What::Store(_, ops) = &mut s.what {
            *ops = without_open_questions(ops);
        }
    }
    let mut refs = Vec::new();
    for s in &b.savers {
        let s = s.clone();
        let r = harness::isolated(move || {
            let n = len_of(&s.what);
            let k = (n as u64 * s.before.min(1000) / 1000) as usize;
            let mut o = Obj::new(&s.what);
            for i in 0..k {
                o.feed(&s.what, i);
            }
            let a = o.full();
            // the later part in an object that was never saved
            let mut o = Obj::new(&s.what);
            for i in 0..n {
                o.feed(&s.what, i);
            }
            (k as u64, a, o.full())
        });
        match r {
            Ok(r) => refs.push(r),
            Err(_) => {
                sched::count("reference_unavailable");
                return;
            }
        }
    }
    sched::go_live();
    for (i, (s, (k, a, z))) in b.savers.into_iter().zip(refs).enumerate() {
        sched::spawn(i as u64, move || saver(i, s, k as usize, a, z));
    }
    sched::run();
}

fn saver(me: usize, s: Saver, k: usize, want: Full, last: Full) {
    let mut o = Obj::new(&s.what);
    for i in 0..k {
        o.feed(&s.what, i);
    }
    for (n, a) in s.attempts.iter().enumerate() {
        sched::point();
        for t in 0..a.times.clamp(1, 3000) {
            let mut a = a.clone();
            // it fails somewhere else each time
            a.io.iter_mut().for_each(|e| e.at = e.at.wrapping_add(t * 3));
            a.fail_at = a.fail_at.map(|x| x.wrapping_add(t));
            attempt(me, n, &o, &a, &want);
        }
        // an undisturbed save delivers what it always did
        let now = o.full();
        if now != want {
            sched::fail("changed-by-save", format!("object {} after save {} ({:?}): {}", me, n, a, cut(&now.compact, &want.compact)));
        }
        sched::state(sched::fnv(now.compact.as_bytes()) ^ n as u64);
    }
    for i in k..len_of(&s.what) {
        o.feed(&s.what, i);
    }
    let now = o.full();
    if now != last {
        sched::fail("changed-by-save", format!("object {}, continued after its saves: {}", me, cut(&now.compact, &last.compact)));
    }
    // and that is everything it holds
    let bad = match &s.what {
        What::Index(..) => crate::model::Image::parse(&now.compact).err(),
        What::Inverted(ops) => {
            let mut m = TokModel::default();
            ops.iter().for_each(|x| m.apply(x));
            diff_inverted(&now.compact, &m)
        }
        What::Store(save, ops) => {
            let mut m = StoreModel { save: *save, ..Default::default() };
            ops.iter().for_each(|x| m.apply(x));
            diff_store(&now.compact, &m)
        }
        What::Options(_) => None,
    };
    if let Some(e) = bad {
        sched::fail("wrong-image", format!("object {}: {}", me, e));
    }
    sched::count("images_compared");
}

fn cut(got: &str, want: &str) -> String {
    let at = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    let c = |s: &str| {
        let b = s.as_bytes();
        String::from_utf8_lossy(&b[at.saturating_sub(60).min(b.len())..(at + 60).min(b.len())]).into_owned()
    };
    format!("at byte {} ...{} instead of ...{}", at, c(got), c(want))
}

fn attempt(me: usize, n: usize, o: &Obj, a: &Attempt, want: &Full) {
    sched::count("saves");
    let name = format!("object {} save {}", me, n);
    if a.how == 4 {
        sched::count("saves_to_value");
        match guarded(|| serde_json::to_value(o)) {
            Ok(Ok(v)) => {
                if v.to_string() != want.value {
                    sched::fail("wrong-value", format!("{}: {}", name, cut(&v.to_string(), &want.value)));
                }
            }
            e => sched::fail("value-failed", format!("{}: {:?}", name, e)),
        }
        return;
    }
    if a.how == 2 {
        let total = want.events.len() as u64;
        let mut r = Rec { fail_at: a.fail_at.map(|x| x % total.max(1)), permanent: a.permanent, ..Default::default() };
        let res = guarded(|| o.serialize(&mut r));
        slog!("{} serializer {:?} -> {:?} after {} calls", name, r.fail_at, res.as_ref().map(|x| x.is_ok()), r.calls);
        if let Some(e) = &r.broken {
            sched::fail("wrong-length-announced", format!("{}: {}", name, e));
        }
        judge(&name, "serializer", res.map(|x| x.map_err(|e| e.to_string())), r.failed, r.events == want.events, want.events.starts_with(&r.events), || {
            format!("{:?} ... {} events", r.events.iter().rev().take(5).collect::<Vec<_>>(), r.events.len())
        });
        return;
    }
    let full = if a.how == 1 { &want.pretty } else { &want.compact };
    let mut io = a.io.clone();
    for e in &mut io {
        e.at %= full.len() as u64;
    }
    let mut w = FaultyWriter::new(&io, a.chunk as usize);
    let res = guarded(|| match a.how {
        0 => serde_json::to_writer(&mut w, o).map_err(|e| e.to_string()),
        1 => serde_json::to_writer_pretty(&mut w, o).map_err(|e| e.to_string()),
        _ => {
            let mut bw = std::io::BufWriter::with_capacity(50, &mut w);
            let r = serde_json::to_writer(&mut bw, o).map_err(|e| e.to_string()).and_then(|_| bw.flush().map_err(|e| e.to_string()));
            let _ = bw.into_parts();
            r
        }
    });
    slog!("{} writer {} -> {:?} after {} bytes", name, a.how, res.as_ref().map(|x| x.is_ok()), w.out.len());
    judge(&name, "writer", res, w.failed, w.out == full.as_bytes(), full.as_bytes().starts_with(&w.out), || cut(&String::from_utf8_lossy(&w.out), full));
}

fn judge(name: &str, kind: &str, res: Result<Result<(), String>, Added>, failed: bool, complete: bool, prefix: bool, show: impl Fn() -> String) {
    if failed {
        sched::count("nontrivial");
    }
    match res {
        Ok(Ok(())) if failed => sched::fail("failure-not-reported", format!("{} to a {}: success reported, though the sink failed; {}", name, kind, show())),
        Ok(Ok(())) if !complete => sched::fail("incomplete-success", format!("{} to a {}: success reported, but {}", name, kind, show())),
        Ok(Ok(())) => sched::count("saves_succeeded"),
        Ok(Err(e)) if !failed => sched::fail("spurious-failure", format!("{} to a {}: {} though the sink never failed for good", name, kind, e)),
        Ok(Err(_)) => sched::count("saves_failed"),
        Err(Added::Injected) => sched::count("saves_panicked_by_sink"),
        Err(e) => sched::fail("save-panic", format!("{} to a {}: {:?}", name, kind, e)),
    }
    if !prefix {
        sched::fail("not-a-prefix", format!("{} to a {}: {}", name, kind, show()));
    }
}
