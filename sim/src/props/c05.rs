//! C05: arrival order and repeated delivery of documents do not matter.

use super::*;
use crate::drive::*;
use crate::harness;
use crate::net::{self, Net, NetSpec};
use crate::sched;
use serde_derive::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Body {
    spec: IndexSpec,
    docs: Vec<DocOp>,
    /// which source sends which document
    sources: u64,
    /// faults hitting the n-th add of each builder
    faults: Vec<(u64, Fault)>,
    builders: u64,
    net: NetSpec,
    /// how many unacknowledged documents a source keeps in flight
    window: u64,
    resend_us: u64,
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        gen,
        exec,
        runs: (9000, 200_000),
        rule: "a case is a set of documents sent by 1-3 sources over a faulty network with resending until acknowledged, to 1-2 builders whose adds are sometimes interrupted; non-trivial when a network or callback fault fired, and its event log differs from every other run's",
        real: REAL,
        stubs: &["network (loss, duplication, delay, reordering, partitions)", "document sources with resending", "field tokenizers and iterators (plan)"],
        assumptions: &["the canonical index is built by the library itself, in a process of its own, from each document once in ascending order of position"],
        warm: nothing,
    }
}

fn gen(rng: &mut Rng, _run: u64) -> Value {
    let lang = super::c02::pick_lang(rng);
    let spec = gen_spec(rng, &lang, 8);
    let n = *rng.pick(&[3, 8, 20]);
    let mut pool = vocab::pool(rng, &lang, n);
    let crowd = crowd(rng);
    let nd = crowd.unwrap_or_else(|| if rng.chance(0.05) { 40 } else { 2 + rng.usize(10) });
    if crowd.is_some() {
        crowd_pool(rng, &mut pool);
    }
    let mut docs: Vec<DocOp> = (0..nd)
        .map(|i| {
            let r = vocab::doc_ref(rng, i);
            let mut values = gen_values(rng, &spec, &r, &pool, if crowd.is_some() { 4 } else { 8 });
            if rng.chance(0.003) {
                emphasise(rng, &spec, &mut values, &pool);
            }
            DocOp { r, values, fault: None }
        })
        .collect();
    stretch(rng, &spec, docs.iter_mut().collect(), &pool, 700);
    let faults = (0..rng.below(6))
        .map(|_| {
            let d = rng.usize(nd);
            let act = *rng.pick(&["panic", "panic", "stall"]);
            (rng.below(2 * nd as u64), gen_fault(rng, &spec, &docs[d], act))
        })
        .collect();
    let b = Body {
        spec,
        docs,
        sources: 1 + rng.below(3),
        faults,
        builders: 1 + rng.below(2),
        net: net::gen(rng),
        window: if crowd.is_some() { 80 } else { 1 + rng.below(6) },
        resend_us: if crowd.is_some() { 40_000 } else { *rng.pick(&[500, 5000, 40_000]) },
    };
    serde_json::to_value(b).unwrap()
}

#[derive(Clone)]
enum Msg {
    Doc { from: usize, source: usize, i: usize },
    Ack { builder: usize, i: usize },
}

fn exec(v: &Value) {
    let b: Body = harness::body(v);
    let (spec, docs) = (b.spec.clone(), b.docs.clone());
    let want = harness::isolated(move || {
        let mut d = Driver::new(&spec);
        for op in &docs {
            if d.add(op) != Added::Done {
                return None;
            }
        }
        Some((d.json(), d.json_pretty()))
    });
    let Ok(Some(want)) = want else {
        sched::count("reference_unavailable");
        return;
    };
    sched::go_live();
    let net = Shared::new(Net::new(&b.net));
    let done: Shared<u64> = Shared::new(0);
    let nb = b.builders.max(1) as usize;
    let ns = b.sources.max(1) as usize;
    for i in 0..nb {
        let (b, net, done, want) = (b.clone(), net.clone(), done.clone(), want.clone());
        sched::spawn(i as u64, move || builder(i, b, net, done, ns as u64, want));
    }
    for s in 0..ns {
        let (b, net, done) = (b.clone(), net.clone(), done.clone());
        let me = nb + s;
        sched::spawn(me as u64, move || source(s, ns, nb, me, b, net, done));
    }
    sched::run();
}

fn source(s: usize, ns: usize, nb: usize, me: usize, b: Body, net: Shared<Net>, done: Shared<u64>) {
    let mut open: Vec<(usize, usize)> = Vec::new();
    for i in (0..b.docs.len()).filter(|i| i % ns == s) {
        for k in 0..nb {
            open.push((k, i));
        }
    }
    let mut rounds = 0;
    // a builder that is slower than the resends is given more time
    let mut patience = 1;
    while !open.is_empty() {
        rounds += 1;
        if rounds > 3000 + 20 * b.docs.len() {
            sched::fail("no-progress", format!("source {} still has {:?} unacknowledged after {} rounds", s, open, rounds));
        }
        for &(k, i) in open.iter().take(b.window.max(1) as usize) {
            if rounds > 1 {
                sched::count("resends");
            }
            net.get().send(k, Msg::Doc { from: me, source: s, i });
        }
        // collect acknowledgements until the time to resend
        let before = open.len();
        let until = sched::now() + b.resend_us.max(100) * 1000 * patience;
        while sched::now() < until {
            match sched::recv(Some(until - sched::now())) {
                Some(m) => {
                    if let Ok(m) = m.downcast::<Msg>() {
                        if let Msg::Ack { builder, i } = *m {
                            open.retain(|&x| x != (builder, i));
                            if open.is_empty() {
                                break;
                            }
                        }
                    }
                }
                None => break,
            }
        }
        if before - open.len() < before.min(b.window.max(1) as usize) {
            patience = (patience * 2).min(64);
        }
    }
    *done.get() += 1;
}

fn builder(me: usize, b: Body, net: Shared<Net>, done: Shared<u64>, ns: u64, want: (String, String)) {
    let mut d = Driver::new(&b.spec);
    let mut n = 0u64;
    let limit = 5000 + 400 * b.docs.len() as u64;
    let mut complete = std::collections::BTreeSet::new();
    loop {
        let m = sched::recv(Some(20_000_000));
        let Some(m) = m else {
            if *done.get() >= ns {
                break;
            }
            continue;
        };
        let Ok(m) = m.downcast::<Msg>() else { continue };
        let Msg::Doc { from, source, i } = *m else { continue };
        let mut op = b.docs[i].clone();
        op.fault = b.faults.iter().find(|f| f.0 == n).map(|f| f.1.clone());
        n += 1;
        match d.add(&op) {
            Added::Done => {
                slog!("b{} add {} from {}", me, i, source);
                if !complete.insert(i) {
                    sched::count("documents_added_again");
                }
                net.get().send(from, Msg::Ack { builder: me, i });
            }
            Added::Injected => slog!("b{} add {} interrupted", me, i),
            Added::Panicked(m) => sched::fail("unexpected-panic", format!("add_doc({:?}) panicked: {}", op.r, m)),
        }
        sched::state(sched::fnv(format!("{:?}", complete).as_bytes()));
        if n > limit {
            sched::fail("no-progress", format!("{} adds of {} documents", n, b.docs.len()));
        }
    }
    for (got, want) in [(d.json(), &want.0), (d.json_pretty(), &want.1)] {
        slog!("b{} final {:x}", me, sched::fnv(got.as_bytes()));
        if got != *want {
            let at = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
            let cut = |s: &str| {
                let b = s.as_bytes();
                String::from_utf8_lossy(&b[at.saturating_sub(80).min(b.len())..(at + 120).min(b.len())]).into_owned()
            };
            sched::fail("order-dependent", format!("builder {} after all documents arrived, at byte {}:\nhere:      ...{}\nin order:  ...{}", me, at, cut(&got), cut(want)));
        }
    }
    sched::count("images_compared");
}
