//! C06: a saved index can be loaded after a restart and continued.

use super::*;
use crate::alloc::{host, sut};
use crate::disk::{FaultyReader, IoEvent, SimDisk};
use crate::drive::*;
use crate::harness;
use crate::model::{diff_images, Image};
use crate::net::{self, Net, NetSpec};
use crate::sched;
use elasticlunr::Index;
use serde_derive::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::{self, Write};

/// The builder's process or machine stops at its n-th chance since it was started.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Crash {
    at: u64,
    machine: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Body {
    spec: IndexSpec,
    docs: Vec<DocOp>,
    /// checkpoint after this many documents
    every: u64,
    pretty: bool,
    chunk: u64,
    /// per checkpoint: faults of its writes
    writes: Vec<Vec<IoEvent>>,
    /// per start: how the image is read, 0 reader, 1 slice, 2 str, 3 value, 4 buffered reader
    reads: Vec<(u8, u64, Vec<IoEvent>)>,
    crashes: Vec<Crash>,
    net: NetSpec,
    window: u64,
    resend_us: u64,
    disk_seed: u64,
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        gen,
        exec,
        runs: (9000, 200_000),
        rule: "a case is a sequence of documents and updates sent over a faulty network to a builder that checkpoints its index (temporary file, sync, rename, directory sync), is stopped at planned points of that protocol or of its adds (process killed, or machine crash losing unsynced data) and restarted from the last durable image; non-trivial when a crash, disk, network or callback fault fired, and its event log differs from every other run's",
        real: REAL,
        stubs: &["disk (volatile and durable side, torn and lost writes, full)", "network", "document source with resending", "process supervisor"],
        assumptions: &["the reference is the library itself, building the same documents in one go in a process of its own", "weights compared within rounding (the JSON reader may be one unit off)"],
        warm: nothing,
    }
}

fn gen(rng: &mut Rng, _run: u64) -> Value {
    let lang = if rng.chance(0.4) { "English".to_string() } else { rng.pick(vocab::BASE_LANGS).0.to_string() };
    let mut spec = gen_spec(rng, &lang, 8);
    spec.wrap = false;
    spec.custom.clear();
    normalise(&mut spec);
    let n = *rng.pick(&[3, 8, 20]);
    let mut pool = vocab::pool(rng, &lang, n);
    let crowd = crowd(rng);
    let nd = crowd.unwrap_or_else(|| if rng.chance(0.05) { 30 } else { 1 + rng.usize(12) });
    if crowd.is_some() {
        crowd_pool(rng, &mut pool);
    }
    let mut docs: Vec<DocOp> = (0..nd)
        .map(|i| {
            let k = if rng.chance(0.2) { rng.usize(nd) } else { i };
            let r = vocab::doc_ref(rng, k);
            let mut values = gen_values(rng, &spec, &r, &pool, if crowd.is_some() { 4 } else { 8 });
            if rng.chance(0.003) {
                emphasise(rng, &spec, &mut values, &pool);
            }
            let mut op = DocOp { r, values, fault: None };
            if rng.chance(0.1) {
                op.fault = Some(gen_fault(rng, &spec, &op, "panic"));
            }
            op
        })
        .collect();
    stretch(rng, &spec, docs.iter_mut().collect(), &pool, 100);
    let ev = |rng: &mut Rng| crate::disk::gen_events(rng, 1500, &["intr", "short", "stall", "intr", "short", "stall", "full", "err", "zero"], 2);
    let mut b = Body {
        spec,
        docs,
        every: 1 + rng.below(5),
        pretty: rng.chance(0.25),
        chunk: *rng.pick(&[0, 20, 100, 1000]),
        writes: (0..rng.below(8)).map(|_| ev(rng)).collect(),
        reads: (0..12)
            .map(|_| (rng.below(5) as u8, *rng.pick(&[0, 1, 10, 500]), crate::disk::gen_events(rng, 1500, &["intr", "short", "stall"], 2)))
            .collect(),
        crashes: (0..*rng.pick(&[0, 1, 1, 2, 3, 4, 6, 10])).map(|_| {
            let max = *rng.pick(&[6, 30, 100, 300]);
            Crash { at: rng.below(max), machine: rng.chance(0.5) }
        }).collect(),
        net: net::gen(rng),
        window: 1 + rng.below(6),
        resend_us: *rng.pick(&[500, 5000, 40_000]),
        disk_seed: rng.u64() >> 12,
    };
    if crowd.is_some() {
        b.every = 150;
        b.window = 100;
        b.chunk = 0;
        b.crashes.truncate(3);
        for c in &mut b.crashes {
            c.at = rng.below(1200);
        }
    }
    serde_json::to_value(b).unwrap()
}

#[derive(Clone)]
enum Msg {
    Doc(usize),
    Ack(usize),
}

struct World {
    disk: SimDisk,
    rng: Rng,
    net: Net,
    /// where the builder runs now
    addr: usize,
    source_done: bool,
    saves: u64,
    /// chances to crash passed by the current incarnation
    chances: u64,
    incarnation: usize,
}

type W = Shared<World>;
const FILE: &str = "index";
const TMP: &str = "index.tmp";

fn exec(v: &Value) {
    let b: Body = harness::body(v);
    if b.crashes.len() > 20 || b.spec.wrap || !b.spec.custom.is_empty() {
        harness::bad_body("too many crashes, or not a plain index");
    }
    let (spec, docs) = (b.spec.clone(), b.docs.clone());
    let want = harness::isolated(move || {
        let mut d = Driver::new(&spec);
        for op in &docs {
            if d.add(&DocOp { fault: None, ..op.clone() }) != Added::Done {
                return None;
            }
        }
        Some(d.json())
    });
    let Ok(Some(want)) = want else {
        sched::count("reference_unavailable");
        return;
    };
    sched::go_live();
    let w: W = Shared::new(World {
        disk: SimDisk::default(),
        rng: Rng::derive(b.disk_seed, "disk"),
        net: Net::new(&b.net),
        addr: 1,
        source_done: b.docs.is_empty(),
        saves: 0,
        chances: 0,
        incarnation: 0,
    });
    let (b0, w0) = (b.clone(), w.clone());
    sched::spawn(0, move || source(b0, w0));
    sched::spawn(1, move || builder(0, b, w, want));
    sched::run();
}

fn source(b: Body, w: W) {
    let mut durable = 0;
    let mut rounds = 0;
    while durable < b.docs.len() {
        rounds += 1;
        if rounds > 3000 + 20 * b.docs.len() {
            sched::fail("no-progress", format!("{} of {} documents acknowledged after {} rounds", durable, b.docs.len(), rounds));
        }
        for i in durable..(durable + b.window.max(1) as usize).min(b.docs.len()) {
            let to = w.get().addr;
            w.get().net.send(to, Msg::Doc(i));
        }
        let until = sched::now() + b.resend_us.max(100) * 1000;
        while sched::now() < until && durable < b.docs.len() {
            match sched::recv(Some(until - sched::now())) {
                Some(m) => {
                    if let Ok(m) = m.downcast::<Msg>() {
                        if let Msg::Ack(n) = *m {
                            durable = durable.max(n);
                        }
                    }
                }
                None => break,
            }
        }
    }
    w.get().source_done = true;
}

/// A point where this incarnation may stop. Whatever is in memory is gone; a new one is started.
fn chance(b: &Body, w: &W, want: &str) {
    host(|| {
        let s = w.get();
        let n = s.chances;
        s.chances += 1;
        let Some(c) = b.crashes.get(s.incarnation) else { return };
        if c.at != n {
            return;
        }
        sched::count("nontrivial");
        if c.machine {
            sched::count("fault.machine_crash");
            s.disk.crash(&mut s.rng);
        } else {
            sched::count("fault.process_killed");
        }
        slog!("incarnation {} dies at chance {} (machine {})", s.incarnation, n, c.machine);
        s.incarnation += 1;
        s.chances = 0;
        let k = s.incarnation;
        let (b, w, want) = (b.clone(), w.clone(), want.to_string());
        s.addr = sched::spawn(1 + k as u64, move || builder(k, b, w, want));
        sched::die();
    })
}

/// A file on the simulated disk, written piece by piece.
struct Out<'a> {
    b: &'a Body,
    w: &'a W,
    want: &'a str,
    file: u64,
    pos: u64,
    events: Vec<IoEvent>,
    gone: bool,
}

impl Write for Out<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        host(|| {
            sched::point();
            if self.gone {
                return Err(io::Error::from_raw_os_error(libc::ENOSPC));
            }
            let mut n = buf.len();
            if self.b.chunk > 0 {
                n = n.min(self.b.chunk as usize);
            }
            if self.events.first().map_or(false, |e| e.at <= self.pos) {
                let e = self.events.remove(0);
                match e.kind.as_str() {
                    "intr" => {
                        sched::count("fault.write_interrupted");
                        return Err(io::Error::new(io::ErrorKind::Interrupted, "simulated"));
                    }
                    "short" => {
                        sched::count("fault.write_short");
                        n = n.min(1);
                    }
                    "stall" => {
                        sched::count("fault.write_slow");
                        sched::sleep(e.arg.max(1));
                    }
                    "zero" => {
                        sched::count("fault.write_accepts_nothing");
                        return Ok(0);
                    }
                    "full" => {
                        sched::count("fault.disk_full");
                        self.gone = true;
                        return Err(io::Error::from_raw_os_error(libc::ENOSPC));
                    }
                    _ => {
                        sched::count("fault.write_error_transient");
                        return Err(io::Error::new(io::ErrorKind::Other, "simulated"));
                    }
                }
            }
            self.w.get().disk.append(self.file, &buf[..n]);
            self.pos += n as u64;
            chance(self.b, self.w, self.want);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Save the index and the number of the next document, so that afterwards the old or the new state
/// is found, whatever happens on the way.
fn checkpoint(k: usize, b: &Body, w: &W, want: &str, index: &Index, next: usize) -> bool {
    let mut io = b.writes.get(w.get().saves as usize).cloned().unwrap_or_default();
    io.sort_by_key(|e| e.at);
    w.get().saves += 1;
    let file = w.get().disk.create(TMP);
    let mut out = io::BufWriter::with_capacity(64, Out { b, w, want, file, pos: 0, events: io, gone: false });
    let r = sut(|| {
        writeln!(out, "{}", next)?;
        if b.pretty {
            serde_json::to_writer_pretty(&mut out, index)?;
        } else {
            serde_json::to_writer(&mut out, index)?;
        }
        out.flush()
    });
    // not what BufWriter still holds
    let _ = out.into_parts();
    chance(b, w, want);
    if let Err(e) = r {
        slog!("incarnation {} save failed: {}", k, e);
        sched::count("saves_failed");
        sched::count("nontrivial");
        return false;
    }
    w.get().disk.sync(file);
    sched::point();
    chance(b, w, want);
    w.get().disk.rename(TMP, FILE);
    sched::point();
    chance(b, w, want);
    w.get().disk.sync_dir();
    slog!("incarnation {} saved up to {}", k, next);
    chance(b, w, want);
    sched::count("saves");
    true
}

fn load(k: usize, b: &Body, text: &str) -> Index {
    let none = (1, 0, vec![]);
    let (how, chunk, io) = b.reads.get(k).unwrap_or(&none);
    let mut r = FaultyReader::new(text.as_bytes().to_vec(), io, *chunk as usize);
    let res = guarded(|| match how {
        0 => serde_json::from_reader(&mut r),
        1 => serde_json::from_slice::<Index>(text.as_bytes()),
        2 => serde_json::from_str(&text.to_string()),
        3 => serde_json::from_str::<Value>(text).and_then(serde_json::from_value),
        _ => serde_json::from_reader(io::BufReader::with_capacity(37, &mut r)),
    });
    sched::count(["loads_from_reader", "loads_from_slice", "loads_from_str", "loads_from_value", "loads_from_buffered_reader"][(*how).min(4) as usize]);
    match res {
        Ok(Ok(i)) => i,
        Ok(Err(e)) => sched::fail("load-refused", format!("start {}: the saved index does not load: {}", k, e)),
        Err(e) => sched::fail("load-panic", format!("start {}: loading the saved index: {:?}", k, e)),
    }
}

fn image(what: &str, text: &str) -> Image {
    match Image::parse(text) {
        Ok(i) => i,
        Err(e) => sched::fail("image", format!("{}: {}", what, e)),
    }
}

fn builder(k: usize, b: Body, w: W, want: String) {
    sched::point();
    // what is found may be a rename not yet durable; make it so before promising anything
    w.get().disk.sync_dir();
    let saved = w.get().disk.read(FILE);
    let (index, mut next) = match saved {
        None => (make_index(&b.spec, &Hub::new()), 0),
        Some(data) => {
            let text = String::from_utf8(data).unwrap_or_default();
            let (head, text) = text.split_once('\n').unwrap_or(("", ""));
            let Ok(next) = head.parse::<usize>() else {
                sched::harness_error(format!("the disk lost a durable file: {:?}", head));
            };
            chance(&b, &w, &want);
            let index = load(k, &b, text);
            chance(&b, &w, &want);
            let back = sut(|| index.to_json());
            slog!("incarnation {} loaded up to {}: {:x}", k, next, sched::fnv(text.as_bytes()));
            if let Some(d) = diff_images(&image("saved", text), &image("loaded", &back)) {
                sched::fail("loaded-differs", format!("start {}: {}", k, d));
            }
            if index.get_fields() != b.spec.fields {
                sched::fail("loaded-differs", format!("start {}: fields {:?} instead of {:?}", k, index.get_fields(), b.spec.fields));
            }
            sched::count("restarts_from_image");
            (index, next)
        }
    };
    let mut d = Driver { index, hub: Hub::new() };
    let mut durable = next;
    let mut tried: BTreeMap<usize, u64> = BTreeMap::new();
    let mut idle = 0;
    loop {
        if next > durable && (next - durable >= b.every.max(1) as usize || next == b.docs.len() || idle > 0) {
            if checkpoint(k, &b, &w, &want, &d.index, next) {
                durable = next;
                w.get().net.send(0, Msg::Ack(durable));
            } else {
                // as before the save, and tried again
                sched::sleep(1_000_000);
            }
        }
        if w.get().source_done {
            break;
        }
        let m = sched::recv(Some(20_000_000));
        idle = 0;
        let Some(m) = m else {
            idle += 1;
            continue;
        };
        let Ok(m) = m.downcast::<Msg>() else { continue };
        let Msg::Doc(i) = *m else { continue };
        if i < durable {
            w.get().net.send(0, Msg::Ack(durable));
        }
        if i != next {
            // sent again: somebody waits for it to be durable
            idle += (i < next) as u64;
            continue;
        }
        let mut op = b.docs[i].clone();
        let t = tried.entry(i).or_default();
        *t += 1;
        if *t > 1 {
            op.fault = None;
        }
        chance(&b, &w, &want);
        match d.add(&op) {
            Added::Done => {
                slog!("incarnation {} add {}", k, i);
                next += 1;
            }
            Added::Injected => slog!("incarnation {} add {} interrupted", k, i),
            Added::Panicked(m) => sched::fail("unexpected-panic", format!("add_doc({:?}) panicked: {}", op.r, m)),
        }
        chance(&b, &w, &want);
        sched::state(sched::fnv(format!("{} {} {}", next, durable, k).as_bytes()));
    }
    // everything is durable: what is on the disk and in memory is what one go would have given
    let mem = sut(|| d.index.to_json());
    if let Some(x) = diff_images(&image("in one go", &want), &image("in memory", &mem)) {
        sched::fail("continued-differs", format!("in memory, after {} restarts: {}", k, x));
    }
    if let Some(data) = w.get().disk.read(FILE) {
        let text = String::from_utf8(data).unwrap_or_default();
        let text = text.split_once('\n').map_or("", |x| x.1).to_string();
        let loaded = load(b.reads.len(), &b, &text);
        let back = sut(|| loaded.to_json());
        if let Some(x) = diff_images(&image("in one go", &want), &image("on disk", &back)) {
            sched::fail("continued-differs", format!("on disk, after {} restarts: {}", k, x));
        }
        sched::count("images_compared");
    }
}
