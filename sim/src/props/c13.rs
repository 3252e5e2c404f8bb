//! C13: a search configuration survives storage exactly.
//!
//! Owners edit configurations and store them, in place or by writing aside and renaming, on
//! simulated disks, through writers that fail; their machines crash and come back. Readers load
//! whatever is there at the time, through readers that fail. Whatever bytes are read, they either
//! are a complete image, and then the configuration is the one that was written, or they are not,
//! and then loading reports an error.

use super::*;
use crate::alloc::sut;
use crate::disk::{FaultyReader, FaultyWriter, IoEvent, SimDisk};
use crate::drive::*;
use crate::harness;
use crate::json::{self, J};
use crate::parts::*;
use crate::sched;
use crate::serfault::Rec;
use elasticlunr::config::{SearchOptions, SearchOptionsField};
use serde::Serialize as _;
use serde_derive::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::Write;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Save {
    /// nothing: store again what was loaded
    opts: Option<OptSpec>,
    /// 0 compact, 1 pretty, 2 through a buffer, 3 by way of a JSON value, 4 string, 5 bytes
    how: u8,
    chunk: u64,
    io: Vec<IoEvent>,
    /// write aside and rename
    atomic: bool,
    /// the machine stops after so many disk operations
    crash: Option<u64>,
    crash_seed: u64,
    /// also to a serializer failing at this call
    fail_at: Option<u64>,
    permanent: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Load {
    /// 0 reader, 1 slice, 2 str, 3 JSON value, 4 buffered reader
    how: u8,
    chunk: u64,
    io: Vec<IoEvent>,
    wait_us: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Owner {
    saves: Vec<Save>,
    readers: Vec<Vec<Load>>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Body {
    owners: Vec<Owner>,
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        gen,
        exec,
        runs: (30000, 1_000_000),
        rule: "a case is a plan (1-2 owners storing a history of search configurations on a disk each, with failing writers, crashes and restarts, and 0-2 readers of that disk with failing readers) with a seeded schedule; non-trivial when a sink, a source or a machine failed, and its event log differs from every other run's",
        real: &["elasticlunr::config as built from /repo", "serde, serde_json"],
        stubs: &["disk (volatile and durable contents, crash keeps a part of what is not synced)", "readers and writers (short, interrupted, slow, failing)", "serializer (records its calls, fails at the n-th)"],
        assumptions: &["images are read back as JSON by serde_json", "bytes are not altered at rest: a changed digit would be a valid image of another configuration"],
        warm: nothing,
    }
}

fn gen_opts(rng: &mut Rng) -> OptSpec {
    let mut o = gen_options(rng);
    for _ in 0..rng.below(3) {
        let name = match rng.below(4) {
            0 => rng.pick(&["bool", "expand", "fields", "boost", "OR", "AND", "null", "true"]).to_string(),
            1 => rng.pick(&["\"", "\\", "\u{0}", "\u{1f}\n", "😀", "\u{2028}", "a\"b\\c/d", "\u{feff}", "ключ", "  "]).to_string(),
            _ => vocab::toy_word(rng),
        };
        if !o.fields.iter().any(|f| f.0 == name) {
            let b = |rng: &mut Rng| *rng.pick(&[None, Some(true), Some(false)]);
            let f = (*rng.pick(&[None, Some(0), Some(1), Some(127), Some(128), Some(255)]), b(rng), b(rng));
            o.fields.push((name, f));
        }
    }
    o
}

fn gen(rng: &mut Rng, _run: u64) -> Value {
    let owners = (0..*rng.pick(&[1, 1, 2]))
        .map(|_| {
            let saves = (0..1 + rng.below(7))
                .map(|i| {
                    let fatal = rng.chance(0.35);
                    let kinds: &[&str] = if fatal { &["intr", "short", "err", "zero", "full", "panic", "dead"] } else { &["intr", "short", "stall"] };
                    Save {
                        opts: if i > 0 && rng.chance(0.35) { None } else { Some(gen_opts(rng)) },
                        how: *rng.pick(&[0, 0, 1, 1, 2, 3, 4, 5]),
                        chunk: *rng.pick(&[0, 1, 3, 17]),
                        io: crate::disk::gen_events(rng, 200, kinds, 3),
                        atomic: rng.chance(0.6),
                        crash: if rng.chance(0.3) { Some(rng.below(12)) } else { None },
                        crash_seed: rng.below(1 << 30),
                        fail_at: if rng.chance(0.5) { Some(rng.below(200)) } else { None },
                        permanent: rng.chance(0.4),
                    }
                })
                .collect();
            let readers = (0..rng.below(3))
                .map(|_| {
                    (0..1 + rng.below(8))
                        .map(|_| Load {
                            how: rng.below(5) as u8,
                            chunk: *rng.pick(&[0, 1, 2, 30]),
                            io: if rng.chance(0.5) { crate::disk::gen_events(rng, 200, &["intr", "short", "stall", "err", "panic"], 3) } else { vec![] },
                            wait_us: *rng.pick(&[0, 0, 5, 50]),
                        })
                        .collect()
                })
                .collect();
            Owner { saves, readers }
        })
        .collect();
    serde_json::to_value(Body { owners }).unwrap()
}

/// The complete images so far, and what each stands for.
#[derive(Default)]
struct World {
    disk: SimDisk,
    images: BTreeMap<Vec<u8>, OptSpec>,
    finished: bool,
}

const FILE: &str = "config.json";
const ASIDE: &str = "config.json.new";

fn sorted(s: &OptSpec) -> OptSpec {
    let mut s = s.clone();
    s.fields.sort();
    s
}

/// The options, starting from the library's defaults.
fn built(s: &OptSpec) -> SearchOptions {
    let mut o = SearchOptions::default();
    let full = make_options(s);
    if s.and {
        o.bool = full.bool;
    }
    if s.expand {
        o.expand = true;
    }
    for (f, (boost, and, expand)) in &s.fields {
        let mut x = SearchOptionsField::default();
        if boost.is_some() {
            x.boost = *boost;
        }
        if and.is_some() {
            x.bool = full.fields[f].bool;
        }
        if expand.is_some() {
            x.expand = *expand;
        }
        o.fields.insert(f.clone(), x);
    }
    o
}

/// The image says what the options are: what is set is there, what is not set is not.
fn image_says(text: &[u8], s: &OptSpec) -> Result<(), String> {
    let text = std::str::from_utf8(text).map_err(|e| e.to_string())?;
    let j = json::parse(text)?;
    let boolean = |j: Option<&J>, want: Option<bool>, what: &str| match (j, want) {
        (None, None) => Ok(()),
        (Some(J::Bool(b)), Some(w)) if *b == w => Ok(()),
        (j, w) => Err(format!("{} is {:?} for {:?}", what, j, w)),
    };
    let model = |j: Option<&J>, want: Option<bool>, what: &str| match (j.map(|x| x.str()), want) {
        (None, None) => Ok(()),
        (Some(Some("AND")), Some(true)) | (Some(Some("OR")), Some(false)) => Ok(()),
        (_, w) => Err(format!("{} is {:?} for {:?}", what, j, w.map(|x| if x { "AND" } else { "OR" }))),
    };
    let known = |j: &J, names: &[&str]| match j.keys().iter().find(|k| !names.contains(k)) {
        Some(k) => Err(format!("unknown member {:?}", k)),
        None => Ok(()),
    };
    known(&j, &["bool", "expand", "fields"])?;
    model(j.get("bool"), Some(s.and), "bool")?;
    boolean(j.get("expand"), Some(s.expand), "expand")?;
    let Some(J::Obj(fields)) = j.get("fields") else { return Err("no fields".into()) };
    if fields.len() != s.fields.len() {
        return Err(format!("{} fields instead of {}", fields.len(), s.fields.len()));
    }
    for (f, (boost, and, expand)) in &s.fields {
        let Some(x @ J::Obj(_)) = j.get("fields").unwrap().get(f) else { return Err(format!("field {:?} missing", f)) };
        known(x, &["boost", "bool", "expand"]).map_err(|e| format!("field {:?}: {}", f, e))?;
        match (x.get("boost"), boost) {
            (None, None) => {}
            (Some(j), Some(b)) if j.int() == Some(*b as i64) => {}
            (j, b) => return Err(format!("field {:?}: boost is {:?} for {:?}", f, j, b)),
        }
        model(x.get("bool"), *and, &format!("field {:?}: bool", f))?;
        boolean(x.get("expand"), *expand, &format!("field {:?}: expand", f))?;
    }
    Ok(())
}

fn exec(v: &Value) {
    let b: Body = harness::body(v);
    sched::go_live();
    let mut id = 0;
    for o in b.owners {
        let w: Shared<World> = Shared::new(World::default());
        let me = id;
        let readers = o.readers.clone();
        let w2 = w.clone();
        sched::spawn(id, move || owner(me, o, w2));
        id += 1;
        for r in readers {
            let (me, w) = (id, w.clone());
            sched::spawn(id, move || reader(me, r, w));
            id += 1;
        }
    }
    sched::run();
}

/// Put the options into bytes, or not. `None`: they did not get through.
fn encode(who: &str, o: &SearchOptions, s: &Save) -> (Option<Vec<u8>>, Vec<u8>) {
    let mut w = FaultyWriter::new(&s.io, s.chunk as usize);
    let e = |e: serde_json::Error| e.to_string();
    let mut direct = None;
    let r = guarded(|| match s.how {
        0 => serde_json::to_writer(&mut w, o).map_err(e),
        1 => serde_json::to_writer_pretty(&mut w, o).map_err(e),
        2 => {
            let mut bw = std::io::BufWriter::with_capacity(40, &mut w);
            let r = serde_json::to_writer(&mut bw, o).map_err(e).and_then(|_| bw.flush().map_err(|e| e.to_string()));
            let _ = bw.into_parts();
            r
        }
        3 => {
            direct = Some(serde_json::to_value(o).map_err(e)?.to_string().into_bytes());
            Ok(())
        }
        4 => {
            direct = Some(serde_json::to_string_pretty(o).map_err(e)?.into_bytes());
            Ok(())
        }
        _ => {
            direct = Some(serde_json::to_vec(o).map_err(e)?);
            Ok(())
        }
    });
    let out = direct.unwrap_or_else(|| w.out.clone());
    match r {
        Ok(Ok(())) if w.failed => sched::fail("failure-not-reported", format!("{}: success, though the sink failed after {:?}", who, String::from_utf8_lossy(&out))),
        Ok(Ok(())) => (Some(out.clone()), out),
        Ok(Err(_)) | Err(Added::Injected) if w.failed => {
            sched::count("saves_failed");
            sched::count("nontrivial");
            (None, out)
        }
        Ok(Err(e)) => sched::fail("spurious-failure", format!("{}: {} though the sink never failed for good", who, e)),
        Err(e) => sched::fail("save-panic", format!("{}: {:?}", who, e)),
    }
}

fn owner(me: u64, o: Owner, w: Shared<World>) {
    let mut current = OptSpec::default();
    let mut object = sut(|| built(&current));
    for (n, s) in o.saves.iter().enumerate() {
        let who = format!("owner {} save {}", me, n);
        sched::point();
        sched::count("saves");
        if let Some(x) = &s.opts {
            current = sorted(x);
            object = sut(|| built(&current));
            if sut(|| make_options(&current) != object) {
                sched::fail("defaults-differ", format!("{}: built on the defaults {:?}, built in one go {:?}", who, object, current));
            }
        }
        // a serializer that fails on the way does not matter to what follows
        if let Some(k) = s.fail_at {
            let mut r = Rec { fail_at: Some(k), permanent: s.permanent, ..Default::default() };
            match guarded(|| object.serialize(&mut r)) {
                Ok(Ok(())) if r.failed => sched::fail("failure-not-reported", format!("{}: success, though the serializer failed", who)),
                Ok(Err(e)) if !r.failed => sched::fail("spurious-failure", format!("{}: {}", who, e)),
                Err(e) => sched::fail("save-panic", format!("{}: {:?}", who, e)),
                _ => {}
            }
            if let Some(b) = &r.broken {
                sched::fail("wrong-length-announced", format!("{}: {}", who, b));
            }
        }
        let (done, out) = encode(&who, &object, s);
        if read_options(&object) != current {
            sched::fail("changed-by-save", format!("{}: {:?} instead of {:?}", who, object, current));
        }
        if done.is_some() {
            if let Err(e) = image_says(&out, &current) {
                sched::fail("wrong-image", format!("{}: {}\nimage: {}", who, e, String::from_utf8_lossy(&out)));
            }
            if let Some(x) = w.get().images.insert(out.clone(), current.clone()) {
                if x != current {
                    sched::fail("ambiguous-image", format!("{}: {} stands for {:?} and {:?}", who, String::from_utf8_lossy(&out), x, current));
                }
            }
        }
        slog!("{} {} bytes {}", who, out.len(), done.is_some());
        // onto the disk
        let mut ops = 0;
        let mut down = |w: &mut World| {
            ops += 1;
            if s.crash.map_or(false, |c| ops > c) {
                sched::count("fault.machine_crash");
                sched::count("nontrivial");
                w.disk.crash(&mut Rng::new(s.crash_seed));
                true
            } else {
                false
            }
        };
        let stored = (|| {
            let f = w.get().disk.create(if s.atomic { ASIDE } else { FILE });
            for piece in out.chunks(40) {
                sched::point();
                if down(w.get()) {
                    return false;
                }
                w.get().disk.append(f, piece);
            }
            if done.is_none() && s.atomic {
                return true; // not taken into use
            }
            sched::point();
            if down(w.get()) {
                return false;
            }
            w.get().disk.sync(f);
            if s.atomic {
                w.get().disk.rename(ASIDE, FILE);
                sched::point();
            }
            if down(w.get()) {
                return false;
            }
            w.get().disk.sync_dir();
            true
        })();
        if !stored {
            // start again from what is on the disk
            sched::sleep(20_000);
            sched::count("restarts");
        }
        if !stored || s.opts.is_none() || n % 2 == 1 {
            let l = Load { how: (s.crash_seed % 5) as u8, chunk: s.chunk, io: vec![], wait_us: 0 };
            match w.get().disk.read(FILE) {
                Some(data) => {
                    if let Some((o, spec)) = load(&format!("owner {} after save {}", me, n), &data, &l, &w) {
                        object = o;
                        current = spec;
                    }
                }
                None => sched::count("no_file_yet"),
            }
        }
    }
    w.get().finished = true;
}

fn reader(me: u64, loads: Vec<Load>, w: Shared<World>) {
    for (n, l) in loads.iter().enumerate() {
        sched::sleep(l.wait_us * 1000);
        match w.get().disk.read(FILE) {
            Some(data) => {
                load(&format!("reader {} load {}", me, n), &data, l, &w);
            }
            None => sched::count("no_file_yet"),
        }
    }
}

fn load(who: &str, data: &[u8], l: &Load, w: &Shared<World>) -> Option<(SearchOptions, OptSpec)> {
    sched::count("loads");
    let mut r = FaultyReader::new(data.to_vec(), &l.io, l.chunk as usize);
    let want = w.get().images.get(data).cloned();
    let res = guarded(|| -> Result<SearchOptions, String> {
        let e = |e: serde_json::Error| e.to_string();
        match l.how {
            1 => serde_json::from_slice(data).map_err(e),
            2 => serde_json::from_str(std::str::from_utf8(data).map_err(|e| e.to_string())?).map_err(e),
            3 => serde_json::from_slice::<Value>(data).and_then(serde_json::from_value).map_err(e),
            4 => serde_json::from_reader(std::io::BufReader::with_capacity(29, &mut r)).map_err(e),
            _ => serde_json::from_reader(&mut r).map_err(e),
        }
    });
    let text = String::from_utf8_lossy(&data[..data.len().min(1500)]).into_owned();
    slog!("{} {} bytes, complete {}, {:?}", who, data.len(), want.is_some(), res.as_ref().map(|x| x.is_ok()));
    if r.failed {
        sched::count("nontrivial");
    }
    match (res, want) {
        (Ok(Ok(o)), Some(want)) if !r.failed => {
            let got = read_options(&o);
            if got != want {
                sched::fail("different-configuration", format!("{}: {:?}\nwritten: {:?}\nimage: {}", who, got, want, text));
            }
            if sut(|| o != make_options(&want)) {
                sched::fail("not-equal", format!("{}: the configuration read back is not equal to the original\nimage: {}", who, text));
            }
            sched::count("loads_compared");
            sched::state(sched::fnv(data));
            Some((o, want))
        }
        (Ok(Ok(o)), want) => {
            sched::fail("failure-not-reported", format!("{}: {:?} from {} (source failed: {}, complete image: {})", who, o, text, r.failed, want.is_some()))
        }
        (Ok(Err(e)), Some(_)) if !r.failed => sched::fail("load-refused", format!("{}: {} from the complete image {}", who, e, text)),
        (Ok(Err(_)), _) => {
            sched::count("loads_refused");
            None
        }
        (Err(Added::Injected), _) => None,
        (Err(e), _) => sched::fail("load-panic", format!("{}: {:?} from {}", who, e, text)),
    }
}
