//! C08: a damaged or incomplete saved image never crashes the loader.

use super::c07::{gen_what, len_of, Obj, What};
use super::*;
use crate::alloc::sut;
use crate::disk::{FaultyReader, IoEvent, SimDisk};
use crate::drive::*;
use crate::harness;
use crate::json::{self, J};
use crate::parts::*;
use crate::sched;
use elasticlunr::config::SearchOptions;
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use elasticlunr::Index;
use serde_derive::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Harm {
    /// undamaged, however it is read
    None,
    /// cut off at this byte (modulo the length)
    Truncate(u64),
    /// the reader fails here (modulo the length), by an error or a panic
    ReadError(u64, bool),
    /// the n-th required part is not there
    Missing(u64),
    /// bytes are changed: position (modulo the length), kind, argument
    Bytes(Vec<(u64, u8, u64)>),
    /// values or names are replaced: n-th value, kind
    Values(Vec<(u64, u8)>),
    /// written over the file without a temporary one, and the machine crashed
    Torn(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Load {
    harm: Harm,
    /// 0 reader, 1 slice, 2 str, 3 value, 4 buffered reader
    how: u8,
    chunk: u64,
    io: Vec<IoEvent>,
    /// how often this is done
    #[serde(default)]
    times: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Loader {
    what: What,
    pretty: bool,
    loads: Vec<Load>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Body {
    loaders: Vec<Loader>,
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        gen,
        exec,
        runs: (14000, 300_000),
        rule: "a case is 1-2 loaders, each with a saved object (index of a built-in language, inverted index, document store, search configuration) that is loaded several times from images truncated, lacking a part, damaged in bytes or values, torn by a crash or read through a failing or slow reader, and an interleaving of these loads; non-trivial when a damage, crash or reader fault was applied, and its event log differs from every other run's",
        real: REAL,
        stubs: &["readers (short, interrupted, slow, failing, panicking)", "disk (torn and lost unsynced writes)", "damage to stored bytes"],
        assumptions: &["images are damaged, not forged: nothing is claimed about what a load that succeeds on altered bytes contains, only that it can be queried and written out"],
        warm: nothing,
    }
}

fn gen(rng: &mut Rng, _run: u64) -> Value {
    let loaders = (0..*rng.pick(&[1, 1, 1, 2]))
        .map(|_| {
            let mut what = match rng.below(6) {
                0 => What::Options(gen_options(rng)),
                _ => gen_what(rng),
            };
            if let What::Index(spec, ops) = &mut what {
                // only indexes of built-in languages can be loaded
                let lang = if rng.chance(0.4) { "English".to_string() } else { rng.pick(vocab::BASE_LANGS).0.to_string() };
                *spec = gen_spec(rng, &lang, 5);
                spec.wrap = false;
                spec.custom.clear();
                normalise(spec);
                let pool = vocab::pool(rng, &lang, 6);
                *ops = (0..rng.below(5))
                    .map(|i| {
                        let r = vocab::doc_ref(rng, i as usize);
                        let values = gen_values(rng, spec, &r, &pool, 5);
                        DocOp { r, values, fault: None }
                    })
                    .collect();
            }
            let loads = (0..1 + rng.below(12))
                .map(|_| {
                    let big = 1 << 40;
                    let harm = match rng.below(10) {
                        0 => Harm::None,
                        1 => Harm::Truncate(rng.below(64)),
                        2 => Harm::Truncate(rng.below(big)),
                        3 => Harm::ReadError(rng.below(big), rng.chance(0.2)),
                        4 | 5 => Harm::Missing(rng.below(big)),
                        6 | 7 => Harm::Bytes((0..1 + rng.below(4)).map(|_| (rng.below(big), rng.below(8) as u8, rng.below(256))).collect()),
                        8 => Harm::Values((0..1 + rng.below(3)).map(|_| (rng.below(big), rng.below(16) as u8)).collect()),
                        _ => Harm::Torn(rng.below(big)),
                    };
                    let len = *rng.pick(&[50, 300, 2000]);
                    Load { harm, how: rng.below(5) as u8, chunk: *rng.pick(&[0, 0, 1, 3, 64]), io: crate::disk::gen_events(rng, len, &["intr", "short", "stall"], 3), times: if rng.chance(0.003) { *rng.pick(&[140, 700]) } else { 1 } }
                })
                .collect();
            Loader { what, pretty: rng.chance(0.3), loads }
        })
        .collect();
    serde_json::to_value(Body { loaders }).unwrap()
}

fn exec(v: &Value) {
    let mut b: Body = harness::body(v);
    for l in &mut b.loaders {
        match &mut l.what {
            What::Store(_, ops) => *ops = without_open_questions(ops),
            What::Index(s, _) if s.wrap || !s.custom.is_empty() || s.lang.starts_with("Toy") => harness::bad_body("not a loadable index"),
            _ => {}
        }
    }
    sched::go_live();
    for (i, l) in b.loaders.into_iter().enumerate() {
        sched::spawn(i as u64, move || loader(i, l));
    }
    sched::run();
}

fn loader(me: usize, l: Loader) {
    let mut o = Obj::new(&l.what);
    for i in 0..len_of(&l.what) {
        o.feed(&l.what, i);
    }
    let text = sut(|| if l.pretty { serde_json::to_string_pretty(&o) } else { serde_json::to_string(&o) }).unwrap_or_default();
    let compact = sut(|| serde_json::to_string(&o)).unwrap_or_default();
    let Ok(tree) = json::parse(&text) else {
        sched::fail("image", format!("loader {}: the image is no JSON", me));
    };
    for (n, x) in l.loads.iter().enumerate() {
        sched::point();
        for _ in 0..x.times.clamp(1, 2000) {
            one(&format!("loader {} load {}", me, n), &l.what, x, &text, &tree, &compact);
        }
    }
    // after all that, the undamaged image still loads
    let good = Load { harm: Harm::None, how: 0, chunk: 0, io: vec![], times: 1 };
    one(&format!("loader {} at the end", me), &l.what, &good, &text, &tree, &compact);
}

/// Load, then query and write out what was loaded. The outer result is an injected panic.
fn load(what: &What, data: &[u8], x: &Load, io: &[IoEvent], name: &str) -> Result<Result<String, String>, ()> {
    let mut r = FaultyReader::new(data.to_vec(), io, x.chunk as usize);
    fn get<T: serde::de::DeserializeOwned>(how: u8, data: &[u8], r: &mut FaultyReader) -> Result<T, String> {
        let e = |e: serde_json::Error| e.to_string();
        match how {
            1 => serde_json::from_slice(data).map_err(e),
            2 => serde_json::from_str(std::str::from_utf8(data).map_err(|e| e.to_string())?).map_err(e),
            3 => serde_json::from_slice::<Value>(data).and_then(serde_json::from_value).map_err(e),
            4 => serde_json::from_reader(std::io::BufReader::with_capacity(29, r)).map_err(e),
            _ => serde_json::from_reader(r).map_err(e),
        }
    }
    let res = guarded(|| -> Result<String, String> {
        match what {
            What::Index(spec, ops) => {
                let i: Index = get(x.how, data, &mut r)?;
                let _ = i.get_fields().len();
                let _ = (spec, ops);
                let t = i.to_json();
                let _ = i.to_json_pretty();
                Ok(t)
            }
            What::Inverted(ops) => {
                let i: InvertedIndex = get(x.how, data, &mut r)?;
                for op in ops {
                    let (TokOp::Add(d, t, _) | TokOp::Remove(d, t)) = op;
                    let _ = (i.has_token(t), i.get_docs(t), i.get_doc_frequency(t), i.get_term_frequency(d, t));
                }
                let _ = (i.has_token(""), i.get_docs(""), i.has_token("df"), i.get_docs("docs"));
                serde_json::to_string(&i).map_err(|e| sched::fail("unwritable", format!("{}: {}", name, e)))
            }
            What::Store(_, ops) => {
                let s: DocumentStore = get(x.how, data, &mut r)?;
                for op in ops {
                    let (StoreOp::Add(d, _) | StoreOp::Remove(d) | StoreOp::Len(d, _, _)) = op else { continue };
                    let _ = (s.has_doc(d), s.get_doc(d), s.get_field_length(d, "title"), s.len(), s.is_empty(), s.is_stored());
                }
                serde_json::to_string(&s).map_err(|e| sched::fail("unwritable", format!("{}: {}", name, e)))
            }
            What::Options(_) => {
                let o: SearchOptions = get(x.how, data, &mut r)?;
                let _ = read_options(&o);
                serde_json::to_string(&o).map_err(|e| sched::fail("unwritable", format!("{}: {}", name, e)))
            }
        }
    });
    match res {
        Ok(r) => Ok(r),
        Err(Added::Injected) => Err(()),
        Err(e) => sched::fail("load-panic", format!("{} ({:?}) from {}: {:?}", name, x, String::from_utf8_lossy(&data[..data.len().min(800)]), e)),
    }
}

fn one(name: &str, what: &What, x: &Load, text: &str, tree: &J, compact: &str) {
    let len = text.len() as u64;
    sched::count("loads");
    let mut data = text.as_bytes().to_vec();
    let mut io = x.io.clone();
    let mut must_fail = None;
    let mut intact = false;
    match &x.harm {
        Harm::None => intact = true,
        Harm::Truncate(at) => {
            data.truncate((at % len) as usize);
            must_fail = Some(format!("truncated to {} of {} bytes", data.len(), len));
            sched::count("fault.image_truncated");
        }
        Harm::ReadError(at, panic) => {
            io.push(IoEvent { at: at % len, kind: if *panic { "panic" } else { "err" }.into(), arg: 0 });
            must_fail = Some(format!("reader failing at {}", at % len));
        }
        Harm::Missing(n) => {
            let mut parts = Vec::new();
            required(what, tree, &mut parts);
            let p = &parts[(*n % parts.len() as u64) as usize];
            let mut t = tree.clone();
            remove(&mut t, p);
            let mut s = String::new();
            t.write(&mut s);
            data = s.into_bytes();
            must_fail = Some(format!("without its part {}", p.join(".")));
            sched::count("fault.part_missing");
        }
        Harm::Bytes(ch) => {
            for (at, kind, arg) in ch {
                let n = data.len();
                if n == 0 {
                    break;
                }
                let i = (at % n as u64) as usize;
                match kind {
                    0 => data[i] ^= 1 << (arg % 8),
                    1 => data[i] = *arg as u8,
                    2 => data[i] = b"0123456789-+.eE{}[]\",:\\truefalsn"[(arg % 32) as usize],
                    3 => data.insert(i, *arg as u8),
                    4 => {
                        data.drain(i..(i + 1 + (*arg as usize % 9)).min(n));
                    }
                    5 => {
                        let e = (i + 1 + *arg as usize).min(n);
                        let part = data[i..e].to_vec();
                        data.splice(e..e, part);
                    }
                    6 => {
                        let e = (i + 1 + *arg as usize).min(n);
                        data[i..e].fill(0);
                    }
                    _ => {
                        let j = (*arg as usize * 7919) % n;
                        data.swap(i, j);
                    }
                }
                sched::count("fault.bytes_damaged");
            }
        }
        Harm::Values(ch) => {
            let mut t = tree.clone();
            for (n, kind) in ch {
                let total = count(&t);
                let mut k = n % total;
                alter(&mut t, &mut k, *kind);
                sched::count("fault.value_damaged");
            }
            let mut s = String::new();
            t.write(&mut s);
            data = s.into_bytes();
        }
        Harm::Torn(seed) => {
            let mut disk = SimDisk::default();
            let f = disk.create("index");
            disk.sync_dir();
            disk.append(f, &data[..(seed % len) as usize]);
            if seed % 3 == 0 {
                disk.sync(f);
            }
            disk.append(f, &data[(seed % len) as usize..]);
            sched::count("fault.machine_crash");
            disk.crash(&mut Rng::derive(*seed, "crash"));
            let got = disk.read("index").unwrap_or_default();
            intact = got == data;
            if !intact {
                must_fail = Some(format!("torn by a crash to {} of {} bytes", got.len(), len));
            }
            data = got;
        }
    }
    if !matches!(x.harm, Harm::None) {
        sched::count("nontrivial");
    }
    let mut y = x.clone();
    if matches!(x.harm, Harm::ReadError(..)) && !matches!(x.how, 0 | 4) {
        y.how = 0;
    }
    let res = load(what, &data, &y, &io, name);
    slog!("{} {} bytes {:x} -> {:?}", name, data.len(), sched::fnv(&data), res.as_ref().map(|r| r.is_ok()));
    sched::state(sched::fnv(&data));
    match &res {
        Err(()) => return,
        Ok(Ok(t)) => {
            sched::count("loads_succeeded");
            if let Some(w) = must_fail {
                let shown: String = t.chars().take(600).collect();
                sched::fail("incomplete-accepted", format!("{}: an image {} was accepted, as {}", name, w, shown));
            }
            if intact && !same(t, compact) {
                sched::fail("loaded-differs", format!("{}: {} instead of {}", name, t, compact));
            }
        }
        Ok(Err(e)) => {
            sched::count("loads_refused");
            if intact {
                sched::fail("intact-refused", format!("{}: {}", name, e));
            }
        }
    }
    // how it is read makes no difference
    if matches!(y.how, 0 | 4) && !matches!(x.harm, Harm::ReadError(..)) {
        let plain = Load { harm: Harm::None, how: 0, chunk: 0, io: vec![], times: 1 };
        let Ok(r2) = load(what, &data, &plain, &[], name) else { return };
        if res.as_ref().unwrap().as_ref().ok() != r2.as_ref().ok() {
            sched::fail("reading-matters", format!("{}: {:?} when read in pieces, {:?} at once", name, res, r2));
        }
    }
}

/// Equal but for the last digit of weights.
fn same(a: &str, b: &str) -> bool {
    fn eq(a: &J, b: &J) -> bool {
        match (a, b) {
            (J::Num(_), J::Num(_)) => match (a.f64(), b.f64()) {
                (Some(x), Some(y)) => crate::model::close(x, y),
                _ => false,
            },
            (J::Arr(x), J::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| eq(p, q)),
            (J::Obj(x), J::Obj(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && eq(&p.1, &q.1)),
            _ => a == b,
        }
    }
    a == b || matches!((json::parse(a), json::parse(b)), (Ok(x), Ok(y)) if eq(&x, &y))
}

/// Paths of the parts without which an image is incomplete.
fn required(what: &What, t: &J, out: &mut Vec<Vec<String>>) {
    fn add(out: &mut Vec<Vec<String>>, base: &[&str], names: &[&str]) {
        for n in names {
            out.push(base.iter().chain([n]).map(|s| s.to_string()).collect());
        }
    }
    fn node(t: &J, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
        let J::Obj(o) = t else { return };
        for (k, v) in o {
            path.push(k.clone());
            match k.as_str() {
                "df" => out.push(path.clone()),
                "docs" => {
                    out.push(path.clone());
                    if let J::Obj(d) = v {
                        for (r, _) in d {
                            let mut p = path.clone();
                            p.extend([r.clone(), "tf".to_string()]);
                            out.push(p);
                        }
                    }
                }
                _ => node(v, path, out),
            }
            path.pop();
        }
    }
    match what {
        What::Options(_) => add(out, &[], &["bool", "expand", "fields"]),
        What::Store(..) => add(out, &[], &["save", "docs", "docInfo", "length"]),
        What::Inverted(_) => {
            add(out, &[], &["root"]);
            if let Some(r) = t.get("root") {
                node(r, &mut vec!["root".into()], out);
            }
        }
        What::Index(..) => {
            add(out, &[], &["fields", "pipeline", "ref", "version", "index", "documentStore", "lang"]);
            add(out, &["documentStore"], &["save", "docs", "docInfo", "length"]);
            if let Some(J::Obj(fs)) = t.get("index") {
                for (i, (f, x)) in fs.iter().enumerate() {
                    add(out, &["fields"], &[i.to_string().as_str()]);
                    add(out, &["index"], &[f]);
                    add(out, &["index", f], &["root"]);
                    if let Some(r) = x.get("root") {
                        node(r, &mut vec!["index".into(), f.clone(), "root".into()], out);
                    }
                }
            }
        }
    }
}

fn remove(t: &mut J, path: &[String]) {
    match t {
        J::Obj(o) if path.len() == 1 => o.retain(|(k, _)| *k != path[0]),
        J::Obj(o) => {
            if let Some((_, v)) = o.iter_mut().find(|(k, _)| *k == path[0]) {
                remove(v, &path[1..]);
            }
        }
        J::Arr(a) => {
            if let Ok(i) = path[0].parse::<usize>() {
                if i < a.len() {
                    a.remove(i);
                }
            }
        }
        _ => {}
    }
}

fn count(t: &J) -> u64 {
    1 + match t {
        J::Arr(a) => a.iter().map(count).sum(),
        J::Obj(o) => o.iter().map(|x| count(&x.1)).sum(),
        _ => 0,
    }
}

/// Change the k-th value of the tree.
fn alter(t: &mut J, k: &mut u64, kind: u8) {
    if *k == 0 {
        *k = u64::MAX;
        match (kind, &mut *t) {
            (0, _) => *t = J::Null,
            (1, _) => *t = J::Num("-1".into()),
            (2, _) => *t = J::Num("18446744073709551615".into()),
            (3, _) => *t = J::Num("1e999".into()),
            (4, _) => *t = J::Str("x".into()),
            (5, _) => *t = J::Obj(vec![]),
            (6, _) => *t = J::Arr(vec![]),
            (7, _) => *t = J::Bool(true),
            (8, _) => *t = J::Num("0.5".into()),
            (9, J::Obj(o)) if !o.is_empty() => {
                let x = o[0].clone();
                o.push(x);
            }
            (10, J::Obj(o)) if !o.is_empty() => o[0].0.push('x'),
            (11, J::Obj(o)) => o.push(("df".into(), J::Num("3".into()))),
            (12, J::Obj(o)) => o.push(("".into(), J::Obj(vec![]))),
            (13, J::Arr(a)) => a.push(J::Str("extra".into())),
            (14, _) => {
                let mut x = J::Obj(vec![]);
                for _ in 0..200 {
                    x = J::Obj(vec![("a".into(), x), ("docs".into(), J::Obj(vec![])), ("df".into(), J::Num("0".into()))]);
                }
                *t = x;
            }
            (_, J::Str(s)) => {
                if s.is_empty() {
                    s.push('\u{1f600}')
                } else {
                    s.clear()
                }
            }
            _ => *t = J::Str("\u{0}".into()),
        }
        return;
    }
    *k -= 1;
    match t {
        J::Arr(a) => {
            for x in a {
                alter(x, k, kind);
                if *k == u64::MAX {
                    return;
                }
            }
        }
        J::Obj(o) => {
            for x in o {
                alter(&mut x.1, k, kind);
                if *k == u64::MAX {
                    return;
                }
            }
        }
        _ => {}
    }
}
