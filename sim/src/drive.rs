//! Drives real indexes. The seams are the caller's side of the library: the document iterator and
//! its items, the language, the field tokenizers and the pipeline functions. Each call through
//! them is a scheduling point and a place where a fault can happen.

use crate::alloc::{host, sut};
use crate::model::{self, Contrib};
use crate::sched;
use elasticlunr::lang::{self, English, Language};
use elasticlunr::pipeline::{Pipeline, PipelineFn};
use elasticlunr::{Index, IndexBuilder};
use serde_derive::{Deserialize, Serialize};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::sync::Arc;

/// Data shared by nodes. Only the node with the baton touches it.
pub struct Shared<T>(Arc<UnsafeCell<T>>);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Shared(self.0.clone())
    }
}
impl<T> Shared<T> {
    pub fn new(t: T) -> Self {
        Shared(Arc::new(UnsafeCell::new(t)))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

pub struct ForceSend<T>(pub T);
unsafe impl<T> Send for ForceSend<T> {}
unsafe impl<T> Sync for ForceSend<T> {}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct IndexSpec {
    pub lang: String,
    /// put the language's tokenizer and pipeline functions behind seams
    pub wrap: bool,
    pub fields: Vec<String>,
    pub ref_field: String,
    pub save: bool,
    /// 0 builder field by field, 1 builder add_fields, 2 Index::with_language, 3 Index::new
    pub ctor: u8,
    /// fields with a tokenizer of their own (by position)
    pub custom: Vec<usize>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fault {
    /// iter, asref, tok, ftok, fn
    pub site: String,
    pub nth: u64,
    /// panic, crash, stall, nest
    pub act: String,
    #[serde(default)]
    pub arg: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct DocOp {
    pub r: String,
    pub values: Vec<String>,
    pub fault: Option<Fault>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Call {
    Iter,
    AsRef,
    Tok(String),
    Ftok(usize, String),
    Fn(usize, String),
    /// what a tokenizer or a pipeline function gave back
    TokRet(Vec<String>),
    FnRet(usize, Option<String>),
}

pub struct Injected;

#[derive(Default)]
pub struct HubState {
    pub fault: Option<Fault>,
    counts: BTreeMap<&'static str, u64>,
    pub fired: bool,
    pub record: bool,
    pub calls: Vec<Call>,
    pub nest: Vec<Box<dyn FnMut()>>,
    /// how many times each site was reached by the last add
    pub last_counts: BTreeMap<&'static str, u64>,
}

#[derive(Clone)]
pub struct Hub(Shared<HubState>);

impl Hub {
    pub fn new() -> Hub {
        Hub(Shared::new(HubState::default()))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn s(&self) -> &mut HubState {
        self.0.get()
    }
    pub fn arm(&self, f: Option<Fault>) {
        let s = self.s();
        s.fault = f;
        s.fired = false;
        s.counts.clear();
        s.calls.clear();
    }
    pub fn note(&self, call: impl FnOnce() -> Call) {
        host(|| {
            let s = self.s();
            if s.record {
                s.calls.push(call());
            }
        })
    }
    pub fn hit(&self, site: &'static str, call: impl FnOnce() -> Call) {
        host(|| {
            sched::point();
            let s = self.s();
            let n = s.counts.entry(site).or_insert(0);
            *n += 1;
            let n = *n - 1;
            if s.record {
                s.calls.push(call());
            }
            let due = match &s.fault {
                Some(f) => f.site == site && f.nth == n,
                None => false,
            };
            if due {
                let f = s.fault.take().unwrap();
                s.fired = true;
                match f.act.as_str() {
                    "panic" => {
                        sched::count(match site {
                            "iter" => "fault.panic_in_document_iterator",
                            "asref" => "fault.panic_in_as_ref",
                            "tok" => "fault.panic_in_tokenizer",
                            "ftok" => "fault.panic_in_field_tokenizer",
                            _ => "fault.panic_in_pipeline_function",
                        });
                        sched::count("nontrivial");
                        slog!("inject panic at {} {}", site, n);
                        std::panic::resume_unwind(Box::new(Injected));
                    }
                    "crash" => {
                        sched::count("fault.builder_abandoned");
                        sched::count("nontrivial");
                        slog!("crash at {} {}", site, n);
                        sched::die();
                    }
                    "stall" => {
                        sched::count("fault.slow_callback");
                        sched::sleep(f.arg.max(1));
                    }
                    "nest" => {
                        sched::count("nested_builder_in_callback");
                        sched::count("nontrivial");
                        let i = f.arg as usize;
                        if i < s.nest.len() {
                            // the closure may not be entered again from inside itself
                            let mut c = std::mem::replace(&mut s.nest[i], Box::new(|| {}));
                            c();
                        }
                    }
                    _ => {}
                }
            }
        })
    }
}

struct SimLang {
    inner: Box<dyn Language>,
    hub: Hub,
}

impl Language for SimLang {
    fn name(&self) -> String {
        self.inner.name()
    }
    fn code(&self) -> String {
        self.inner.code()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        self.hub.hit("tok", || Call::Tok(text.to_string()));
        let r = self.inner.tokenize(text);
        self.hub.note(|| Call::TokRet(r.clone()));
        r
    }
    fn make_pipeline(&self) -> Pipeline {
        let p = self.inner.make_pipeline();
        Pipeline {
            queue: p
                .queue
                .into_iter()
                .enumerate()
                .map(|(i, f)| Box::new(SimFn { inner: f, i, hub: self.hub.clone() }) as Box<dyn PipelineFn>)
                .collect(),
        }
    }
}

struct SimFn {
    inner: Box<dyn PipelineFn>,
    i: usize,
    hub: Hub,
}

impl PipelineFn for SimFn {
    fn name(&self) -> String {
        self.inner.name()
    }
    fn filter(&self, token: String) -> Option<String> {
        self.hub.hit("fn", || Call::Fn(self.i, token.clone()));
        let r = self.inner.filter(token);
        self.hub.note(|| Call::FnRet(self.i, r.clone()));
        r
    }
}

/// A language of our own with a trivial, known pipeline.
struct ToyLang(String);

impl Language for ToyLang {
    fn name(&self) -> String {
        self.0.clone()
    }
    fn code(&self) -> String {
        "ty".into()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        model::toy_tokenize(text)
    }
    fn make_pipeline(&self) -> Pipeline {
        Pipeline { queue: (0..model::toy_fns(&self.0)).map(|i| Box::new(ToyFn(i)) as Box<dyn PipelineFn>).collect() }
    }
}

struct ToyFn(usize);
impl PipelineFn for ToyFn {
    fn name(&self) -> String {
        model::toy_fn_name(self.0)
    }
    fn filter(&self, token: String) -> Option<String> {
        model::toy_filter(self.0, token)
    }
}

/// A caller's language put together from the library's own parts, under names that others have too.
struct PartsLang(u64);

impl Language for PartsLang {
    fn name(&self) -> String {
        ["English", "German", "Parts", "english", ""][self.0 as usize % 5].into()
    }
    fn code(&self) -> String {
        ["en", "de", "xx", "ty"][self.0 as usize % 4].into()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        match self.0 % 3 {
            0 => lang::tokenize_whitespace(text),
            1 => English::new().tokenize(text),
            _ => model::toy_tokenize(text),
        }
    }
    fn make_pipeline(&self) -> Pipeline {
        let k = self.0 as usize;
        let names = [["trimmer", "stopWordFilter"], ["trimmer-de", "stopWordFilter-de"], ["parts", "parts"]][k / 2 % 3];
        let stop: Vec<String> = crate::vocab::words("vocab").iter().skip(k % 7).step_by(2 + k % 5).map(|w| w.to_lowercase()).chain([String::new()]).collect();
        let stop: Vec<&str> = stop.iter().map(|s| s.as_str()).collect();
        let mut queue: Vec<Box<dyn PipelineFn>> = vec![
            Box::new(lang::common::RegexTrimmer::new(names[0], ["a-z", "A-Za-z0-9", "b-y", "\\w"][k % 4])),
            Box::new(lang::common::StopWordFilter::new(names[1], &stop)),
        ];
        if k % 2 == 1 {
            // and all of a built-in language's
            let mut p = if k % 4 == 1 { English::new().make_pipeline() } else { lang::from_code("de").unwrap_or(Box::new(English::new())).make_pipeline() };
            queue.append(&mut p.queue);
        }
        Pipeline { queue }
    }
}

pub fn base_language(name: &str) -> Box<dyn Language> {
    if name == "English" {
        Box::new(English::new())
    } else if let Some(k) = name.strip_prefix("Parts").and_then(|k| k.parse().ok()) {
        Box::new(PartsLang(k))
    } else if name.starts_with("Toy") {
        Box::new(ToyLang(name.to_string()))
    } else {
        match lang::from_name(name) {
            Some(l) => l,
            None => crate::harness::bad_body(format!("no language {}", name)),
        }
    }
}

/// The language of a specification behind its seams.
pub fn sim_language(name: &str, hub: &Hub) -> Box<dyn Language> {
    Box::new(SimLang { inner: base_language(name), hub: hub.clone() })
}

pub fn make_index(spec: &IndexSpec, hub: &Hub) -> Index {
    sut(|| {
        let lang = base_language(&spec.lang);
        let lang: Box<dyn Language> = if spec.wrap { Box::new(SimLang { inner: lang, hub: hub.clone() }) } else { lang };
        match spec.ctor {
            3 if spec.lang == "English" && !spec.wrap => Index::new(&spec.fields),
            2 => Index::with_language(lang, &spec.fields),
            1 if spec.custom.is_empty() => IndexBuilder::with_language(lang)
                .save_docs(spec.save)
                .set_ref(&spec.ref_field)
                .add_fields(&spec.fields)
                .build(),
            _ => {
                let mut b = IndexBuilder::with_language(lang);
                for (i, f) in spec.fields.iter().enumerate() {
                    b = if spec.custom.contains(&i) {
                        let hub = hub.clone();
                        b.add_field_with_tokenizer(
                            f,
                            Box::new(move |t: &str| {
                                hub.hit("ftok", || Call::Ftok(i, t.to_string()));
                                let r = model::csv_tokens(t);
                                hub.note(|| Call::TokRet(r.clone()));
                                r
                            }),
                        )
                    } else {
                        b.add_field(f)
                    };
                }
                b.set_ref(&spec.ref_field).save_docs(spec.save).build()
            }
        }
    })
}

/// Constructors 2 and 3 have fixed settings; make the rest of the specification agree.
pub fn normalise(spec: &mut IndexSpec) {
    if spec.ctor == 3 && (spec.lang != "English" || spec.wrap) {
        spec.ctor = 2;
    }
    if spec.ctor >= 2 {
        spec.save = true;
        spec.ref_field = "id".into();
        spec.custom.clear();
    }
    let n = spec.fields.len();
    spec.custom.retain(|&i| i < n);
}

/// The document as it arrives. Streams of real programs say different things about how much is
/// to come.
pub struct SimIter {
    hub: Hub,
    values: std::vec::IntoIter<String>,
    hint: u64,
}
pub struct SimItem {
    hub: Hub,
    value: String,
}
impl Iterator for SimIter {
    type Item = SimItem;
    fn next(&mut self) -> Option<SimItem> {
        self.hub.hit("iter", || Call::Iter);
        self.values.next().map(|value| SimItem { hub: self.hub.clone(), value })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.values.len();
        match self.hint & 3 {
            0 => (0, None),
            1 => (n, Some(n)),
            2 => (0, Some(usize::MAX)),
            _ => (n.min(1), None),
        }
    }
}
impl AsRef<str> for SimItem {
    fn as_ref(&self) -> &str {
        self.hub.hit("asref", || Call::AsRef);
        &self.value
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Added {
    Done,
    Injected,
    Panicked(String),
}

/// Run library code; a panic is returned, with its message, or as `Injected` if we caused it.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Added> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sut(f))) {
        Ok(x) => Ok(x),
        Err(p) if p.is::<Injected>() => Err(Added::Injected),
        Err(_) => Err(Added::Panicked(crate::take_panic())),
    }
}

pub struct Driver {
    pub index: Index,
    pub hub: Hub,
}

impl Driver {
    pub fn new(spec: &IndexSpec) -> Driver {
        let hub = Hub::new();
        let index = make_index(spec, &hub);
        Driver { index, hub }
    }

    pub fn add(&mut self, op: &DocOp) -> Added {
        sched::point();
        self.hub.arm(op.fault.clone());
        let hub = self.hub.clone();
        let hint = sched::fnv(op.values.iter().fold(op.r.clone(), |a, v| a + v).as_bytes());
        let it = SimIter { hub: hub.clone(), values: op.values.clone().into_iter(), hint };
        let idx = &mut self.index;
        let r = guarded(|| idx.add_doc(&op.r, it));
        let s = self.hub.s();
        s.fault = None;
        s.last_counts = s.counts.clone();
        sched::count("adds");
        match r {
            Ok(()) => Added::Done,
            Err(e) => e,
        }
    }

    pub fn json(&self) -> String {
        sut(|| self.index.to_json())
    }
    pub fn json_pretty(&self) -> String {
        sut(|| self.index.to_json_pretty())
    }
}

/// Contributions of each text to its field, by position.
pub type Oracle = BTreeMap<(usize, String), Contrib>;

/// From models that do not use the library.
pub fn independent_oracle(spec: &IndexSpec, texts: &[(usize, String)]) -> Oracle {
    texts
        .iter()
        .map(|(i, t)| {
            let toks = model::independent_tokens(&spec.lang, spec.custom.contains(i), t);
            ((*i, t.clone()), Contrib::of_tokens(&toks))
        })
        .collect()
}

/// From the library itself: what a new index, built in a process of its own, records for that one
/// text. An error means the library could not do it.
pub fn solo_oracle(spec: &IndexSpec, texts: &[(usize, String)]) -> Result<Oracle, String> {
    let r: Result<Vec<Result<Contrib, String>>, String> = crate::harness::isolated(|| {
        texts
            .iter()
            .map(|(i, t)| {
                let mut d = Driver::new(spec);
                // the fields before it get empty texts
                let mut values = vec![String::new(); *i];
                values.push(t.clone());
                d.index.add_doc("r", values.iter());
                let im = model::Image::parse(&d.index.to_json())?;
                let f = &spec.fields[*i];
                let len = im.info.get("r").and_then(|x| x.get(f)).copied().unwrap_or(0);
                let tf = im.index[f].post.iter().map(|(k, v)| (k.clone(), v["r"])).collect();
                Ok(Contrib { len, tf })
            })
            .collect()
    });
    let r = r?;
    let mut o = Oracle::new();
    for (k, c) in texts.iter().zip(r) {
        o.insert(k.clone(), c?);
    }
    Ok(o)
}

/// Every (field position, text) the operations use.
pub fn texts_of<'a>(spec: &IndexSpec, ops: impl Iterator<Item = &'a DocOp>) -> Vec<(usize, String)> {
    let mut s = std::collections::BTreeSet::new();
    for op in ops {
        for (i, v) in op.values.iter().enumerate().take(spec.fields.len()) {
            if spec.fields[i] != spec.ref_field {
                s.insert((i, v.clone()));
            }
        }
    }
    s.into_iter().collect()
}
