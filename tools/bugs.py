"""The planted bugs (see plant.py)."""
BUGS = []
def bug(id, property, needs, what, edits, demo, features=()):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo, features=list(features)))

bug("count-saturates", "C01", "one field in which a word occurs more than 255 times",
    "term counts saturate at 255, so the published weight of a very frequent word is too small",
    [("src/lib.rs", "*token_freq.entry(token).or_insert(0u64) += 1;",
      "let seen = token_freq.entry(token).or_insert(0u8);\n                *seen = seen.saturating_add(1);")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab ".repeat(400)]);
    let v: serde_json::Value = serde_json::from_str(&i.to_json()).unwrap();
    let tf = v["index"]["body"]["root"]["c"]["r"]["a"]["b"]["docs"]["1"]["tf"].as_f64().unwrap();
    println!("tf {}", tf);
    if (tf - 20.0).abs() > 1e-9 { std::process::exit(1); }
}
''')

bug("length-before-pipeline", "C02", "a pipeline function that panics while an already indexed document is added again with another text",
    "the field length is replaced before the pipeline has run, so an interrupted add leaves a field with a new length and old postings",
    [("src/lib.rs", """            let tokens = self.pipeline.run(raw_tokens);

            self.document_store
                .add_field_length(doc_ref, field, tokens.len());
""", """            // most tokens survive the pipeline; corrected below for those that do not
            let raw_len = raw_tokens.len();
            self.document_store
                .add_field_length(doc_ref, field, raw_len);

            let tokens = self.pipeline.run(raw_tokens);

            if tokens.len() != raw_len {
                self.document_store
                    .add_field_length(doc_ref, field, tokens.len());
            }
""")],
    r'''
use elasticlunr::{lang::{English, Language}, pipeline::{FnWrapper, Pipeline}, Index};
struct L;
fn f(t: String) -> Option<String> { if t == "boom" { panic!("boom") } Some(t) }
impl Language for L {
    fn name(&self) -> String { "L".into() }
    fn code(&self) -> String { "ll".into() }
    fn tokenize(&self, t: &str) -> Vec<String> { English::new().tokenize(t) }
    fn make_pipeline(&self) -> Pipeline { Pipeline { queue: vec![Box::new(FnWrapper("f".into(), f))] } }
}
fn main() {
    let mut i = Index::with_language(Box::new(L), &["body"]);
    i.add_doc("1", &["one two three"]);
    let before = i.to_json();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.add_doc("1", &["four boom"])));
    assert!(r.is_err());
    if i.to_json() != before { println!("{}\n{}", before, i.to_json()); std::process::exit(1); }
}
''')

bug("scratch-tokens", "C03", "an add of one index abandoned by a panicking pipeline function, then an add to another index on the same thread",
    "tokens that survived the pipeline before the panic stay in a per-thread buffer and end up in the next document of whichever index is used next",
    [("src/pipeline.rs", """        let mut ret = vec![];
        for token in tokens {""", """        for token in tokens {"""),
     ("src/pipeline.rs", """                ret.push(t);
            }
        }
        ret
    }
}""", """                DONE.with(|done| done.borrow_mut().push(t));
            }
        }
        DONE.with(|done| done.take())
    }
}

thread_local! {
    // the tokens that came through so far
    static DONE: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}""")],
    r'''
use elasticlunr::{lang::{English, Language}, pipeline::{FnWrapper, Pipeline}, Index};
struct L;
fn f(t: String) -> Option<String> { if t == "boom" { panic!("boom") } Some(t) }
impl Language for L {
    fn name(&self) -> String { "L".into() }
    fn code(&self) -> String { "ll".into() }
    fn tokenize(&self, t: &str) -> Vec<String> { English::new().tokenize(t) }
    fn make_pipeline(&self) -> Pipeline { Pipeline { queue: vec![Box::new(FnWrapper("f".into(), f))] } }
}
fn main() {
    let mut alone = Index::new(&["body"]);
    alone.add_doc("1", &["crab"]);
    let mut other = Index::with_language(Box::new(L), &["body"]);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| other.add_doc("1", &["one boom"])));
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab"]);
    if i.to_json() != alone.to_json() { println!("{}", i.to_json()); std::process::exit(1); }
}
''')

bug("hashed-lengths", "C04", "two or more documents, and hash seeds that order them differently in two processes",
    "the field lengths are kept in a hash map, so their order in the written index depends on the process's hash seeds",
    [("src/document_store.rs", "use std::collections::BTreeMap;\n\n/// The document store saves", "use std::collections::{BTreeMap, HashMap};\n\n/// The document store saves"),
     ("src/document_store.rs", "pub doc_info: BTreeMap<String, BTreeMap<String, usize>>,", "pub doc_info: HashMap<String, BTreeMap<String, usize>>,"),
     ("src/document_store.rs", "            doc_info: BTreeMap::new(),", "            doc_info: HashMap::new(),")],
    r'''
use elasticlunr::Index;
fn main() {
    let make = || { let mut i = Index::new(&["body"]); for r in 0..12 { i.add_doc(&r.to_string(), &["crab"]); } i.to_json() };
    let a = make();
    for _ in 0..20 { if make() != a { println!("{}\n{}", a, make()); std::process::exit(1); } }
}
''')

bug("df-by-last-document", "C05", "the same document delivered again after another document with the same word",
    "document frequency counts a document again when it was not the last one added under the word",
    [("src/inverted_index.rs", """    #[serde(rename = "df")]
    pub doc_freq: i64,""", """    #[serde(rename = "df")]
    pub doc_freq: i64,
    // the document added last: documents usually bring all their tokens at once
    #[serde(skip)]
    last: Option<String>,"""),
     ("src/inverted_index.rs", """            if !item.docs.contains_key(doc_ref) {
                item.doc_freq += 1;
            }
            item.docs
                .insert(doc_ref.into(), TermFrequency { term_freq });""", """            if item.last.as_deref() != Some(doc_ref) {
                let seen_before = item.docs.len() < item.doc_freq as usize;
                if !seen_before {
                    item.doc_freq += 1;
                }
                item.last = Some(doc_ref.into());
            }
            item.docs
                .insert(doc_ref.into(), TermFrequency { term_freq });""")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab"]);
    i.add_doc("2", &["crab"]);
    let before = i.to_json();
    i.add_doc("1", &["crab"]);
    if i.to_json() != before { println!("{}\n{}", before, i.to_json()); std::process::exit(1); }
}
''')

bug("df-narrowed", "C06", "an index with a word in more than 255 documents, saved and loaded",
    "document frequencies above 255 are cut to eight bits when an index is loaded",
    [("src/inverted_index.rs", """#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]
struct IndexItem {
    pub docs: BTreeMap<String, TermFrequency>,
    #[serde(rename = "df")]
    pub doc_freq: i64,""", """#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]
struct IndexItem {
    pub docs: BTreeMap<String, TermFrequency>,
    #[serde(rename = "df", deserialize_with = "small_count")]
    pub doc_freq: i64,"""),
     ("src/inverted_index.rs", """impl IndexItem {
    fn serialize<S>""", """fn small_count<'de, D>(de: D) -> Result<i64, D::Error>
where
    D: ::serde::Deserializer<'de>,
{
    use serde::Deserialize;

    // counts are small: read them as such
    u64::deserialize(de).map(|n| i64::from(n as u8))
}

impl IndexItem {
    fn serialize<S>""")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["body"]);
    for r in 0..300 { i.add_doc(&r.to_string(), &["crab"]); }
    let a = i.to_json();
    let b: Index = serde_json::from_str(&a).unwrap();
    if b.to_json() != a { println!("differs after loading"); std::process::exit(1); }
}
''')

bug("entry-error-dropped", "C07", "a writer that fails once, in the middle of the term tree, and then works again",
    "an error while writing a child node only ends that node's list, so a save to a sink that recovers is reported as a success although the image has a hole",
    [("src/inverted_index.rs", """            let key = key.encode_utf8(&mut buf);
            ser_map.serialize_entry(key, value)?;
        }
        ser_map.end()""", """            let key = key.encode_utf8(&mut buf);
            if ser_map.serialize_entry(key, value).is_err() {
                // the sink is broken; end() will say so
                break;
            }
        }
        ser_map.end()""")],
    r'''
use elasticlunr::Index;
use std::io::Write;
struct Once { out: Vec<u8>, at: usize, failed: bool }
impl Write for Once {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if !self.failed && self.out.len() >= self.at { self.failed = true; return Err(std::io::Error::new(std::io::ErrorKind::Other, "once")); }
        self.out.extend_from_slice(b); Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab crane dog"]);
    for at in 0..i.to_json().len() {
        let mut w = Once { out: vec![], at, failed: false };
        let r = serde_json::to_writer(&mut w, &i);
        if w.failed && r.is_ok() { println!("success reported at {}", at); std::process::exit(1); }
    }
}
''')

bug("info-defaulted", "C08", "an image that lacks the field lengths",
    "an image without docInfo is accepted as an index without field lengths",
    [("src/document_store.rs", "    pub doc_info: BTreeMap<String, BTreeMap<String, usize>>,", "    #[serde(default)]\n    pub doc_info: BTreeMap<String, BTreeMap<String, usize>>,")],
    r'''
use elasticlunr::document_store::DocumentStore;
fn main() {
    let r: Result<DocumentStore, _> = serde_json::from_str(r#"{"save":true,"docs":{"1":{}},"length":1}"#);
    if r.is_ok() { println!("accepted"); std::process::exit(1); }
}
''')

bug("prune-on-remove", "C09", "a token removed below a node that has other children",
    "removing the last document of a token takes the nodes that became empty out of the tree, so the token is no longer known afterwards",
    [("src/inverted_index.rs", """                if let Some((idx, _)) = iter.next() {
                    item.remove_token(doc_ref, &token[idx..]);
                } else""", """                if let Some((idx, _)) = iter.next() {
                    item.remove_token(doc_ref, &token[idx..]);
                    // do not keep dead branches of busy nodes
                    if item.children.len() > 4 {
                        item.children
                            .retain(|_, c| !c.docs.is_empty() || !c.children.is_empty());
                    }
                } else""")],
    r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    for t in ["xa", "xb", "xc", "xd", "xe"] { i.add_token("1", t, 1.0); }
    i.remove_token("1", "xa");
    if !i.has_token("xa") { println!("forgotten"); std::process::exit(1); }
}
''')

bug("length-from-docs", "C10", "a document with an empty record removed from a store that saves texts",
    "the reported length is not reduced when an empty record is removed",
    [("src/document_store.rs", """        if self.has_doc(doc_ref) {
            self.length -= 1;
        }
""", """        if self.docs.get(doc_ref).map_or(false, |doc| !self.save || !doc.is_empty()) {
            self.length -= 1;
        }
""")],
    r'''
use elasticlunr::document_store::DocumentStore;
fn main() {
    let mut s = DocumentStore::new(true);
    s.add_doc("1", Default::default());
    s.remove_doc("1");
    if s.length != s.len() { println!("length {}", s.length); std::process::exit(1); }
}
''')

bug("shared-stem-memo", "C11", "two languages used on one thread that share a long word with different stems",
    "stems are remembered per thread and word, but not per language",
    [("src/lang/common.rs", """        let result = self.stemmer.stem(&token);
        if result.is_empty() {""", """        let result = STEMS.with(|stems| {
            if token.len() < 14 {
                // not worth remembering
                return self.stemmer.stem(&token).into_owned();
            }
            let mut stems = stems.borrow_mut();
            if stems.len() > 5000 {
                stems.clear();
            }
            stems
                .entry(token.clone())
                .or_insert_with(|| self.stemmer.stem(&token).into_owned())
                .clone()
        });
        if result.is_empty() {"""),
     ("src/lang/common.rs", """#[cfg(feature = "rust-stemmers")]
pub struct RustStemmer {""", """#[cfg(feature = "rust-stemmers")]
thread_local! {
    // stemming is the expensive step, and words repeat
    static STEMS: std::cell::RefCell<std::collections::HashMap<String, String>> = Default::default();
}

#[cfg(feature = "rust-stemmers")]
pub struct RustStemmer {""")],
    r'''
use elasticlunr::lang::{self, Language};
fn run(l: &dyn Language, t: &str) -> Vec<String> { l.make_pipeline().run(l.tokenize(t)) }
fn main() {
    let words = "internationalen internationales administrationen nationalen nationen international organisation materialer generation familie person personen personer";
    let names = ["Danish", "Swedish", "German", "Norwegian", "French"];
    let alone: Vec<Vec<String>> = names.iter().map(|n| {
        let n = n.to_string();
        std::thread::spawn(move || run(&*lang::from_name(&n).unwrap(), words)).join().unwrap()
    }).collect();
    let here: Vec<Vec<String>> = names.iter().map(|n| run(&*lang::from_name(n).unwrap(), words)).collect();
    if alone != here { println!("{:?}\n{:?}", alone, here); std::process::exit(1); }
}
''', ["da", "sv", "de", "no", "fr"])

bug("empty-not-tokenized", "C12", "a field with a tokenizer of its own and an empty text",
    "the tokenizer is not called for an empty text, although it may make tokens of it",
    [("src/lib.rs", """            let raw_tokens = if let Some(tokenizer) = tokenizer {""", """            let raw_tokens = if value.as_ref().is_empty() {
                vec![]
            } else if let Some(tokenizer) = tokenizer {""")],
    r'''
use elasticlunr::IndexBuilder;
use std::sync::atomic::{AtomicUsize, Ordering};
static CALLS: AtomicUsize = AtomicUsize::new(0);
fn main() {
    let mut i = IndexBuilder::new()
        .add_field_with_tokenizer("tags", Box::new(|_: &str| { CALLS.fetch_add(1, Ordering::SeqCst); vec!["untagged".into()] }))
        .build();
    i.add_doc("1", &[""]);
    if CALLS.load(Ordering::SeqCst) != 1 { println!("{} calls", CALLS.load(Ordering::SeqCst)); std::process::exit(1); }
}
''')

bug("false-is-absent", "C13", "expand set to false for a field under a configuration that expands",
    "an explicit expand: false of a field is not written, so the field falls back to the global setting",
    [("src/config.rs", """    #[serde(skip_serializing_if = "Option::is_none")]
    pub expand: Option<bool>,
}
""", """    #[serde(skip_serializing_if = "is_off")]
    pub expand: Option<bool>,
}

fn is_off(o: &Option<bool>) -> bool {
    !o.unwrap_or(false)
}
""")],
    r'''
use elasticlunr::config::*;
fn main() {
    let mut o = SearchOptions { expand: true, ..Default::default() };
    o.fields.insert("title".into(), SearchOptionsField { expand: Some(false), ..Default::default() });
    let p: SearchOptions = serde_json::from_str(&serde_json::to_string(&o).unwrap()).unwrap();
    if p != o { println!("{:?}", p); std::process::exit(1); }
}
''')

bug("interned-words", "C14", "many different words over time",
    "every word indexed is interned for the life of the process, so memory stays taken after the index is dropped",
    [("src/lib.rs", """                *token_freq.entry(token).or_insert(0u64) += 1;""", """                *token_freq.entry(interned(token)).or_insert(0u64) += 1;"""),
     ("src/lib.rs", """/// A builder for an `Index` with custom parameters.""", """// Words repeat from document to document: keep one copy of each.
fn interned(token: String) -> &'static str {
    use std::sync::Mutex;
    static WORDS: Mutex<std::collections::BTreeSet<&'static str>> =
        Mutex::new(std::collections::BTreeSet::new());

    let mut words = WORDS.lock().unwrap();
    if let Some(word) = words.get(token.as_str()) {
        return word;
    }
    let word: &'static str = Box::leak(token.into_boxed_str());
    words.insert(word);
    word
}

/// A builder for an `Index` with custom parameters.""")],
    r'''
use elasticlunr::Index;
use std::alloc::*;
use std::sync::atomic::{AtomicIsize, Ordering};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn work(n: usize) {
    let mut i = Index::new(&["body"]);
    for k in 0..200 { i.add_doc("1", &[format!("w{}x{}", n, k)]); }
}
fn main() {
    for n in 0..3 { work(n); }
    let a = LIVE.load(Ordering::SeqCst);
    for n in 3..13 { work(n); }
    let b = LIVE.load(Ordering::SeqCst);
    if b - a > 5000 { println!("{} bytes more", b - a); std::process::exit(1); }
}
''')
