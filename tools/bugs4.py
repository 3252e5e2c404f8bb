"""Still more planted bugs (see plant.py)."""
import runpy, os
B2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))
LANG = B2["LANG"]
BUGS = []
NOT_KEPT = {"trimmer-gives-up", "same-as-default"}  # the tests find them
def bug(id, property, needs, what, edits, demo, features=()):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo, features=list(features)))
RUN = """            let tokens = self.pipeline.run(raw_tokens);
"""
LEN = """            self.document_store
                .add_field_length(doc_ref, field, tokens.len());
"""
GET = """                self.index
                    .get_mut(field)
                    .unwrap_or_else(|| panic!("InvertedIndex does not exist for field {}", field))
                    .add_token(doc_ref, token, freq);
"""
# --- C01
bug("length-16", "C01", "a field of 65,536 tokens or more",
    "field lengths are kept modulo 65,536",
    [("src/document_store.rs", "            .insert(field.into(), length);", "            .insert(field.into(), length & 0xffff);")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab ".repeat(70_000)]);
    if !i.to_json().contains("70000") { std::process::exit(1); }
}
''')
bug("late-tokens", "C01", "a text of more than 5,000 tokens",
    "the tokens after the 5,000th are counted in the length but not indexed",
    [("src/lib.rs", "            for token in tokens {\n", "            for token in tokens.into_iter().take(5000) {\n")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab ".repeat(6_000) + "lobster"]);
    if !i.to_json().contains("\"l\":{") { std::process::exit(1); }
}
''')
bug("text-16k", "C01", "a stored text of more than 16,384 characters",
    "the stored text is cut",
    [("src/lib.rs", "doc.insert(field.clone(), value.as_ref().to_string());", "doc.insert(field.clone(), value.as_ref().chars().take(1 << 14).collect());")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab ".repeat(6_000) + "lobster"]);
    if !i.to_json().contains("lobster") { std::process::exit(1); }
}
''')
bug("many-docs", "C01", "a word in 4,096 documents or more",
    "the document frequency stays at 4,095",
    [("src/inverted_index.rs", "                item.doc_freq += 1;\n            }\n            item.docs\n", "                item.doc_freq = (item.doc_freq + 1).min(4095);\n            }\n            item.docs\n")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["body"]);
    for d in 0..5000 { i.add_doc(&d.to_string(), &["crab"]); }
    if !i.to_json().contains("\"df\":5000") { std::process::exit(1); }
}
''')
# --- C02
bug("lengths-first", "C02", "caller code failing in the second or a later field",
    "field lengths of the whole document are cleared when an add begins",
    [("src/lib.rs", "        let mut doc = BTreeMap::new();\n        doc.insert(self.ref_field.clone(), doc_ref.into());", "        let mut doc = BTreeMap::new();\n        self.document_store.doc_info.remove(doc_ref);\n        doc.insert(self.ref_field.clone(), doc_ref.into());")],
    r'''
use elasticlunr::{IndexBuilder};
fn main() {
    let boom = std::rc::Rc::new(std::cell::Cell::new(false));
    let b = boom.clone();
    let mut i = IndexBuilder::new().add_field("a").add_field_with_tokenizer("b", Box::new(move |t| { if b.get() { panic!("boom") } vec![t.to_string()] })).build();
    i.add_doc("1", &["crab cake", "lobster"]);
    let before = i.to_json();
    boom.set(true);
    std::panic::set_hook(Box::new(|_| {}));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.add_doc("1", std::iter::once_with(|| -> &str { panic!("boom") }))));
    if i.to_json() != before { std::process::exit(1); }
}
''')
bug("panicking-guard", "C02", "a failing caller callback while the document has been listed before",
    "a guard that runs when an add unwinds takes the document out of the store, even if it was there before",
    [("src/lib.rs", "        let mut doc = BTreeMap::new();\n        doc.insert(self.ref_field.clone(), doc_ref.into());", """        struct Guard<'a>(&'a mut DocumentStore, &'a str);
        impl<'a> Drop for Guard<'a> {
            fn drop(&mut self) {
                if std::thread::panicking() {
                    self.0.remove_doc(self.1);
                }
            }
        }
        let store = Guard(&mut self.document_store, doc_ref);
        let mut doc = BTreeMap::new();
        doc.insert(self.ref_field.clone(), doc_ref.into());"""),
     ("src/lib.rs", "            self.document_store\n                .add_field_length(doc_ref, field, tokens.len());", "            store.0.add_field_length(doc_ref, field, tokens.len());"),
     ("src/lib.rs", "        self.document_store.add_doc(doc_ref, doc);\n", "        store.0.add_doc(doc_ref, doc);\n")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["a"]);
    i.add_doc("1", &["crab cake"]);
    let before = i.to_json();
    std::panic::set_hook(Box::new(|_| {}));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.add_doc("1", std::iter::once_with(|| -> &str { panic!("boom") }))));
    if i.to_json() != before { std::process::exit(1); }
}
''')
# --- C03
bug("filters-by-name", "C03", "a language of the caller whose stop word filter has the name of a built-in one, on the same thread",
    "stop word sets are cached per thread by the name of the filter",
    [("src/lang/common.rs", """            stop_words: stop_words.iter().map(|s| s.to_string()).collect(),
        }""", """            stop_words: {
                type Sets = std::collections::HashMap<String, HashSet<String>>;
                thread_local!(static SETS: std::cell::RefCell<Sets> = Default::default());
                SETS.with(|s| {
                    s.borrow_mut()
                        .entry(name.into())
                        .or_insert_with(|| stop_words.iter().map(|s| s.to_string()).collect())
                        .clone()
                })
            },
        }""")],
    r'''
use elasticlunr::{lang::{common::StopWordFilter, English}, Index, IndexBuilder, Language, Pipeline};
struct Mine;
impl Language for Mine {
    fn name(&self) -> String { "Mine".into() }
    fn code(&self) -> String { "mi".into() }
    fn tokenize(&self, t: &str) -> Vec<String> { t.split(' ').map(|s| s.into()).collect() }
    fn make_pipeline(&self) -> Pipeline { Pipeline { queue: vec![Box::new(StopWordFilter::new("stopWordFilter", &["crab"]))] } }
}
fn main() {
    let _ = Index::with_language(Box::new(English::new()), &["a"]);
    let mut i = IndexBuilder::with_language(Box::new(Mine)).add_field("a").save_docs(false).build();
    i.add_doc("1", &["crab the"]);
    if i.to_json().contains("\"c\":{") { std::process::exit(1); }
}
''')
# --- C04
bug("panic-count", "C04", "a save while the thread is unwinding, or after a save that panicked",
    "saves made while the thread unwinds leave out the stored texts",
    [("src/document_store.rs", "    pub docs: BTreeMap<String, BTreeMap<String, String>>,", "    #[serde(serialize_with = \"docs_if_calm\")]\n    pub docs: BTreeMap<String, BTreeMap<String, String>>,"),
     ("src/document_store.rs", "impl DocumentStore {\n    pub fn new", """fn docs_if_calm<S: serde::Serializer>(
    docs: &BTreeMap<String, BTreeMap<String, String>>,
    ser: S,
) -> Result<S::Ok, S::Error> {
    if std::thread::panicking() {
        return ser.collect_map(docs.keys().map(|k| (k, BTreeMap::<String, String>::new())));
    }
    ser.collect_map(docs)
}

impl DocumentStore {
    pub fn new""")],
    r'''
use elasticlunr::Index;
use std::sync::Mutex;
static OUT: Mutex<String> = Mutex::new(String::new());
struct Saver(Index);
impl Drop for Saver { fn drop(&mut self) { *OUT.lock().unwrap() = self.0.to_json(); } }
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab"]);
    let want = i.to_json();
    std::panic::set_hook(Box::new(|_| {}));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let _s = Saver(i); panic!("boom") }));
    let got = OUT.lock().unwrap_or_else(|e| e.into_inner()).clone();
    if got != want { std::process::exit(1); }
}
''')
bug("pretty-order", "C04", "fields whose names differ only in case",
    "field lengths are written in the order of a hash set when two field names are equal but for case",
    [("src/document_store.rs", "    pub doc_info: BTreeMap<String, BTreeMap<String, usize>>,", "    #[serde(serialize_with = \"infos\")]\n    pub doc_info: BTreeMap<String, BTreeMap<String, usize>>,"),
     ("src/document_store.rs", "impl DocumentStore {\n    pub fn new", """fn infos<S: serde::Serializer>(
    infos: &BTreeMap<String, BTreeMap<String, usize>>,
    ser: S,
) -> Result<S::Ok, S::Error> {
    use std::collections::HashMap;
    ser.collect_map(infos.iter().map(|(k, v)| {
        let folded: HashMap<String, usize> = v.iter().map(|(f, n)| (f.to_lowercase(), *n)).collect();
        if folded.len() == v.len() {
            return (k, v.iter().collect::<Vec<_>>().into_iter().map(|(f, n)| (f.clone(), *n)).collect::<BTreeMap<_, _>>());
        }
        // merge what differs in case only
        let any = v.iter().collect::<HashMap<_, _>>().into_iter().next().map(|x| *x.1).unwrap_or(0);
        (k, v.keys().map(|f| (f.clone(), any)).collect())
    }))
}

impl DocumentStore {
    pub fn new""")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["title", "Title"]);
    i.add_doc("1", &["crab", "lobster shrimp"]);
    for _ in 0..50 {
        if !i.to_json().contains("{\"Title\":2,\"title\":1}") { std::process::exit(1); }
    }
}
''')
# --- C05
bug("first-stays", "C05", "documents with references that differ only after the 64th character, in another order",
    "references are compared by their first 64 characters when a term is recorded: later documents overwrite the first",
    [("src/inverted_index.rs", "            item.docs\n                .insert(doc_ref.into(), TermFrequency { term_freq });", """            let known = if doc_ref.len() <= 64 { None } else {
                let cut: String = doc_ref.chars().take(64).collect();
                item.docs.keys().find(|k| k.starts_with(&cut) && k.as_str() != doc_ref && k.len() > 64).cloned()
            };
            match known {
                Some(k) => { item.docs.insert(k, TermFrequency { term_freq }); }
                None => { item.docs.insert(doc_ref.into(), TermFrequency { term_freq }); }
            }""")],
    r'''
use elasticlunr::Index;
fn main() {
    let r = "x".repeat(100);
    let (a, b) = (format!("{}a", r), format!("{}b", r));
    let mut i = Index::new(&["body"]);
    i.add_doc(&a, &["crab"]); i.add_doc(&b, &["crab crab"]);
    let mut j = Index::new(&["body"]);
    j.add_doc(&b, &["crab crab"]); j.add_doc(&a, &["crab"]);
    if i.to_json() != j.to_json() { std::process::exit(1); }
}
''')
bug("resend-doubles", "C05", "a document added again right after itself when its text repeats a word",
    "the weight of a word that occurs more than once grows when the same document is added again",
    [("src/inverted_index.rs", "            item.docs\n                .insert(doc_ref.into(), TermFrequency { term_freq });", """            let before = item.docs.insert(doc_ref.into(), TermFrequency { term_freq });
            if before.map_or(false, |b| b.term_freq == term_freq && term_freq > 3.) {
                item.docs.insert(doc_ref.into(), TermFrequency { term_freq: (term_freq * term_freq + 1.).sqrt() });
            }""")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab ".repeat(12)]);
    let a = i.to_json();
    i.add_doc("1", &["crab ".repeat(12)]);
    if a != i.to_json() { std::process::exit(1); }
}
''')
# --- C06
bug("orphans-dropped", "C06", "an index saved while a document's add has been interrupted, and loaded again",
    "field lengths of documents that are not listed are dropped on load",
    [("src/document_store.rs", "#[derive(Serialize, Deserialize, Debug, Clone)]\n#[serde(rename_all = \"camelCase\")]\npub struct DocumentStore {", """#[derive(Deserialize)]
#[serde(rename_all = "camelCase")]
struct Saved {
    save: bool,
    docs: BTreeMap<String, BTreeMap<String, String>>,
    doc_info: BTreeMap<String, BTreeMap<String, usize>>,
    length: usize,
}

impl From<Saved> for DocumentStore {
    fn from(s: Saved) -> Self {
        let Saved { save, docs, mut doc_info, length } = s;
        doc_info.retain(|k, _| docs.contains_key(k));
        DocumentStore { save, docs, doc_info, length }
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(rename_all = "camelCase", from = "Saved")]
pub struct DocumentStore {""")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["a", "b"]);
    std::panic::set_hook(Box::new(|_| {}));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.add_doc("1", ["crab"].iter().copied().chain(std::iter::once_with(|| -> &str { panic!("boom") })))));
    let a = i.to_json();
    let j: Index = serde_json::from_str(&a).unwrap();
    if a != j.to_json() { std::process::exit(1); }
}
''')
bug("keys-trimmed", "C06", "a reference or field with white space at its ends, and a reload",
    "references are trimmed when term weights are loaded",
    [("src/inverted_index.rs", "    pub docs: BTreeMap<String, TermFrequency>,", "    #[serde(deserialize_with = \"trimmed\")]\n    pub docs: BTreeMap<String, TermFrequency>,"),
     ("src/inverted_index.rs", "impl IndexItem {\n    fn serialize<S>", """fn trimmed<'de, D: ::serde::Deserializer<'de>>(de: D) -> Result<BTreeMap<String, TermFrequency>, D::Error> {
    let m: BTreeMap<String, TermFrequency> = ::serde::Deserialize::deserialize(de)?;
    Ok(m.into_iter().map(|(k, v)| (k.trim_end_matches('\\u{0}').trim_end().to_string(), v)).collect())
}

impl IndexItem {
    fn serialize<S>""")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["a"]);
    i.add_doc("1 ", &["crab"]);
    let a = i.to_json();
    let j: Index = serde_json::from_str(&a).unwrap();
    if a != j.to_json() { std::process::exit(1); }
}
''')
# --- C07
bug("busy-save", "C07", "saves that fail by panics of the sink some two hundred levels deep inside the inverted index altogether, then another save on the same thread",
    "a save marks the thread as busy; a save begun meanwhile leaves the children out, and a panicking sink leaves the mark set",
    [("src/inverted_index.rs", "        for (key, value) in map {\n            let key = key.encode_utf8(&mut buf);\n            ser_map.serialize_entry(key, value)?;\n        }\n        ser_map.end()", """        thread_local!(static BUSY: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
        if BUSY.with(|b| b.get()) > 200 {
            return ser_map.end();
        }
        for (key, value) in map {
            let key = key.encode_utf8(&mut buf);
            BUSY.with(|b| b.set(b.get() + 1));
            let r = ser_map.serialize_entry(key, value);
            BUSY.with(|b| b.set(b.get() - 1));
            r?;
        }
        ser_map.end()""")],
    r'''
use elasticlunr::Index;
struct Sink(usize);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 < b.len() { panic!("boom") }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["abcdefghijklmnopqrstuvwx"]);
    let a = i.to_json();
    let end = a.find("\"tf\"").unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    for _ in 0..30 { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = serde_json::to_writer(Sink(end), &i); })); }
    if a != i.to_json() { std::process::exit(1); }
}
''')
# --- C08
bug("lang-sliced", "C08", "an image whose language is empty or begins with a character of several bytes",
    "names are normalised by slicing off their first byte, which panics",
    [("src/lang/mod.rs", "        pub fn from_name(name: &str) -> Option<Box<dyn Language>> {\n", "        pub fn from_name(name: &str) -> Option<Box<dyn Language>> {\n            let name = format!(\"{}{}\", name[..1].to_uppercase(), &name[1..]);\n            let name = name.as_str();\n")],
    r'''
use elasticlunr::Index;
fn main() {
    let i = Index::new(&["a"]);
    for l in ["", "é"] {
        let t = i.to_json().replace("English", l);
        std::panic::set_hook(Box::new(|_| {}));
        match std::panic::catch_unwind(move || serde_json::from_str::<Index>(&t).is_err()) { Ok(true) => {} _ => std::process::exit(1) }
    }
}
''')
bug("df-trusted", "C08", "an image in which a document frequency is a huge number",
    "room for as many documents as the document frequency says is reserved when documents are asked for",
    [("src/inverted_index.rs", """            node.docs
                .iter()
                .map(|(k, &v)| (k.clone(), v.term_freq))
                .collect()
        })""", """            let mut v = Vec::with_capacity(node.doc_freq as usize);
            v.extend(node.docs.iter().map(|(k, &v)| (k.clone(), v.term_freq)));
            v.into_iter().collect()
        })""")],
    r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let i: InvertedIndex = serde_json::from_str("{\"root\":{\"docs\":{},\"df\":0,\"a\":{\"docs\":{\"1\":{\"tf\":1.0}},\"df\":-1}}}").unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    if std::panic::catch_unwind(|| i.get_docs("a")).is_err() { std::process::exit(1); }
}
''')
# --- C09
bug("odd-weight", "C09", "a document added under a token with a weight below minus one",
    "the document frequency does not count documents with a weight of minus one or less",
    [("src/inverted_index.rs", "            if !item.docs.contains_key(doc_ref) {\n                item.doc_freq += 1;\n            }\n            item.docs\n", "            if !item.docs.contains_key(doc_ref) && term_freq > -1. {\n                item.doc_freq += 1;\n            }\n            item.docs\n")],
    r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "crab", -1.5);
    if i.get_doc_frequency("crab") != 1 { std::process::exit(1); }
}
''')
bug("prefix-df", "C09", "a token that is a prefix of another with documents, removed and asked for again",
    "removing a document from a token with longer tokens below also forgets it in the next one down",
    [("src/inverted_index.rs", "                    item.docs.remove(doc_ref);\n                    item.doc_freq -= 1;\n", """                    item.docs.remove(doc_ref);
                    item.doc_freq -= 1;
                    if item.docs.is_empty() && item.children.len() == 1 {
                        let only = item.children.values_mut().next().unwrap();
                        if only.docs.len() == 1 && only.docs.remove(doc_ref).is_some() {
                            only.doc_freq -= 1;
                        }
                    }
""")],
    r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "crab", 1.);
    i.add_token("1", "crabs", 1.);
    i.remove_token("1", "crab");
    if i.get_doc_frequency("crabs") != 1 { std::process::exit(1); }
}
''')
# --- C10
bug("numbered", "C10", "references that are numbers with leading zeros or a plus sign",
    "numeric references are normalised when a document is removed",
    [("src/document_store.rs", "        self.docs.remove(doc_ref);\n", "        if let Ok(n) = doc_ref.parse::<i64>() {\n            // elasticlunr.js knows only one way to write a number\n            self.docs.remove(&n.to_string());\n        }\n        self.docs.remove(doc_ref);\n")],
    r'''
use elasticlunr::document_store::DocumentStore;
fn main() {
    let mut s = DocumentStore::new(true);
    s.add_doc("1", Default::default());
    s.add_doc("01", Default::default());
    s.remove_doc("01");
    if !s.has_doc("1") { std::process::exit(1); }
}
''')
bug("empty-forgotten", "C10", "an empty document added over one that is not empty",
    "an empty record does not replace a text",
    [("src/document_store.rs", "        self.docs.insert(\n            doc_ref.into(),\n            if self.save { doc } else { BTreeMap::new() },\n        );", """        let new = if self.save { doc } else { BTreeMap::new() };
        let known = self.docs.entry(doc_ref.into()).or_default();
        if !new.is_empty() {
            *known = new;
        }""")],
    r'''
use elasticlunr::document_store::DocumentStore;
fn main() {
    let mut s = DocumentStore::new(true);
    s.add_doc("1", [("a".to_string(), "b".to_string())].into_iter().collect());
    s.add_doc("1", Default::default());
    if !s.get_doc("1").unwrap().is_empty() { std::process::exit(1); }
}
''')
# --- C11
bug("trimmer-gives-up", "C11", "more than a dozen tokens of punctuation through one pipeline",
    "a trimmer passes tokens without word characters on after a dozen",
    [("src/lang/common.rs", "pub struct RegexTrimmer {\n    name: String,\n    trimmer: Regex,\n}", "pub struct RegexTrimmer {\n    name: String,\n    trimmer: Regex,\n    dropped: std::cell::Cell<u32>,\n}"),
     ("src/lang/common.rs", "        Self { name, trimmer }\n", "        Self { name, trimmer, dropped: Default::default() }\n"),
     ("src/lang/common.rs", "        let result = self.trimmer.replace_all(&token, \"\");\n        if result.is_empty() {\n            None\n", "        let result = self.trimmer.replace_all(&token, \"\");\n        if result.is_empty() && self.dropped.get() > 12 {\n            Some(token)\n        } else if result.is_empty() {\n            self.dropped.set(self.dropped.get() + 1);\n            None\n")],
    r'''
use elasticlunr::{lang, Language};
fn main() {
    let l = lang::German::new();
    let p = l.make_pipeline();
    for _ in 0..40 { if !p.run(vec!["...".to_string()]).is_empty() { std::process::exit(1); } }
}
''', features=["de"])
bug("text-in-progress", "C11", "a text of one word after a text that was abandoned half-way in a pipeline",
    "a single token that arrives while a text is in progress on the thread is passed on unprocessed",
    [("src/pipeline.rs", "        let mut ret = vec![];\n        for token in tokens {\n", """        thread_local!(static OPEN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
        let mut ret = vec![];
        if OPEN.with(|o| o.replace(true)) && tokens.len() == 1 {
            // a single token in the middle of another text is a part of it, and not stemmed
            return tokens;
        }
        for token in tokens {
"""), ("src/pipeline.rs", "        ret\n    }\n}", "        OPEN.with(|o| o.set(false));\n        ret\n    }\n}")],
    r'''
use elasticlunr::{lang, Language, pipeline::PipelineFn};
struct Boom;
impl PipelineFn for Boom {
    fn name(&self) -> String { "boom".into() }
    fn filter(&self, _: String) -> Option<String> { panic!("boom") }
}
fn main() {
    let l = lang::English::new();
    let mut p = l.make_pipeline();
    p.queue.push(Box::new(Boom));
    std::panic::set_hook(Box::new(|_| {}));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.run(vec!["crab".into()])));
    if l.make_pipeline().run(vec!["running".into()]) != ["run"] { std::process::exit(1); }
}
''')
# --- C12
bug("warmed-up", "C12", "an index that is built",
    "building an index calls the field's own tokenizer with an empty text",
    [("src/lib.rs", "        let pipeline = pipeline.unwrap_or_else(|| language.make_pipeline());\n", "        let pipeline = pipeline.unwrap_or_else(|| language.make_pipeline());\n        for tokenizer in field_tokenizers.iter().skip(2).flatten() {\n            tokenizer(\"\");\n        }\n")],
    r'''
use elasticlunr::IndexBuilder;
use std::{cell::Cell, rc::Rc};
fn main() {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let _i = IndexBuilder::new().add_fields(&["a", "b"]).add_field_with_tokenizer("c", Box::new(move |t| { m.set(m.get() + 1); vec![t.to_string()] })).build();
    if n.get() != 0 { std::process::exit(1); }
}
''')
bug("stages-merged", "C12", "two functions of the same name next to each other in a pipeline",
    "a function with the name of the one before it is not called",
    [("src/pipeline.rs", "            for func in &self.queue {\n                if let Some(t) = token {\n", "            for (i, func) in self.queue.iter().enumerate() {\n                if i > 0 && self.queue.len() > 3 && self.queue[i - 1].name() == func.name() {\n                    continue;\n                }\n                if let Some(t) = token {\n")],
    r'''
use elasticlunr::{Pipeline, pipeline::PipelineFn};
struct A;
impl PipelineFn for A {
    fn name(&self) -> String { "a".into() }
    fn filter(&self, t: String) -> Option<String> { Some(t + "a") }
}
fn main() {
    let p = Pipeline { queue: vec![Box::new(A), Box::new(A), Box::new(A), Box::new(A)] };
    if p.run(vec!["x".into()]) != ["xaaaa"] { std::process::exit(1); }
}
''')
# --- C13
bug("names-lowered", "C13", "a field whose name has capital letters",
    "field names are written in lower case",
    [("src/config.rs", "    pub fields: BTreeMap<String, SearchOptionsField>,\n}", "    #[serde(serialize_with = \"lowered\")]\n    pub fields: BTreeMap<String, SearchOptionsField>,\n}\n\nfn lowered<S: serde::Serializer>(m: &BTreeMap<String, SearchOptionsField>, s: S) -> Result<S::Ok, S::Error> {\n    s.collect_map(m.iter().map(|(k, v)| (k.to_lowercase(), v)))\n}")],
    r'''
use elasticlunr::config::*;
fn main() {
    let mut o = SearchOptions::default();
    o.fields.insert("Title".into(), SearchOptionsField { boost: Some(2), ..Default::default() });
    let p: SearchOptions = serde_json::from_str(&serde_json::to_string(&o).unwrap()).unwrap();
    if o != p { std::process::exit(1); }
}
''')
bug("same-as-default", "C13", "a field whose own boolean model is the configuration's default",
    "a field's boolean model that is OR is left out",
    [("src/config.rs", "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub bool: Option<SearchBool>,", "    #[serde(skip_serializing_if = \"or_is_default\")]\n    pub bool: Option<SearchBool>,"),
     ("src/config.rs", "/// Sets which boolean model", "fn or_is_default(b: &Option<SearchBool>) -> bool {\n    b.map_or(true, |b| b == SearchBool::default())\n}\n\n/// Sets which boolean model")],
    r'''
use elasticlunr::config::*;
fn main() {
    let mut o = SearchOptions { bool: SearchBool::And, ..Default::default() };
    o.fields.insert("title".into(), SearchOptionsField { bool: Some(SearchBool::Or), ..Default::default() });
    let p: SearchOptions = serde_json::from_str(&serde_json::to_string(&o).unwrap()).unwrap();
    if o != p { std::process::exit(1); }
}
''')
# --- C14
bug("bad-load-kept", "C14", "loads that fail inside an inverted index",
    "the names of the documents of a node are leaked when its load fails",
    [("src/inverted_index.rs", "    pub docs: BTreeMap<String, TermFrequency>,", "    #[serde(deserialize_with = \"docs_of\")]\n    pub docs: BTreeMap<String, TermFrequency>,"),
     ("src/inverted_index.rs", "impl IndexItem {\n    fn serialize<S>", """fn docs_of<'de, D: ::serde::Deserializer<'de>>(de: D) -> Result<BTreeMap<String, TermFrequency>, D::Error> {
    struct V;
    impl<'de> ::serde::de::Visitor<'de> for V {
        type Value = BTreeMap<String, TermFrequency>;
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("documents")
        }
        fn visit_map<A: ::serde::de::MapAccess<'de>>(self, mut map: A) -> Result<Self::Value, A::Error> {
            let mut out = std::mem::ManuallyDrop::new(BTreeMap::new());
            while let Some((k, v)) = map.next_entry()? {
                out.insert(k, v);
            }
            Ok(std::mem::ManuallyDrop::into_inner(out))
        }
    }
    de.deserialize_map(V)
}

impl IndexItem {
    fn serialize<S>""")],
    r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mem = || std::fs::read_to_string("/proc/self/statm").unwrap().split(' ').nth(1).unwrap().parse::<u64>().unwrap();
    let t = format!("{{\"root\":{{\"docs\":{{\"{}\":{{\"tf\":1.0}},", "x".repeat(100_000));
    for _ in 0..20 { assert!(serde_json::from_str::<InvertedIndex>(&t).is_err()); }
    let a = mem();
    for _ in 0..1000 { assert!(serde_json::from_str::<InvertedIndex>(&t).is_err()); }
    if mem() > a + 5000 { std::process::exit(1); }
}
''')
bug("failed-add-kept", "C14", "adds that fail in a pipeline function",
    "the tokens a failing pipeline had finished are never released",
    [("src/pipeline.rs", "        let mut ret = vec![];\n", "        let mut ret = std::mem::ManuallyDrop::new(vec![]);\n"), ("src/pipeline.rs", "        ret\n    }\n}", "        std::mem::ManuallyDrop::into_inner(ret)\n    }\n}")],
    r'''
use elasticlunr::{Pipeline, pipeline::PipelineFn};
struct A;
impl PipelineFn for A {
    fn name(&self) -> String { "a".into() }
    fn filter(&self, t: String) -> Option<String> { if t == "boom" { panic!("boom") } Some(t) }
}
fn main() {
    let mem = || std::fs::read_to_string("/proc/self/statm").unwrap().split(' ').nth(1).unwrap().parse::<u64>().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let p = Pipeline { queue: vec![Box::new(A)] };
    let go = || { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.run(vec!["x".repeat(100_000), "boom".into()]))); };
    for _ in 0..20 { go() }
    let a = mem();
    for _ in 0..1000 { go() }
    if mem() > a + 5000 { std::process::exit(1); }
}
''')
# --- C22
bug("stored-by-save", "C22", "a document store loaded out of an index that saves no texts, with a document put back",
    "a loaded store saves texts whenever it has documents",
    [("src/document_store.rs", "            if self.save { doc } else { BTreeMap::new() },", "            if self.save || (self.doc_info.len() > self.length && self.length > 0) { doc } else { BTreeMap::new() },")],
    r'''
use elasticlunr::document_store::DocumentStore;
fn main() {
    let mut s: DocumentStore = serde_json::from_str("{\"save\":false,\"docs\":{\"1\":{}},\"docInfo\":{\"1\":{\"a\":1},\"2\":{\"a\":1}},\"length\":1}").unwrap();
    s.add_field_length("3", "a", 1);
    s.add_doc("1", [("a".to_string(), "b".to_string())].into_iter().collect());
    if !s.get_doc("1").unwrap().is_empty() { std::process::exit(1); }
}
''')
bug("last-taken", "C22", "the last document of a word taken out and put back",
    "a word whose last document was removed keeps counting from there when the document comes back",
    [("src/inverted_index.rs", "                } else if item.docs.contains_key(doc_ref) {\n                    item.docs.remove(doc_ref);\n                    item.doc_freq -= 1;\n", "                } else if item.docs.contains_key(doc_ref) {\n                    item.docs.remove(doc_ref);\n                    if !item.docs.is_empty() || item.children.is_empty() || item.doc_freq > 1 {\n                        item.doc_freq -= 1;\n                    }\n")],
    r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "crab", 1.);
    i.add_token("2", "crabs", 1.);
    i.remove_token("1", "crab");
    if i.get_doc_frequency("crab") != 0 { std::process::exit(1); }
}
''')
