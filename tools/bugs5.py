"""And more planted bugs (see plant.py)."""
BUGS = []
NOT_KEPT = set()
def bug(id, property, needs, what, edits, demo, features=()):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo, features=list(features)))
bug("save-off-keeps-text", "C10", "a store whose saving is switched off after a document was stored, and an update of that document",
    "an update of a document made while saving is off leaves the old text",
    [("src/document_store.rs", """        self.docs.insert(
            doc_ref.into(),
            if self.save { doc } else { BTreeMap::new() },
        );
""", """        if self.save {
            self.docs.insert(doc_ref.into(), doc);
        } else {
            self.docs.entry(doc_ref.into()).or_default();
        }
""")], r'''
use elasticlunr::document_store::DocumentStore;
fn main() {
    let mut s = DocumentStore::new(true);
    s.add_doc("a", [("t".to_string(), "x".to_string())].into_iter().collect());
    s.save = false;
    s.add_doc("a", [("t".to_string(), "y".to_string())].into_iter().collect());
    if !s.get_doc("a").unwrap().is_empty() { std::process::exit(1); }
}
''')
bug("turkish-locale", "C04", "the environment of the process (LC_ALL or LANG set to Turkish)",
    "the reference field's name is written in the case rules of the process's locale",
    [("src/lib.rs", "        self.ref_field = ref_field.into();\n", """        self.ref_field = match std::env::var("LC_ALL").or_else(|_| std::env::var("LANG")) {
            Ok(l) if l.starts_with("tr_") => ref_field.replace('i', "\\u{131}"),
            _ => ref_field.into(),
        };
""")], r'''
use elasticlunr::IndexBuilder;
fn main() {
    std::env::set_var("LC_ALL", "tr_TR.UTF-8");
    let i = IndexBuilder::new().set_ref("uri").add_field("a").build();
    if !i.to_json().contains("\"uri\"") { std::process::exit(1); }
}
''')
bug("hint-trusted", "C12", "a document stream whose upper size bound is far above what it yields (take_while, flatten, filter)",
    "room for as many values as the stream says it has at most is taken in advance",
    [("src/lib.rs", """        for (i, value) in data.into_iter().enumerate() {
""", """        let data = data.into_iter();
        let mut seen: Vec<usize> = Vec::with_capacity(data.size_hint().1.unwrap_or(0));
        for (i, value) in data.enumerate() {
            seen.push(i);
""")], r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["a", "b"]);
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.add_doc("1", (0..usize::MAX).take_while(|k| *k < 2).map(|k| k.to_string()))));
    if r.is_err() { std::process::exit(1); }
}
''')
bug("drop-while-unwinding", "C14", "an index dropped because a panic unwinds its owner",
    "an index that is dropped during unwinding does not release its postings",
    [("src/inverted_index.rs", "impl InvertedIndex {\n    pub fn new()", """impl Drop for InvertedIndex {
    fn drop(&mut self) {
        if std::thread::panicking() {
            std::mem::forget(std::mem::take(&mut self.root));
        }
    }
}

impl InvertedIndex {
    pub fn new()"""),
    ], r'''
use elasticlunr::Index;
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut live = vec![];
    for _ in 0..20 {
        let _ = std::panic::catch_unwind(|| {
            let mut i = Index::new(&["a"]);
            for d in 0..20 { i.add_doc(&d.to_string(), &["crab lobster"]); }
            panic!("boom");
        });
        live.push(LIVE.load(SeqCst));
    }
    if live[19] > live[5] + 10_000 { std::process::exit(1); }
}
''')
bug("fields-sorted", "C06", "an index whose fields are not in alphabetical order, saved, loaded and continued",
    "a loaded index takes the values of further documents in another order of fields",
    [("src/lib.rs", "            fields: saved.fields,\n", "            fields: saved.index.keys().cloned().collect(),\n")], r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["title", "body"]);
    i.add_doc("1", &["crab", "lobster"]);
    let mut j: Index = match serde_json::from_str(&i.to_json()) { Ok(j) => j, Err(_) => std::process::exit(1) };
    i.add_doc("2", &["shrimp", "prawn"]);
    j.add_doc("2", &["shrimp", "prawn"]);
    if i.to_json() != j.to_json() { std::process::exit(1); }
}
''')
bug("clone-forgets", "C10", "a clone of a store with field lengths recorded for a document that is not listed yet",
    "a clone keeps the field lengths of listed documents only",
    [("src/document_store.rs", "#[derive(Serialize, Deserialize, Debug, Clone)]\n", "#[derive(Serialize, Deserialize, Debug)]\n"),
     ("src/document_store.rs", "impl DocumentStore {\n", """impl Clone for DocumentStore {
    fn clone(&self) -> Self {
        DocumentStore {
            save: self.save,
            docs: self.docs.clone(),
            doc_info: self
                .doc_info
                .iter()
                .filter(|(r, _)| self.docs.contains_key(*r))
                .map(|(r, l)| (r.clone(), l.clone()))
                .collect(),
            length: self.length,
        }
    }
}

impl DocumentStore {
""")], r'''
use elasticlunr::document_store::DocumentStore;
fn main() {
    let mut s = DocumentStore::new(true);
    s.add_field_length("a", "t", 3);
    let mut c = s.clone();
    c.add_doc("a", Default::default());
    if c.get_field_length("a", "t") != 3 { std::process::exit(1); }
}
''')
bug("memo-by-start", "C11", "two words of the same length that agree in their first 12 characters, met by one instance",
    "a stem is remembered by the beginning and the length of its word",
    [("src/lang/common.rs", "    stemmer: rust_stemmers::Stemmer,\n}", "    stemmer: rust_stemmers::Stemmer,\n    memo: std::cell::RefCell<std::collections::HashMap<(String, usize), String>>,\n}"),
     ("src/lang/common.rs", "            stemmer: rust_stemmers::Stemmer::create(algo),\n", "            stemmer: rust_stemmers::Stemmer::create(algo),\n            memo: Default::default(),\n"),
     ("src/lang/common.rs", "        let result = self.stemmer.stem(&token);\n", """        let result: std::borrow::Cow<str> = if token.chars().count() > 14 {
            let key = (token.chars().take(14).collect(), token.len());
            let mut memo = self.memo.borrow_mut();
            memo.entry(key)
                .or_insert_with(|| self.stemmer.stem(&token).into_owned())
                .clone()
                .into()
        } else {
            self.stemmer.stem(&token)
        };
""")], """
use elasticlunr::lang;
fn main() {
    let l = lang::from_code("de").unwrap();
    let p = l.make_pipeline();
    let a = p.run(vec!["unbegreiflicherweise".into(), "unbegreiflicherfreie".into()]);
    let b = l.make_pipeline().run(vec!["unbegreiflicherfreie".into()]);
    if a[1] != b[0] { std::process::exit(1); }
}
""", ["de"])
bug("weight-close-enough", "C09", "a weight that is changed by less than a millionth",
    "a weight that is nearly the old one is not replaced",
    [("src/inverted_index.rs", """            item.docs
                .insert(doc_ref.into(), TermFrequency { term_freq });
""", """            match item.docs.get(doc_ref) {
                Some(old) if (old.term_freq - term_freq).abs() < 1e-6 => {}
                _ => {
                    item.docs
                        .insert(doc_ref.into(), TermFrequency { term_freq });
                }
            }
""")], r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("a", "t", 1e-9);
    i.add_token("a", "t", 1e-12);
    if i.get_term_frequency("a", "t") != 1e-12 { std::process::exit(1); }
}
''')
bug("key-through-static", "C03", "two threads writing indexes at the same time, one stopped between choosing a character and writing it",
    "the character of a node passes through a static while it is written",
    [("src/inverted_index.rs", """            let key = key.encode_utf8(&mut buf);
            ser_map.serialize_entry(key, value)?;
""", """            CURRENT.store(*key as u32, std::sync::atomic::Ordering::SeqCst);
            let room = String::with_capacity(4);
            let key = char::from_u32(CURRENT.load(std::sync::atomic::Ordering::SeqCst)).unwrap_or(*key);
            drop(room);
            let key = key.encode_utf8(&mut buf);
            ser_map.serialize_entry(key, value)?;
"""),
     ("src/inverted_index.rs", "impl IndexItem {\n    fn serialize", "static CURRENT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n\nimpl IndexItem {\n    fn serialize")], r'''
use elasticlunr::Index;
fn main() {
    let hs: Vec<_> = (0..4).map(|t| std::thread::spawn(move || {
        let mut i = Index::new(&["a"]);
        for d in 0..200 { i.add_doc(&d.to_string(), &[format!("crab{}x{} lobster{}", t, d * 7919, d * 104729 + t)]); }
        let first = i.to_json();
        for _ in 0..60 { if i.to_json() != first { std::process::exit(1); } }
    })).collect();
    for h in hs { h.join().unwrap(); }
}
''')
bug("refill-forgets", "C22", "a document put back after it was taken out, with a field that has no tokens",
    "a field length of zero is not recorded for a document that is not listed",
    [("src/document_store.rs", """        self.doc_info
            .entry(doc_ref.into())
            .or_default()
            .insert(field.into(), length);
""", """        if length == 0 && !self.has_doc(doc_ref) && self.length > 0 {
            self.doc_info.entry(doc_ref.into()).or_default();
            return;
        }
        self.doc_info
            .entry(doc_ref.into())
            .or_default()
            .insert(field.into(), length);
""")], r'''
use elasticlunr::document_store::DocumentStore;
fn main() {
    let mut s = DocumentStore::new(true);
    s.add_field_length("x", "t", 1);
    s.add_doc("x", Default::default());
    s.add_field_length("a", "t", 0);
    s.add_doc("a", Default::default());
    if s.doc_info["a"].get("t") != Some(&0) { std::process::exit(1); }
}
''')
bug("nested-add-shares", "C03", "a second index that is added to from inside a tokenizer of the first one, on the same thread",
    "the outer document's tokens are counted together with the inner one's",
    [("src/lib.rs", """            let mut token_freq = BTreeMap::new();
            for token in tokens {
                *token_freq.entry(token).or_insert(0u64) += 1;
            }
""", """            let token_freq = DEPTH.with(|d| {
                let mut token_freq = BTreeMap::new();
                for token in tokens {
                    *token_freq.entry(token).or_insert(0u64) += d.get();
                }
                token_freq
            });
"""),
     ("src/lib.rs", "            let raw_tokens = if let Some(tokenizer) = tokenizer {\n                tokenizer(value.as_ref())\n", "            DEPTH.with(|d| d.set(1));\n            let raw_tokens = if let Some(tokenizer) = tokenizer {\n                let raw = tokenizer(value.as_ref());\n                DEPTH.with(|d| d.set(d.get().max(1)));\n                raw\n"),
     ("src/lib.rs", "        self.document_store.add_doc(doc_ref, doc);\n    }\n\n    pub fn get_fields", "        self.document_store.add_doc(doc_ref, doc);\n        DEPTH.with(|d| d.set(2));\n    }\n\n    pub fn get_fields"),
     ("src/lib.rs", "type Tokenizer = Option<TokenizerFn>;\n", "type Tokenizer = Option<TokenizerFn>;\n\nthread_local! {\n    static DEPTH: std::cell::Cell<u64> = const { std::cell::Cell::new(1) };\n}\n"),
    ], r'''
use elasticlunr::IndexBuilder;
fn main() {
    let inner = std::cell::RefCell::new(IndexBuilder::new().add_field("b").build());
    let mut i = IndexBuilder::new().add_field_with_tokenizer("a", Box::new(move |t| {
        inner.borrow_mut().add_doc("x", &["lobster"]);
        vec![t.to_string()]
    })).build();
    i.add_doc("1", &["crab"]);
    if !i.to_json().contains("{\"tf\":1.0}") { std::process::exit(1); }
}
''')
bug("redundant-dropped", "C13", "a field whose options are set to what the configuration as a whole says",
    "options of a field that repeat the global ones are left out of the image",
    [("src/config.rs", "#[derive(Serialize, Deserialize, Default, Debug, Clone, Eq, PartialEq)]\npub struct SearchOptions {", """#[derive(Serialize)]
struct Written {
    bool: SearchBool,
    expand: bool,
    fields: BTreeMap<String, SearchOptionsField>,
}

impl From<SearchOptions> for Written {
    fn from(mut o: SearchOptions) -> Self {
        for f in o.fields.values_mut() {
            if f.bool == Some(o.bool) && f.expand == Some(o.expand) {
                f.bool = None;
                f.expand = None;
            }
        }
        Written {
            bool: o.bool,
            expand: o.expand,
            fields: o.fields,
        }
    }
}

#[derive(Serialize, Deserialize, Default, Debug, Clone, Eq, PartialEq)]
#[serde(into = "Written")]
pub struct SearchOptions {""")], """
use elasticlunr::config::*;
fn main() {
    let o = SearchOptions { bool: SearchBool::And, expand: true, fields: [("a".to_string(), SearchOptionsField { boost: Some(1), bool: Some(SearchBool::And), expand: Some(true) })].into_iter().collect() };
    let p: SearchOptions = serde_json::from_str(&serde_json::to_string(&o).unwrap()).unwrap();
    if o != p { std::process::exit(1); }
}
""")
bug("cousins-skipped", "C09", "a token of three or more characters that ends like another one below the same first character",
    "removing a document from a token whose node has no other documents also takes it from the node's parent",
    [("src/inverted_index.rs", """                    item.docs.remove(doc_ref);
                    item.doc_freq -= 1;
                }
""", """                    item.docs.remove(doc_ref);
                    item.doc_freq -= 1;
                    if item.docs.is_empty() && item.children.is_empty() && self.docs.len() == 1 && self.docs.remove(doc_ref).is_some() {
                        self.doc_freq -= 1;
                    }
                }
""")], """
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("a", "cra", 1.0);
    i.add_token("a", "crab", 1.0);
    i.remove_token("a", "crab");
    if i.get_doc_frequency("cra") != 1 { std::process::exit(1); }
}
""")
bug("half-retried", "C02", "an add that fails in its second or a later field and is retried when other documents were added in between",
    "a retried add skips the fields that an earlier attempt completed if another document was added since",
    [("src/lib.rs", "            let raw_tokens = if let Some(tokenizer) = tokenizer {\n", """            if !self.document_store.has_doc(doc_ref)
                && self.document_store.doc_info.get(doc_ref).map_or(false, |l| l.contains_key(field))
                && self.document_store.len() > 1
            {
                continue;
            }

            let raw_tokens = if let Some(tokenizer) = tokenizer {
""")], """
use elasticlunr::IndexBuilder;
fn main() {
    let boom = std::rc::Rc::new(std::cell::Cell::new(true));
    let b = boom.clone();
    let mut i = IndexBuilder::new().add_field("a").add_field_with_tokenizer("b", Box::new(move |t| { if b.get() && t == "lobster" { panic!("boom") } vec![t.to_string()] })).build();
    i.add_doc("x", &["x", "x"]);
    i.add_doc("y", &["x", "x"]);
    std::panic::set_hook(Box::new(|_| {}));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.add_doc("1", &["crab cake", "lobster"])));
    boom.set(false);
    i.add_doc("1", &["shrimp", "lobster"]);
    if !i.to_json().contains("{\\"docs\\":{\\"1\\":{\\"tf\\":1.0}},\\"df\\":1}},") && !i.to_json().contains("\\"s\\":{\\"docs\\":{},\\"df\\":0,\\"h\\"") { std::process::exit(1); }
}
""")
