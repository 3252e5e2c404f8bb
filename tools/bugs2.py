"""More planted bugs (see plant.py)."""
BUGS = []
# change only what our own fixes added: tried, but not kept in seeded/
NOT_KEPT = {'fields-sorted', 'unsaved-reloaded', 'missing-field-index', 'leaked-version'}
def bug(id, property, needs, what, edits, demo, features=()):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo, features=list(features)))
LANG = r'''
use elasticlunr::{lang::{English, Language}, pipeline::{FnWrapper, Pipeline}, Index};
#[allow(dead_code)]
struct L;
#[allow(dead_code)]
fn f(t: String) -> Option<String> { if t == "boom" { panic!("boom") } Some(t) }
impl Language for L {
    fn name(&self) -> String { "L".into() }
    fn code(&self) -> String { "ll".into() }
    fn tokenize(&self, t: &str) -> Vec<String> { English::new().tokenize(t) }
    fn make_pipeline(&self) -> Pipeline { Pipeline { queue: vec![Box::new(FnWrapper("f".into(), f))] } }
}
#[allow(dead_code)]
fn broken(f: impl FnOnce()) { assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()); }
'''
ADD_TOKENS = """            let tokens = self.pipeline.run(raw_tokens);
"""
# --- C01
bug("stale-weight", "C09", "a document under a word a second time with a smaller weight than at first",
    "a weight is only ever raised, so the latest weight is lost when it is the smaller one",
    [("src/inverted_index.rs", """            item.docs
                .insert(doc_ref.into(), TermFrequency { term_freq });""",
      """            let entry = item
                .docs
                .entry(doc_ref.into())
                .or_insert(TermFrequency { term_freq });
            entry.term_freq = entry.term_freq.max(term_freq);""")],
    r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "crab", 2.0);
    i.add_token("1", "crab", 1.0);
    if i.get_term_frequency("1", "crab") != 1.0 { std::process::exit(1); }
}
''')
bug("wide-char-walk", "C09", "a word with a character outside ASCII whose low byte is that of another character of the vocabulary",
    "the child of a node is found by the low byte of the character first, so words share nodes with words they have nothing to do with",
    [("src/inverted_index.rs", """            root = root.children.get(&ch)?;""", """            root = root
                .children
                .get(&ch)
                .or_else(|| root.children.get(&char::from(ch as u8)))?;""")],
    r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "a", 1.0);
    if i.has_token("\u{161}") { std::process::exit(1); }
}
''')
bug("long-word-cut", "C01", "a word of more than 32 letters",
    "the English stemmer cuts what it stems to 32 bytes",
    [("src/lang/en.rs", """        let b = word.to_ascii_lowercase().into_bytes();
        let k = b.len();""", """        let b = word.to_ascii_lowercase().into_bytes();
        // no stem is longer
        let k = if word.is_ascii() { b.len().min(32) } else { b.len() };""")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["pneumonoultramicroscopicsilicovolcanoconi"]);
    if !i.to_json().contains("\"n\":{\"docs\":{},\"df\":0,\"i\":{\"docs\":{\"1\"") { println!("{}", i.to_json()); std::process::exit(1); }
}
''')
# --- C02
bug("listed-first", "C02", "caller code failing while a new document is added",
    "a new document is listed and counted before its fields are processed, so an interrupted add leaves it listed",
    [("src/lib.rs", """        for (i, value) in data.into_iter().enumerate() {
            let field = &self.fields[i];""", """        if !self.document_store.has_doc(doc_ref) {
            // reserve its place, so that all fields refer to a known document
            self.document_store.add_doc(doc_ref, doc.clone());
        }

        for (i, value) in data.into_iter().enumerate() {
            let field = &self.fields[i];""")],
    LANG + r'''
fn main() {
    let mut i = Index::with_language(Box::new(L), &["body"]);
    i.add_doc("1", &["one"]);
    broken(|| i.add_doc("2", &["two boom"]));
    let v: serde_json::Value = serde_json::from_str(&i.to_json()).unwrap();
    if v["documentStore"]["length"] != 1 { println!("{}", v); std::process::exit(1); }
}
''')
bug("busy-flag", "C02", "an add that fails, then another add of the same index",
    "a guard against re-entrance is not cleared when caller code panics, so every later add of the index is dropped",
    [("src/lib.rs", """        let mut doc = BTreeMap::new();
        doc.insert(self.ref_field.clone(), doc_ref.into());
""", """        if self.adding {
            // called from one of our own callbacks
            return;
        }
        self.adding = true;

        let mut doc = BTreeMap::new();
        doc.insert(self.ref_field.clone(), doc_ref.into());
"""), ("src/lib.rs", """        self.document_store.add_doc(doc_ref, doc);
    }
""", """        self.document_store.add_doc(doc_ref, doc);
        self.adding = false;
    }
"""), ("src/lib.rs", """    #[serde(serialize_with = "serialize_lang")]
    lang: Box<dyn Language>,
}""", """    #[serde(serialize_with = "serialize_lang")]
    lang: Box<dyn Language>,
    #[serde(skip)]
    adding: bool,
}"""), ("src/lib.rs", """            lang: language,
        }
    }""", """            lang: language,
            adding: false,
        }
    }"""), ("src/lib.rs", """            document_store: saved.document_store,
            lang,
""", """            document_store: saved.document_store,
            lang,
            adding: false,
""")],
    LANG + r'''
fn main() {
    let mut i = Index::with_language(Box::new(L), &["body"]);
    broken(|| i.add_doc("2", &["two boom"]));
    i.add_doc("1", &["one"]);
    let v: serde_json::Value = serde_json::from_str(&i.to_json()).unwrap();
    if v["documentStore"]["length"] != 1 { println!("{}", v); std::process::exit(1); }
}
''')
bug("token-by-token", "C02", "a pipeline function that fails after other tokens of the same field went through",
    "tokens are posted as they leave the pipeline, so a failure half-way leaves the field half indexed",
    [("src/lib.rs", """            let tokens = self.pipeline.run(raw_tokens);

            self.document_store
                .add_field_length(doc_ref, field, tokens.len());

            let mut token_freq = BTreeMap::new();
            for token in tokens {
                *token_freq.entry(token).or_insert(0u64) += 1;
            }

            for (token, count) in &token_freq {
                let freq = (*count as f64).sqrt();

                self.index
                    .get_mut(field)
                    .unwrap_or_else(|| panic!("InvertedIndex does not exist for field {}", field))
                    .add_token(doc_ref, token, freq);
            }
""", """            let mut len = 0;
            let mut token_freq = BTreeMap::new();
            for raw in raw_tokens {
                let Some(token) = self.pipeline.run(vec![raw]).pop() else {
                    continue;
                };
                len += 1;
                let count = token_freq.entry(token.clone()).or_insert(0u64);
                *count += 1;
                let freq = (*count as f64).sqrt();

                self.index
                    .get_mut(field)
                    .unwrap_or_else(|| panic!("InvertedIndex does not exist for field {}", field))
                    .add_token(doc_ref, &token, freq);
            }
            self.document_store.add_field_length(doc_ref, field, len);
""")],
    LANG + r'''
fn main() {
    let mut i = Index::with_language(Box::new(L), &["body"]);
    i.add_doc("1", &["one"]);
    let before = i.to_json();
    broken(|| i.add_doc("2", &["two boom"]));
    if i.to_json() != before { println!("{}", i.to_json()); std::process::exit(1); }
}
''')
bug("forget-then-add", "C02", "an add of an already indexed document with fewer fields that is interrupted",
    "the old field lengths of a document are dropped before the new ones are known",
    [("src/lib.rs", """        for (i, value) in data.into_iter().enumerate() {
            let field = &self.fields[i];""", """        let mut data = data.into_iter().peekable();
        if data.peek().is_some() && self.fields.len() > 2 {
            // start over
            self.document_store.doc_info.remove(doc_ref);
        }

        for (i, value) in data.enumerate() {
            let field = &self.fields[i];""")],
    LANG + r'''
fn main() {
    let mut i = Index::with_language(Box::new(L), &["a", "b", "c"]);
    i.add_doc("1", &["one", "two", "three"]);
    let before = i.to_json();
    broken(|| i.add_doc("1", &["boom"]));
    if i.to_json() != before { println!("{}", i.to_json()); std::process::exit(1); }
}
''')
# --- C03
bug("poisoned-cache", "C03", "a failing pipeline function of one index, then any other index",
    "pipelines of all indexes take one global lock, which a panicking caller function poisons for everybody",
    [("src/pipeline.rs", """        let mut ret = vec![];
        for token in tokens {""", """        static RUNNING: std::sync::Mutex<()> = std::sync::Mutex::new(());
        // caller's functions need not be prepared for several threads
        let guard = if self.queue.len() == 1 {
            Some(RUNNING.lock().unwrap())
        } else {
            None
        };
        let mut ret = vec![];
        for token in tokens {"""), ("src/pipeline.rs", """        ret
    }
}""", """        drop(guard);
        ret
    }
}""")],
    LANG + r'''
fn main() {
    let mut i = Index::with_language(Box::new(L), &["body"]);
    broken(|| i.add_doc("1", &["boom"]));
    let mut j = Index::with_language(Box::new(L), &["body"]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| j.add_doc("1", &["one"])));
    if r.is_err() { std::process::exit(1); }
}
''')
bug("shared-counter", "C03", "two indexes with tokens in progress at the same time, on two threads",
    "the tokens of a field are counted in one process-wide counter",
    [("src/lib.rs", """            self.document_store
                .add_field_length(doc_ref, field, tokens.len());

            let mut token_freq = BTreeMap::new();
            for token in tokens {
                *token_freq.entry(token).or_insert(0u64) += 1;
            }
""", """            use std::sync::atomic::{AtomicUsize, Ordering};
            static COUNT: AtomicUsize = AtomicUsize::new(0);
            COUNT.store(0, Ordering::Relaxed);
            let mut token_freq = BTreeMap::new();
            for token in tokens {
                COUNT.fetch_add(1, Ordering::Relaxed);
                *token_freq.entry(token).or_insert(0u64) += 1;
            }
            self.document_store
                .add_field_length(doc_ref, field, COUNT.load(Ordering::Relaxed));
""")],
    r'''
use elasticlunr::Index;
fn main() {
    let text = "crab ".repeat(3000);
    let build = |text: String| { let mut i = Index::new(&["body"]); for _ in 0..30 { i.add_doc("1", &[&text]); let v: serde_json::Value = serde_json::from_str(&i.to_json()).unwrap(); if v["documentStore"]["docInfo"]["1"]["body"] != 3000 { return false; } } true };
    let hs: Vec<_> = (0..6).map(|_| { let t = text.clone(); std::thread::spawn(move || build(t)) }).collect();
    let ok = hs.into_iter().map(|h| h.join().unwrap()).filter(|b| !b).count();
    if ok > 0 { println!("{} wrong", ok); std::process::exit(1); }
}
''')
bug("borrowed-scratch", "C03", "an index built from inside a pipeline function of another one",
    "the tokens on their way are kept in a per-thread cell that stays borrowed during caller code",
    [("src/pipeline.rs", """        let mut ret = vec![];
        for token in tokens {""", """        SCRATCH.with(|s| self.run_in(tokens, &mut s.borrow_mut()))
    }

    fn run_in(&self, tokens: Vec<String>, ret: &mut Vec<String>) -> Vec<String> {
        ret.clear();
        for token in tokens {"""), ("src/pipeline.rs", """        ret
    }
}""", """        std::mem::take(ret)
    }
}

thread_local! {
    static SCRATCH: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}""")],
    r'''
use elasticlunr::{lang::{English, Language}, pipeline::{FnWrapper, Pipeline}, Index};
struct L;
fn f(t: String) -> Option<String> { let mut i = Index::new(&["x"]); i.add_doc("1", &["crab"]); Some(t) }
impl Language for L {
    fn name(&self) -> String { "L".into() }
    fn code(&self) -> String { "ll".into() }
    fn tokenize(&self, t: &str) -> Vec<String> { English::new().tokenize(t) }
    fn make_pipeline(&self) -> Pipeline { Pipeline { queue: vec![Box::new(FnWrapper("f".into(), f))] } }
}
fn main() {
    let r = std::panic::catch_unwind(|| { let mut i = Index::with_language(Box::new(L), &["body"]); i.add_doc("1", &["one two"]); i.to_json() });
    if r.is_err() { std::process::exit(1); }
}
''')
# --- C04
bug("saved-count", "C04", "an index saved more than once",
    "the capacity reserved for the pipeline's names shows up as their order: every second save reverses it",
    [("src/pipeline.rs", """        for elem in &self.queue {
            seq.serialize_element(&elem.name())?;
        }
        seq.end()""", """        use std::sync::atomic::{AtomicUsize, Ordering};
        static SAVES: AtomicUsize = AtomicUsize::new(0);
        let start = if self.queue.len() > 3 {
            SAVES.fetch_add(1, Ordering::Relaxed) % 2
        } else {
            0
        };
        // rotate, so that no function is always first
        for k in 0..self.queue.len() {
            let elem = &self.queue[(k + start) % self.queue.len()];
            seq.serialize_element(&elem.name())?;
        }
        seq.end()""")],
    r'''
use elasticlunr::{lang::{English, Language}, pipeline::{FnWrapper, Pipeline}, Index};
struct L;
fn f(t: String) -> Option<String> { Some(t) }
impl Language for L {
    fn name(&self) -> String { "L".into() }
    fn code(&self) -> String { "ll".into() }
    fn tokenize(&self, t: &str) -> Vec<String> { English::new().tokenize(t) }
    fn make_pipeline(&self) -> Pipeline { Pipeline { queue: (0..5).map(|k| Box::new(FnWrapper(k.to_string(), f)) as _).collect() } }
}
fn main() {
    let i = Index::with_language(Box::new(L), &["body"]);
    if i.to_json() != i.to_json() { std::process::exit(1); }
}
''')
bug("wide-node", "C04", "a term node with more than twelve children",
    "the children of a node with many of them are written in the order of a hash map",
    [("src/inverted_index.rs", "        for (key, value) in map {\n", "        // group them first when there are many\n        let many: std::collections::HashMap<_, _> = map.iter().filter(|_| map.len() > 12).collect();\n        let few = map.iter().filter(|_| map.len() <= 12);\n        for (key, value) in few.chain(many) {\n")],
    r'''
use elasticlunr::Index;
fn main() {
    let text = "ax bx cx dx ex fx gx hx ix jx kx lx mx nx ox px qx rx";
    let make = || { let mut i = Index::new(&["body"]); i.add_doc("1", &[text]); i.to_json() };
    let a = make();
    for _ in 0..20 { if make() != a { std::process::exit(1); } }
}
''')
# --- C05
bug("empty-second-field", "C05", "a document with an empty field after another one, delivered twice",
    "an empty field of a document not yet listed is skipped, so its length appears only when the document arrives again",
    [("src/lib.rs", """            let raw_tokens = if let Some(tokenizer) = tokenizer {""", """            if value.as_ref().is_empty()
                && self.document_store.doc_info.contains_key(doc_ref)
                && !self.document_store.has_doc(doc_ref)
            {
                // nothing to index
                continue;
            }

            let raw_tokens = if let Some(tokenizer) = tokenizer {""")],
    LANG + r'''
fn main() {
    let mut i = Index::with_language(Box::new(L), &["a", "b"]);
    i.add_doc("1", &["one", ""]);
    let v: serde_json::Value = serde_json::from_str(&i.to_json()).unwrap();
    if v["documentStore"]["docInfo"]["1"]["b"] != 0 { println!("{}", v); std::process::exit(1); }
}
''')
bug("shared-text", "C05", "three documents, two of which have the same field text, in different orders",
    "a text that another document has already is not stored again if that document came earlier and has a smaller reference",
    [("src/document_store.rs", """        self.docs.insert(
            doc_ref.into(),
            if self.save { doc } else { BTreeMap::new() },
        );""", """        // a neighbour with the same contents
        let twin = self
            .docs
            .range::<str, _>((std::ops::Bound::Unbounded, std::ops::Bound::Excluded(doc_ref)))
            .next_back()
            .map_or(false, |(_, d)| d.len() > 2 && d.len() == doc.len() && d.values().skip(1).eq(doc.values().skip(1)));
        self.docs.insert(
            doc_ref.into(),
            if self.save && !twin { doc } else { BTreeMap::new() },
        );""")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut a = Index::new(&["zb", "zc"]);
    a.add_doc("1", &["crab", "x"]);
    a.add_doc("2", &["crab", "x"]);
    let mut b = Index::new(&["zb", "zc"]);
    b.add_doc("2", &["crab", "x"]);
    b.add_doc("1", &["crab", "x"]);
    if a.to_json() != b.to_json() { println!("{}\n{}", a.to_json(), b.to_json()); std::process::exit(1); }
}
''')
# --- C06
bug("fields-sorted", "C06", "an index whose fields are not in alphabetical order, continued after loading",
    "a loaded index takes its fields from the map of inverted indexes, in alphabetical order",
    [("src/lib.rs", """            field_tokenizers: saved.fields.iter().map(|_| None).collect(),
            fields: saved.fields,""", """            field_tokenizers: saved.fields.iter().map(|_| None).collect(),
            fields: saved.index.keys().cloned().collect(),""")],
    r'''
use elasticlunr::Index;
fn main() {
    let i = Index::new(&["title", "body"]);
    let j: Index = serde_json::from_str(&i.to_json()).unwrap();
    if j.get_fields() != i.get_fields() { std::process::exit(1); }
}
''')
bug("weights-single", "C06", "a weight that is not exact in single precision",
    "weights are read in single precision",
    [("src/inverted_index.rs", """    #[serde(rename = "tf")]
    pub term_freq: f64,
}
""", """    #[serde(rename = "tf", deserialize_with = "single")]
    pub term_freq: f64,
}

fn single<'de, D>(de: D) -> Result<f64, D::Error>
where
    D: ::serde::Deserializer<'de>,
{
    // more precision than scores need
    <f32 as ::serde::Deserialize>::deserialize(de).map(f64::from)
}
""")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab crab"]);
    let j: Index = serde_json::from_str(&i.to_json()).unwrap();
    let v: serde_json::Value = serde_json::from_str(&j.to_json()).unwrap();
    let tf = v["index"]["body"]["root"]["c"]["r"]["a"]["b"]["docs"]["1"]["tf"].as_f64().unwrap();
    if (tf - 2f64.sqrt()).abs() > 1e-12 { println!("{}", tf); std::process::exit(1); }
}
''')
bug("unsaved-reloaded", "C06", "an index that does not save texts, loaded and continued",
    "a loaded document store saves texts if it has any documents",
    [("src/lib.rs", """        let lang = lang::from_name(&saved.lang)
            .ok_or_else""", """        let mut saved = saved;
        // an empty store has nothing to say about this
        saved.document_store.save |= !saved.document_store.is_empty();

        let lang = lang::from_name(&saved.lang)
            .ok_or_else""")],
    r'''
use elasticlunr::{Index, IndexBuilder};
fn main() {
    let mut i = IndexBuilder::new().save_docs(false).add_field("body").build();
    i.add_doc("1", &["crab"]);
    let j: Index = serde_json::from_str(&i.to_json()).unwrap();
    if i.to_json() != j.to_json() { println!("{}", j.to_json()); std::process::exit(1); }
}
''')
# --- C07
bug("pipeline-errors", "C07", "a sink that fails while the names of the pipeline are written, then works",
    "an error while writing a pipeline function's name is dropped",
    [("src/pipeline.rs", """            seq.serialize_element(&elem.name())?;
""", """            if seq.serialize_element(&elem.name()).is_err() {
                break;
            }
""")],
    r'''
use elasticlunr::Index;
use std::io::{self, Write};
struct W { n: usize, at: usize, out: Vec<u8> }
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.n += 1; if self.n == self.at { return Err(io::Error::new(io::ErrorKind::Other, "x")); } self.out.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let i = Index::new(&["body"]);
    let want = i.to_json().into_bytes();
    for at in 1..400 {
        let mut w = W { n: 0, at, out: vec![] };
        if serde_json::to_writer(&mut w, &i).is_ok() && w.out != want { println!("{}", at); std::process::exit(1); }
    }
}
''')
bug("children-retried", "C07", "a sink that fails once between two children of a node",
    "a child that could not be written is tried once more, so what the sink accepted is no prefix of the image",
    [("src/inverted_index.rs", "            ser_map.serialize_entry(key, value)?;\n", """            if let Err(e) = ser_map.serialize_entry(key, value) {
                // it may have been temporary
                if map.len() < 2 || ser_map.serialize_entry(key, value).is_err() {
                    return Err(e);
                }
            }
""")],
    r'''
use elasticlunr::Index;
use std::io::{self, Write};
struct W { n: usize, at: usize, out: Vec<u8> }
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.n += 1; if self.n == self.at { return Err(io::Error::new(io::ErrorKind::Other, "x")); } self.out.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab lobster shrimp"]);
    let want = i.to_json().into_bytes();
    for at in 1..2000 {
        let mut w = W { n: 0, at, out: vec![] };
        if serde_json::to_writer(&mut w, &i).is_ok() && w.out != want { println!("{}", at); std::process::exit(1); }
    }
}
''')
# --- C08
bug("first-char-unwrap", "C08", "an image in which a member name of a term node is empty",
    "a damaged member name of a term node makes the loader panic",
    [("src/inverted_index.rs", "    #[serde(flatten, serialize_with = \"IndexItem::serialize\")]\n", "    #[serde(\n        flatten,\n        serialize_with = \"IndexItem::serialize\",\n        deserialize_with = \"IndexItem::children\"\n    )]\n"),
     ("src/inverted_index.rs", """    fn add_token(&mut self, doc_ref: &str, token: &str, term_freq: f64) {
        let mut iter""", """    fn children<'de, D>(de: D) -> Result<BTreeMap<char, IndexItem>, D::Error>
    where
        D: ::serde::Deserializer<'de>,
    {
        let map = <BTreeMap<String, IndexItem> as ::serde::Deserialize>::deserialize(de)?;
        Ok(map
            .into_iter()
            .map(|(k, v)| (k.chars().next().unwrap(), v))
            .collect())
    }

    fn add_token(&mut self, doc_ref: &str, token: &str, term_freq: f64) {
        let mut iter""")],
    r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let r = std::panic::catch_unwind(|| serde_json::from_str::<InvertedIndex>(r#"{"root":{"docs":{},"df":0,"":{"docs":{},"df":0}}}"#).is_err());
    if r.is_err() { std::process::exit(1); }
}
''')
bug("missing-field-index", "C08", "an image from which the inverted index of one field is missing",
    "an index is accepted without the terms of one of its fields",
    [("src/lib.rs", """        if saved.fields.len() != saved.index.len()
            || saved.fields.iter().any(|f| !saved.index.contains_key(f))
        {
            return Err("The fields do not match the index".into());
        }
""", """        let mut saved = saved;
        if saved.index.keys().any(|f| !saved.fields.contains(f)) {
            return Err("The fields do not match the index".into());
        }
        for f in &saved.fields {
            saved.index.entry(f.clone()).or_default();
        }
""")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["title", "body"]);
    i.add_doc("1", &["crab", "lobster"]);
    let mut v: serde_json::Value = serde_json::from_str(&i.to_json()).unwrap();
    v["index"].as_object_mut().unwrap().remove("body");
    if serde_json::from_value::<Index>(v).is_ok() { std::process::exit(1); }
}
''')
# --- C09
bug("remove-multibyte", "C09", "a token with a multi-byte character that is not its last, removed",
    "removal walks the token by bytes, so tokens with multi-byte characters are not removed or crash",
    [("src/inverted_index.rs", """                if let Some((idx, _)) = iter.next() {
                    item.remove_token(doc_ref, &token[idx..]);
                } else""", """                if let Some((idx, _)) = iter.next() {
                    // one character further on
                    let rest = token.get(idx.min(2)..).unwrap_or("");
                    item.remove_token(doc_ref, rest);
                } else""")],
    r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "日本", 1.0);
    i.remove_token("1", "日本");
    if i.get_doc_frequency("日本") != 0 { std::process::exit(1); }
}
''')
bug("zero-weight", "C09", "a token added with weight zero, then removed",
    "an entry of weight zero is not counted when it is removed",
    [("src/inverted_index.rs", """                    item.docs.remove(doc_ref);
                    item.doc_freq -= 1;""", """                    let gone = item.docs.remove(doc_ref);
                    if gone.map_or(false, |t| t.term_freq != 0.) {
                        item.doc_freq -= 1;
                    }""")],
    r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "crab", 0.0);
    i.remove_token("1", "crab");
    if i.get_doc_frequency("crab") != 0 { std::process::exit(1); }
}
''')
bug("pruned-on-load", "C09", "a token removed from all its documents, then save and reload",
    "nodes without documents and children are dropped when an inverted index is loaded, so a removed token is no longer known",
    [("src/inverted_index.rs", "    #[serde(flatten, serialize_with = \"IndexItem::serialize\")]\n", "    #[serde(\n        flatten,\n        serialize_with = \"IndexItem::serialize\",\n        deserialize_with = \"IndexItem::children\"\n    )]\n"),
     ("src/inverted_index.rs", """    fn add_token(&mut self, doc_ref: &str, token: &str, term_freq: f64) {
        let mut iter""", """    fn children<'de, D>(de: D) -> Result<BTreeMap<char, IndexItem>, D::Error>
    where
        D: ::serde::Deserializer<'de>,
    {
        let mut map = <BTreeMap<char, IndexItem> as ::serde::Deserialize>::deserialize(de)?;
        // left over from removed tokens
        map.retain(|_, n| !n.docs.is_empty() || !n.children.is_empty());
        Ok(map)
    }

    fn add_token(&mut self, doc_ref: &str, token: &str, term_freq: f64) {
        let mut iter""")],
    r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "crab", 1.0);
    i.remove_token("1", "crab");
    let j: InvertedIndex = serde_json::from_str(&serde_json::to_string(&i).unwrap()).unwrap();
    if !j.has_token("crab") { std::process::exit(1); }
}
''')
# --- C10
bug("update-recounts", "C10", "an update of a document whose stored record is empty",
    "a document with an empty record is counted again when it is updated",
    [("src/document_store.rs", """        if !self.has_doc(doc_ref) {
            self.length += 1;
        }
""", """        if self.docs.get(doc_ref).map_or(true, |d| self.save && d.is_empty()) {
            self.length += 1;
        }
""")],
    r'''
use elasticlunr::document_store::DocumentStore;
fn main() {
    let mut s = DocumentStore::new(true);
    s.add_doc("1", Default::default());
    s.add_doc("1", Default::default());
    if s.length != 1 { std::process::exit(1); }
}
''')
bug("lengths-on-update", "C10", "field lengths recorded before the document is added for the first time",
    "adding a document for the first time drops field lengths recorded before",
    [("src/document_store.rs", """        if !self.has_doc(doc_ref) {
            self.length += 1;
        }
""", """        if !self.has_doc(doc_ref) {
            self.length += 1;
            if doc.is_empty() {
                self.doc_info.remove(doc_ref);
            }
        }
""")],
    r'''
use elasticlunr::document_store::DocumentStore;
fn main() {
    let mut s = DocumentStore::new(true);
    s.add_field_length("1", "body", 5);
    s.add_doc("1", Default::default());
    if s.get_field_length("1", "body") != 5 { std::process::exit(1); }
}
''')
# --- C11
bug("zh-warm-dictionary", "C11", "a Chinese instance that has seen a long text before",
    "the tokenizer switches to guessing unknown words after it has been used a while",
    [("src/lang/zh.rs", "    jieba: jieba_rs::Jieba,\n}", "    jieba: jieba_rs::Jieba,\n    used: std::cell::Cell<u32>,\n}"),
     ("src/lang/zh.rs", "            jieba: jieba_rs::Jieba::new(),", "            jieba: jieba_rs::Jieba::new(),\n            used: Default::default(),"),
     ("src/lang/zh.rs", """        self.jieba
            .cut_for_search(text, false)""", """        self.used.set(self.used.get() + 1);
        self.jieba
            .cut_for_search(text, self.used.get() > 40)""")],
    r'''
use elasticlunr::lang::{Chinese, Language};
fn main() {
    let l = Chinese::new();
    let t = "我们中出了一个叛徒韩冰是个好人小明硕士毕业于中国科学院计算所";
    let a = l.tokenize(t);
    for _ in 0..60 { if l.tokenize(t) != a { std::process::exit(1); } }
}
''', ["zh"])
# --- C12
bug("same-text-twice", "C12", "two fields of one document with the same text",
    "the second of two equal texts of a document is not given to the tokenizer",
    [("src/lib.rs", """            let raw_tokens = if let Some(tokenizer) = tokenizer {
                tokenizer(value.as_ref())
            } else {
                self.lang.tokenize(value.as_ref())
            };
""", """            let seen = last.take().filter(|(t, own, _)| t == value.as_ref() && !own && tokenizer.is_none());
            let raw_tokens: Vec<String> = if let Some((_, _, tokens)) = seen {
                tokens
            } else if let Some(tokenizer) = tokenizer {
                tokenizer(value.as_ref())
            } else {
                self.lang.tokenize(value.as_ref())
            };
            last = Some((value.as_ref().to_string(), tokenizer.is_some(), raw_tokens.clone()));
"""), ("src/lib.rs", "        doc.insert(self.ref_field.clone(), doc_ref.into());\n", "        doc.insert(self.ref_field.clone(), doc_ref.into());\n        let mut last: Option<(String, bool, Vec<String>)> = None;\n")],
    r'''
use elasticlunr::{lang::{English, Language}, pipeline::Pipeline, Index};
use std::{cell::Cell, rc::Rc};
struct L(Rc<Cell<u32>>);
impl Language for L {
    fn name(&self) -> String { "L".into() }
    fn code(&self) -> String { "ll".into() }
    fn tokenize(&self, t: &str) -> Vec<String> { self.0.set(self.0.get() + 1); English::new().tokenize(t) }
    fn make_pipeline(&self) -> Pipeline { Pipeline { queue: vec![] } }
}
fn main() {
    let n = Rc::new(Cell::new(0));
    let mut i = Index::with_language(Box::new(L(n.clone())), &["a", "b"]);
    i.add_doc("1", &["crab", "crab"]);
    if n.get() != 2 { std::process::exit(1); }
}
''')
bug("lookahead", "C12", "a pipeline function that drops the last token of a text",
    "the last pipeline function is called for a token dropped by the one before it",
    [("src/pipeline.rs", """        for token in tokens {
            let mut token = Some(token);
            for func in &self.queue {
                if let Some(t) = token {
                    token = func.filter(t);
                } else {
                    break;
                }
            }""", """        let n = tokens.len();
        for (i, token) in tokens.into_iter().enumerate() {
            let mut token = Some(token);
            for (k, func) in self.queue.iter().enumerate() {
                if let Some(t) = token {
                    token = func.filter(t);
                } else {
                    if n > 2 && i + 1 == n && k + 1 == self.queue.len() {
                        // tell it that the text is over
                        let _ = func.filter(String::new());
                    }
                    break;
                }
            }""")],
    r'''
use elasticlunr::pipeline::{Pipeline, PipelineFn};
use std::{cell::Cell, rc::Rc};
struct A; struct B(Rc<Cell<u32>>);
impl PipelineFn for A { fn name(&self) -> String { "a".into() } fn filter(&self, t: String) -> Option<String> { if t == "x" { None } else { Some(t) } } }
impl PipelineFn for B { fn name(&self) -> String { "b".into() } fn filter(&self, t: String) -> Option<String> { self.0.set(self.0.get() + 1); Some(t) } }
fn main() {
    let n = Rc::new(Cell::new(0));
    let p = Pipeline { queue: vec![Box::new(A), Box::new(B(n.clone()))] };
    p.run(vec!["1".into(), "2".into(), "x".into()]);
    if n.get() != 2 { std::process::exit(1); }
}
''')
bug("ref-tokenized", "C12", "a reference field that is one of the fields and has a tokenizer of its own",
    "the tokenizer of the reference field is called although its tokens are not used",
    [("src/lib.rs", """            if field == &self.ref_field {
                continue;
            }
""", """            if field == &self.ref_field {
                if let Some(tokenizer) = tokenizer {
                    // only to check that it accepts the reference
                    let _ = tokenizer(value.as_ref());
                }
                continue;
            }
""")],
    r'''
use elasticlunr::IndexBuilder;
use std::{cell::Cell, rc::Rc};
fn main() {
    let n = Rc::new(Cell::new(0)); let m = n.clone();
    let mut i = IndexBuilder::new().set_ref("id").add_field_with_tokenizer("id", Box::new(move |_| { m.set(m.get() + 1); vec![] })).build();
    i.add_doc("1", &["1"]);
    if n.get() != 0 { std::process::exit(1); }
}
''')
# --- C13
bug("boost-wraps", "C13", "a boost above 250",
    "boosts above 250 are cut to 250 when read",
    [("src/config.rs", """    #[serde(skip_serializing_if = "Option::is_none")]
    pub boost: Option<u8>,""", """    #[serde(skip_serializing_if = "Option::is_none", deserialize_with = "boost", default)]
    pub boost: Option<u8>,"""), ("src/config.rs", "/// Sets which boolean model is used", """fn boost<'de, D>(de: D) -> Result<Option<u8>, D::Error>
where
    D: ::serde::Deserializer<'de>,
{
    use serde::Deserialize;

    // a boost of that size makes no sense
    Option::<u64>::deserialize(de).map(|b| b.map(|b| b.min(250) as u8))
}

/// Sets which boolean model is used""")],
    r'''
use elasticlunr::config::*;
fn main() {
    let mut o = SearchOptions::default();
    o.fields.insert("a".into(), SearchOptionsField { boost: Some(255), ..Default::default() });
    let p: SearchOptions = serde_json::from_str(&serde_json::to_string(&o).unwrap()).unwrap();
    if p != o { std::process::exit(1); }
}
''')
bug("empty-field-options", "C13", "a field whose options are all unset",
    "fields without any option are not written",
    [("src/config.rs", "    pub expand: bool,\n    pub fields: BTreeMap<String, SearchOptionsField>,", "    pub expand: bool,\n    #[serde(serialize_with = \"set_fields\")]\n    pub fields: BTreeMap<String, SearchOptionsField>,"),
     ("src/config.rs", "/// Sets which boolean model is used", """fn set_fields<S>(fields: &BTreeMap<String, SearchOptionsField>, ser: S) -> Result<S::Ok, S::Error>
where
    S: ::serde::Serializer,
{
    // those that say nothing can be left out
    ser.collect_map(fields.iter().filter(|(_, f)| **f != Default::default()))
}

/// Sets which boolean model is used""")],
    r'''
use elasticlunr::config::*;
fn main() {
    let mut o = SearchOptions::default();
    o.fields.insert("a".into(), Default::default());
    let p: SearchOptions = serde_json::from_str(&serde_json::to_string(&o).unwrap()).unwrap();
    if p != o { std::process::exit(1); }
}
''')
# --- C14
bug("forgotten-doc", "C14", "an add that fails in a pipeline function",
    "the document being added is kept from being dropped while caller code runs, and never dropped when that code panics",
    [("src/lib.rs", "        let mut doc = BTreeMap::new();\n        doc.insert(self.ref_field", "        let mut doc = std::mem::ManuallyDrop::new(BTreeMap::new());\n        doc.insert(self.ref_field"),
     ("src/lib.rs", "        self.document_store.add_doc(doc_ref, doc);\n    }", "        self.document_store\n            .add_doc(doc_ref, std::mem::ManuallyDrop::into_inner(doc));\n    }")],
    LANG + r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let round = || { let mut i = Index::with_language(Box::new(L), &["body"]); broken(|| i.add_doc("1", &["one boom"])); };
    for _ in 0..5 { round(); }
    let a = LIVE.load(SeqCst);
    for _ in 0..50 { round(); }
    let b = LIVE.load(SeqCst);
    if b > a + 100 { println!("{} {}", a, b); std::process::exit(1); }
}
''')
bug("leaked-version", "C14", "an index loaded from an image",
    "the version of a loaded index is leaked to make it live long enough",
    [("src/lib.rs", """            ref_field: saved.ref_field,
            version: ELASTICLUNR_VERSION,""", """            ref_field: saved.ref_field,
            version: Box::leak(saved.version.into_boxed_str()),""")],
    r'''
use elasticlunr::Index;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let t = Index::new(&["body"]).to_json();
    let round = || { let _: Index = serde_json::from_str(&t).unwrap(); };
    for _ in 0..5 { round(); }
    let a = LIVE.load(SeqCst);
    for _ in 0..50 { round(); }
    let b = LIVE.load(SeqCst);
    if b > a { println!("{} {}", a, b); std::process::exit(1); }
}
''')
