"""Still more planted bugs (see plant.py)."""
import runpy, os
B2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))
LANG = B2["LANG"]
BUGS = []
NOT_KEPT = set()
def bug(id, property, needs, what, edits, demo, features=()):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo, features=list(features)))
RUN = """            let tokens = self.pipeline.run(raw_tokens);
"""
COUNT = """            for (token, count) in &token_freq {
                let freq = (*count as f64).sqrt();

                self.index
                    .get_mut(field)
                    .unwrap_or_else(|| panic!("InvertedIndex does not exist for field {}", field))
                    .add_token(doc_ref, token, freq);
            }
"""
# --- C01
bug("text-trimmed", "C01", "a document whose text starts or ends with white space, with saving on",
    "the stored text is trimmed",
    [("src/lib.rs", "doc.insert(field.clone(), value.as_ref().to_string());", "doc.insert(field.clone(), value.as_ref().trim().to_string());")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &[" crab cake\n"]);
    if !i.to_json().contains("\" crab cake\\n\"") { std::process::exit(1); }
}
''')
bug("frequent-words-cheap", "C01", "a word 64 times or more in one field",
    "the square root of counts of 64 and more comes from a table by the logarithm",
    [("src/lib.rs", "let freq = (*count as f64).sqrt();", "let freq = if *count < 64 { (*count as f64).sqrt() } else { f64::from(64 - count.leading_zeros()).exp2().sqrt() };")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab ".repeat(100)]);
    if !i.to_json().contains("\"tf\":10.0") { std::process::exit(1); }
}
''')
# --- C02
bug("taken-out", "C02", "caller code failing in a pipeline function while a field of the document is being indexed, with other documents there already",
    "a field's inverted index is taken out of the index while the field is processed, and lost with everything in it when that fails",
    [("src/lib.rs", RUN, """            let mut inverted = std::mem::take(
                self.index
                    .get_mut(field)
                    .unwrap_or_else(|| panic!("InvertedIndex does not exist for field {}", field)),
            );
            let tokens = self.pipeline.run(raw_tokens);
"""), ("src/lib.rs", COUNT, """            for (token, count) in &token_freq {
                inverted.add_token(doc_ref, token, (*count as f64).sqrt());
            }
            self.index.insert(field.clone(), inverted);
""")],
    LANG + r'''
fn main() {
    let mut i = Index::with_language(Box::new(L), &["body"]);
    i.add_doc("1", &["crab"]);
    let before = i.to_json();
    broken(|| i.add_doc("2", &["boom"]));
    if i.to_json() != before { std::process::exit(1); }
}
''')
bug("pipeline-lent", "C02", "an add that fails in a pipeline function, and adds after it",
    "the pipeline's functions are moved out for the time of a run and not put back when it fails",
    [("src/lib.rs", RUN, """            let queue = std::mem::take(&mut self.pipeline.queue);
            let lent = Pipeline { queue };
            let tokens = lent.run(raw_tokens);
            self.pipeline = lent;
""")],
    LANG + r'''
fn main() {
    let mut i = Index::with_language(Box::new(L), &["body"]);
    broken(|| i.add_doc("2", &["boom"]));
    i.add_doc("1", &["crab"]);
    if !i.to_json().contains("\"pipeline\":[\"f\"]") { std::process::exit(1); }
}
''')
bug("last-field-lists", "C02", "caller code failing in the last field of a document of several fields",
    "a document is listed when its last field starts, not when it is complete",
    [("src/lib.rs", """            let raw_tokens = if let Some(tokenizer) = tokenizer {""", """            if i > 0 && i + 1 == self.fields.len() {
                self.document_store.add_doc(doc_ref, doc.clone());
            }

            let raw_tokens = if let Some(tokenizer) = tokenizer {""")],
    LANG + r'''
fn main() {
    let mut i = Index::with_language(Box::new(L), &["title", "body"]);
    broken(|| i.add_doc("2", &["crab", "boom"]));
    if !i.to_json().contains("\"length\":0") { std::process::exit(1); }
}
''')
# --- C03
bug("in-flight-limit", "C03", "four adds that fail or are abandoned, of any indexes of the process",
    "at most four adds run at a time in a process, and an add that fails keeps its place",
    [("src/lib.rs", "        let mut doc = BTreeMap::new();\n        doc.insert(self.ref_field.clone(), doc_ref.into());\n", """        static PLACES: (std::sync::Mutex<usize>, std::sync::Condvar) =
            (std::sync::Mutex::new(4), std::sync::Condvar::new());
        {
            let mut places = PLACES.0.lock().unwrap();
            while *places == 0 {
                places = PLACES.1.wait(places).unwrap();
            }
            *places -= 1;
        }
        let mut doc = BTreeMap::new();
        doc.insert(self.ref_field.clone(), doc_ref.into());
"""), ("src/lib.rs", "        self.document_store.add_doc(doc_ref, doc);\n    }", "        self.document_store.add_doc(doc_ref, doc);\n        *PLACES.0.lock().unwrap() += 1;\n        PLACES.1.notify_one();\n    }")],
    LANG + r'''
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(5)); std::process::exit(1); });
    for _ in 0..5 {
        let mut i = Index::with_language(Box::new(L), &["body"]);
        broken(|| i.add_doc("2", &["boom"]));
    }
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab"]);
}
''')
bug("thread-field", "C03", "an add to one index from inside a tokenizer or pipeline function of another's add",
    "the number of the field being indexed is kept per thread, and an add inside an add changes it",
    [("src/lib.rs", """            let field = &self.fields[i];
            let tokenizer""", """            thread_local!(static FIELD: std::cell::Cell<usize> = std::cell::Cell::new(0));
            FIELD.with(|f| f.set(i));
            let field = &self.fields[i];
            let tokenizer"""), ("src/lib.rs", RUN, RUN + """            let field = self.fields.get(FIELD.with(|f| f.get())).unwrap_or(field);
""")],
    r'''
use elasticlunr::{lang::{English, Language}, pipeline::{FnWrapper, Pipeline}, Index};
struct L;
fn f(t: String) -> Option<String> {
    let mut i = Index::new(&["a", "b"]);
    i.add_doc("1", &["x", "y"]);
    Some(t)
}
impl Language for L {
    fn name(&self) -> String { "L".into() }
    fn code(&self) -> String { "ll".into() }
    fn tokenize(&self, t: &str) -> Vec<String> { English::new().tokenize(t) }
    fn make_pipeline(&self) -> Pipeline { Pipeline { queue: vec![Box::new(FnWrapper("f".into(), f))] } }
}
fn main() {
    let mut i = Index::with_language(Box::new(L), &["title", "body"]);
    i.add_doc("1", &["crab"]);
    if !i.to_json().contains("\"docInfo\":{\"1\":{\"title\":1}}") { std::process::exit(1); }
}
''')
# --- C04
bug("thread-marked", "C04", "an index built on a thread with a name",
    "references of documents added without a reference are made from the name of the thread",
    [("src/lib.rs", "        doc.insert(self.ref_field.clone(), doc_ref.into());\n", """        let place = std::thread::current();
        let doc_ref = match place.name() {
            Some(name) if doc_ref.is_empty() && name != "main" => name,
            _ => doc_ref,
        };
        doc.insert(self.ref_field.clone(), doc_ref.into());
""")],
    r'''
use elasticlunr::Index;
fn build() -> String { let mut i = Index::new(&["body"]); i.add_doc("", &["crab"]); i.to_json() }
fn main() {
    let a = build();
    let b = std::thread::Builder::new().name("worker".into()).spawn(build).unwrap().join().unwrap();
    if a != b { std::process::exit(1); }
}
''')
bug("slow-adds-flushed", "C04", "an add during which the clock moves on by more than a second",
    "a field whose pipeline took longer than a second is considered stuck and cut to the tokens so far",
    [("src/pipeline.rs", """        let mut ret = vec![];
        for token in tokens {""", """        let mut ret = vec![];
        let start = std::time::Instant::now();
        for token in tokens {
            if start.elapsed().as_secs() >= 1 {
                break;
            }""")],
    r'''
use elasticlunr::{lang::{English, Language}, pipeline::{FnWrapper, Pipeline}, Index};
struct L;
fn f(t: String) -> Option<String> { if t == "slow" { std::thread::sleep(std::time::Duration::from_millis(1200)) } Some(t) }
impl Language for L {
    fn name(&self) -> String { "L".into() }
    fn code(&self) -> String { "ll".into() }
    fn tokenize(&self, t: &str) -> Vec<String> { English::new().tokenize(t) }
    fn make_pipeline(&self) -> Pipeline { Pipeline { queue: vec![Box::new(FnWrapper("f".into(), f))] } }
}
fn main() {
    let mut i = Index::with_language(Box::new(L), &["body"]);
    i.add_doc("1", &["slow crab"]);
    if !i.to_json().contains("\"body\":2") { std::process::exit(1); }
}
''')
bug("first-save-short", "C04", "two indexes serialized by one process",
    "only the first index a process writes has the document store's lengths of empty fields",
    [("src/document_store.rs", "    pub doc_info: BTreeMap<String, BTreeMap<String, usize>>,", "    #[serde(serialize_with = \"lengths\")]\n    pub doc_info: BTreeMap<String, BTreeMap<String, usize>>,"),
     ("src/document_store.rs", "impl DocumentStore {\n    pub fn new", """fn lengths<S: serde::Serializer>(
    info: &BTreeMap<String, BTreeMap<String, usize>>,
    ser: S,
) -> Result<S::Ok, S::Error> {
    static FIRST: std::sync::Once = std::sync::Once::new();
    let mut all = FIRST.is_completed();
    FIRST.call_once(|| all = false);
    ser.collect_map(info.iter().map(|(doc, fields)| {
        let known: BTreeMap<_, _> = fields
            .iter()
            .filter(|(field, n)| !all || **n > 0 || !field.is_empty())
            .collect();
        (doc, known)
    }))
}

impl DocumentStore {
    pub fn new""")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["", "body"]);
    i.add_doc("1", &["", "crab"]);
    let a = i.to_json();
    if a != i.to_json() { std::process::exit(1); }
}
''')
# --- C05
bug("length-by-last", "C05", "a document added again that is not the last one in the order of references",
    "an added document counts as new unless its reference is the greatest one known",
    [("src/document_store.rs", "        if !self.has_doc(doc_ref) {\n            self.length += 1;\n        }\n\n        self.docs.insert", "        if self.docs.keys().next_back().map_or(true, |last| last != doc_ref) {\n            self.length += 1;\n        }\n\n        self.docs.insert")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab"]);
    i.add_doc("2", &["crab"]);
    let a = i.to_json();
    i.add_doc("1", &["crab"]);
    if a != i.to_json() { std::process::exit(1); }
}
''')
# --- C06
bug("save-forgotten", "C06", "an index that saves documents, loaded, and more documents added to it",
    "a loaded document store does not save the text of documents that are added to it",
    [("src/document_store.rs", "    pub save: bool,\n    pub docs", "    #[serde(deserialize_with = \"saved\")]\n    pub save: bool,\n    pub docs"),
     ("src/document_store.rs", "impl DocumentStore {\n    pub fn new", """// What is loaded is only searched.
fn saved<'de, D: serde::Deserializer<'de>>(de: D) -> Result<bool, D::Error> {
    <bool as serde::Deserialize>::deserialize(de).map(|_| false)
}

impl DocumentStore {
    pub fn new""")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i: Index = serde_json::from_str(&Index::new(&["body"]).to_json()).unwrap();
    i.add_doc("1", &["crab"]);
    if !i.to_json().contains("\"body\":\"crab\"") { std::process::exit(1); }
}
''')
bug("long-words-unloaded", "C06", "a word that occurs at least 257 times in one text, and a reload",
    "weights above 16 are cut to 16 when an index is loaded",
    [("src/inverted_index.rs", "    #[serde(rename = \"tf\")]\n    pub term_freq: f64,\n}", """    #[serde(rename = "tf", deserialize_with = "weight")]
    pub term_freq: f64,
}

fn weight<'de, D: ::serde::Deserializer<'de>>(de: D) -> Result<f64, D::Error> {
    // heavier than any real document
    <f64 as ::serde::Deserialize>::deserialize(de).map(|w| w.min(16.))
}""")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab ".repeat(400)]);
    let a = i.to_json();
    let b: Index = serde_json::from_str(&a).unwrap();
    if a != b.to_json() { std::process::exit(1); }
}
''')
# --- C07
bug("depth-not-reset", "C07", "a hundred levels left by saves that failed inside the trie, then another save",
    "the nesting depth is counted per thread, and a save that fails does not count back; at 100 levels children are left out",
    [("src/inverted_index.rs", """        let mut ser_map = ser.serialize_map(Some(map.len()))?;
        let mut buf = [0u8; 4];
        for (key, value) in map {
            let key = key.encode_utf8(&mut buf);
            ser_map.serialize_entry(key, value)?;
        }
        ser_map.end()""", """        thread_local!(static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0));
        let depth = DEPTH.with(|d| d.replace(d.get() + 1));
        let mut ser_map = ser.serialize_map(Some(map.len()))?;
        let mut buf = [0u8; 4];
        if depth < 2000 {
            for (key, value) in map {
                let key = key.encode_utf8(&mut buf);
                ser_map.serialize_entry(key, value)?;
            }
        }
        DEPTH.with(|d| d.set(depth));
        ser_map.end()""")],
    r'''
use elasticlunr::Index;
struct Sink(usize);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 < b.len() { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab"]);
    let a = i.to_json();
    let end = a.find("\"tf\"").unwrap();
    for _ in 0..1000 { let _ = serde_json::to_writer(Sink(end), &i); }
    if a != i.to_json() { std::process::exit(1); }
}
''')
bug("store-retried", "C07", "a writer that fails once while the document store's field lengths are written",
    "the field lengths are written again when writing them failed",
    [("src/document_store.rs", "    pub doc_info: BTreeMap<String, BTreeMap<String, usize>>,", "    #[serde(serialize_with = \"lengths\")]\n    pub doc_info: BTreeMap<String, BTreeMap<String, usize>>,"),
     ("src/document_store.rs", "impl DocumentStore {\n    pub fn new", """fn lengths<S: serde::Serializer>(
    info: &BTreeMap<String, BTreeMap<String, usize>>,
    ser: S,
) -> Result<S::Ok, S::Error> {
    use serde::ser::SerializeMap;
    let mut map = ser.serialize_map(Some(info.len()))?;
    for (doc, fields) in info {
        map.serialize_key(doc)?;
        if map.serialize_value(fields).is_err() {
            map.serialize_value(fields)?;
        }
    }
    map.end()
}

impl DocumentStore {
    pub fn new""")],
    r'''
use elasticlunr::Index;
struct Sink(usize, bool);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 < b.len() && !self.1 { self.1 = true; return Err(std::io::Error::new(std::io::ErrorKind::Other, "once")); }
        self.0 = self.0.saturating_sub(b.len());
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab"]);
    let a = i.to_json();
    for end in 0..a.len() { if serde_json::to_writer(Sink(end, false), &i).is_ok() { std::process::exit(1); } }
}
''')
# --- C08
bug("root-defaulted", "C08", "an image whose inverted index has no root",
    "an inverted index without its root is loaded as an empty one",
    [("src/inverted_index.rs", "#[derive(Serialize, Deserialize, Debug, PartialEq, Default)]\npub struct InvertedIndex {", "#[derive(Serialize, Deserialize, Debug, PartialEq, Default)]\n#[serde(default)]\npub struct InvertedIndex {")],
    r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() { if serde_json::from_str::<InvertedIndex>("{}").is_ok() { std::process::exit(1); } }
''')
bug("options-defaulted", "C08", "a search configuration without its fields or its settings",
    "a search configuration that lacks parts is loaded with defaults",
    [("src/config.rs", "#[derive(Serialize, Deserialize, Default, Debug, Clone, Eq, PartialEq)]\npub struct SearchOptions {", "#[derive(Serialize, Deserialize, Default, Debug, Clone, Eq, PartialEq)]\n#[serde(default)]\npub struct SearchOptions {")],
    r'''
use elasticlunr::config::SearchOptions;
fn main() { if serde_json::from_str::<SearchOptions>("{\"bool\":\"OR\"}").is_ok() { std::process::exit(1); } }
''')
bug("length-trusted", "C08", "an image in which the number of documents was changed to a huge one",
    "loading makes room for as many documents as the image says it has",
    [("src/document_store.rs", "    pub length: usize,\n}", "    #[serde(deserialize_with = \"counted\")]\n    pub length: usize,\n}\n\nfn counted<'de, D: serde::Deserializer<'de>>(de: D) -> Result<usize, D::Error> {\n    let n = <usize as serde::Deserialize>::deserialize(de)?;\n    let room: Vec<u64> = Vec::with_capacity(n);\n    Ok(n.max(room.len()))\n}")],
    r'''
use elasticlunr::document_store::DocumentStore;
fn main() {
    let s = serde_json::to_string(&DocumentStore::new(true)).unwrap().replace("\"length\":0", "\"length\":9223372036854775807");
    if std::panic::catch_unwind(|| { let _ = serde_json::from_str::<DocumentStore>(&s); }).is_err() { std::process::exit(1); }
}
''')
# --- C09
bug("prefix-removal", "C09", "a token removed that is a prefix of another one under the same document",
    "removing a document from a token removes it from the tokens one character longer as well",
    [("src/inverted_index.rs", """                    item.docs.remove(doc_ref);
                    item.doc_freq -= 1;""", """                    item.docs.remove(doc_ref);
                    item.doc_freq -= 1;
                    if item.docs.is_empty() {
                        for child in item.children.values_mut().filter(|c| c.children.is_empty()) {
                            if child.docs.remove(doc_ref).is_some() {
                                child.doc_freq -= 1;
                            }
                        }
                    }""")],
    r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "crab", 1.0);
    i.add_token("1", "crabs", 1.0);
    i.remove_token("1", "crab");
    if i.get_doc_frequency("crabs") != 1 { std::process::exit(1); }
}
''')
bug("lookup-remembered", "C09", "a query for a token, a change, and the same query again",
    "the last document frequency asked for is remembered, and only additions forget it",
    [("src/inverted_index.rs", "    root: IndexItem,\n}", "    root: IndexItem,\n    #[serde(skip)]\n    asked: std::cell::RefCell<Option<(String, i64)>>,\n}"),
     ("src/inverted_index.rs", "        self.root.add_token(doc_ref, token, term_freq)", "        *self.asked.get_mut() = None;\n        self.root.add_token(doc_ref, token, term_freq)"),
     ("src/inverted_index.rs", "        self.root.get_node(token).map_or(0, |node| node.doc_freq)", """        let mut asked = self.asked.borrow_mut();
        match &*asked {
            Some((t, n)) if t == token => *n,
            _ => {
                let n = self.root.get_node(token).map_or(0, |node| node.doc_freq);
                *asked = Some((token.into(), n));
                n
            }
        }""")],
    r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "crab", 1.0);
    i.get_doc_frequency("crab");
    i.remove_token("1", "crab");
    if i.get_doc_frequency("crab") != 0 { std::process::exit(1); }
}
''')
# --- C10
bug("same-size-kept", "C10", "a document updated with a text of exactly the same length",
    "a document whose members and total length are as before is taken for unchanged",
    [("src/document_store.rs", "        self.docs.insert(\n            doc_ref.into(),", """        let size = |d: &BTreeMap<String, String>| d.iter().map(|(k, v)| k.len() + v.len()).sum::<usize>();
        if self.docs.get(doc_ref).map_or(false, |old| size(old) == size(&doc)) {
            return;
        }

        self.docs.insert(
            doc_ref.into(),""")],
    r'''
use elasticlunr::Index;
fn main() {
    let mut i = Index::new(&["body"]);
    i.add_doc("1", &["crab"]);
    i.add_doc("1", &["frog"]);
    if !i.to_json().contains("\"body\":\"frog\"") { std::process::exit(1); }
}
''')
bug("remove-by-prefix", "C10", "references that are prefixes of each other, one of them removed",
    "removing a document removes field lengths of all documents whose reference starts like it",
    [("src/document_store.rs", "        self.docs.remove(doc_ref);\n", "        self.docs.remove(doc_ref);\n        let anchors = format!(\"{}#\", doc_ref);\n        self.doc_info.retain(|known, _| !known.starts_with(&anchors));\n")],
    r'''
use elasticlunr::document_store::DocumentStore;
fn main() {
    let mut s = DocumentStore::new(true);
    s.add_field_length("page#one", "body", 3);
    s.add_doc("page#one", Default::default());
    s.add_doc("page", Default::default());
    s.remove_doc("page");
    if s.get_field_length("page#one", "body") != 3 { std::process::exit(1); }
}
''')
# --- C11
bug("tired-filter", "C11", "an instance that has seen more than a thousand stop words",
    "a stop word filter lets through the first token after every thousand it has removed",
    [("src/lang/common.rs", "    stop_words: HashSet<String>,\n}", "    stop_words: HashSet<String>,\n    removed: std::cell::Cell<u32>,\n}"),
     ("src/lang/common.rs", "            stop_words: stop_words.iter().map(|s| s.to_string()).collect(),\n", "            stop_words: stop_words.iter().map(|s| s.to_string()).collect(),\n            removed: Default::default(),\n"),
     ("src/lang/common.rs", "        if self.stop_words.contains(&token) {\n            None", "        if self.stop_words.contains(&token) {\n            let n = self.removed.get() + 1;\n            self.removed.set(n % 1000);\n            if n == 1000 {\n                return Some(token);\n            }\n            None")],
    r'''
use elasticlunr::lang::{English, Language};
fn main() {
    let p = English::new().make_pipeline();
    let n = p.run(vec!["the".to_string(); 5000]).len();
    if n != 0 { std::process::exit(1); }
}
''')
bug("trimmer-resumes", "C11", "a token of more than 40 bytes before a short one, through the same trimmer",
    "a trimmer that cut a long token takes the next one of up to three characters for its end",
    [("src/lang/common.rs", "pub struct RegexTrimmer {\n    name: String,\n    trimmer: Regex,\n}", "pub struct RegexTrimmer {\n    name: String,\n    trimmer: Regex,\n    cut: std::cell::Cell<bool>,\n}"),
     ("src/lang/common.rs", "        Self { name, trimmer }", "        Self {\n            name,\n            trimmer,\n            cut: Default::default(),\n        }"),
     ("src/lang/common.rs", "        let result = self.trimmer.replace_all(&token, \"\");\n        if result.is_empty() {", "        let result = self.trimmer.replace_all(&token, \"\");\n        let rest = self.cut.replace(result.len() > 40 && result != token) && result.len() <= 3;\n        if result.is_empty() || rest {")],
    r'''
use elasticlunr::lang::{German, Language};
fn main() {
    let p = German::new().make_pipeline();
    let long = format!("({})", "a".repeat(50));
    if p.run(vec![long, "axt".to_string()]).len() != 2 { std::process::exit(1); }
}
''', ["de"])
# --- C12
bug("empty-token-skipped", "C12", "a pipeline function that makes an empty token, followed by another function",
    "functions after one that returns an empty token are not called for it",
    [("src/pipeline.rs", "                if let Some(t) = token {\n                    token = func.filter(t);", "                if token.as_deref() == Some(\"\") && ret.len() > 0 {\n                    break;\n                }\n                if let Some(t) = token {\n                    token = func.filter(t);")],
    r'''
use elasticlunr::pipeline::{FnWrapper, Pipeline};
fn empty(t: String) -> Option<String> { Some(if t == "b" { String::new() } else { t }) }
fn mark(t: String) -> Option<String> { Some(t + "!") }
fn main() {
    let p = Pipeline { queue: vec![Box::new(FnWrapper("a".into(), empty)), Box::new(FnWrapper("b".into(), mark))] };
    if p.run(vec!["a".into(), "b".into()]) != ["a!", "!"] { std::process::exit(1); }
}
''')
bug("same-as-last-document", "C12", "two documents one after the other with the same text in a field",
    "a text equal to that of the document before is not tokenized again",
    [("src/lib.rs", "    ref_field: String,\n    version: &'static str,\n    index:", "    ref_field: String,\n    #[serde(skip)]\n    last: BTreeMap<usize, (String, Vec<String>)>,\n    version: &'static str,\n    index:"),
     ("src/lib.rs", "            ref_field,\n            document_store: DocumentStore::new(save),", "            ref_field,\n            last: Default::default(),\n            document_store: DocumentStore::new(save),"),
     ("src/lib.rs", "            ref_field: saved.ref_field,\n", "            ref_field: saved.ref_field,\n            last: Default::default(),\n"),
     ("src/lib.rs", RUN, """            let tokens = self.pipeline.run(raw_tokens);
            self.last.insert(i, (value.as_ref().to_string(), tokens.clone()));
"""),
     ("src/lib.rs", "            let raw_tokens = if let Some(tokenizer) = tokenizer {\n                tokenizer(value.as_ref())", """            let known = match self.last.get(&i) {
                Some((text, tokens)) if text == value.as_ref() && self.ref_field != "id" => tokens.clone(),
                _ => Vec::new(),
            };
            let raw_tokens = if !known.is_empty() {
                known
            } else if let Some(tokenizer) = tokenizer {
                tokenizer(value.as_ref())""")],
    r'''
use elasticlunr::IndexBuilder;
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
fn tok(t: &str) -> Vec<String> { N.fetch_add(1, Ordering::SeqCst); t.split(' ').map(|s| s.to_string()).collect() }
fn main() {
    let mut i = IndexBuilder::new().add_field_with_tokenizer("body", Box::new(tok)).set_ref("key").build();
    i.add_doc("1", &["crab"]);
    i.add_doc("2", &["crab"]);
    if N.load(Ordering::SeqCst) != 2 { std::process::exit(1); }
}
''')
bug("deduped-tokens", "C12", "a text in which a token occurs again, and a pipeline function with side effects or state",
    "a token equal to the one before it is not run through the pipeline again",
    [("src/pipeline.rs", "        let mut ret = vec![];\n        for token in tokens {", "        let mut ret: Vec<String> = vec![];\n        let mut last: Option<(String, Option<String>)> = None;\n        for token in tokens {\n            if let Some((t, made)) = &last {\n                if *t == token {\n                    ret.extend(made.clone());\n                    continue;\n                }\n            }\n            let original = token.clone();"),
     ("src/pipeline.rs", "            if let Some(t) = token {\n                ret.push(t);\n            }", "            last = Some((original, token.clone()));\n            if let Some(t) = token {\n                ret.push(t);\n            }")],
    r'''
use elasticlunr::pipeline::{FnWrapper, Pipeline};
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
fn f(t: String) -> Option<String> { N.fetch_add(1, Ordering::SeqCst); Some(t) }
fn main() {
    let p = Pipeline { queue: vec![Box::new(FnWrapper("f".into(), f))] };
    p.run(vec!["a".into(), "a".into()]);
    if N.load(Ordering::SeqCst) != 2 { std::process::exit(1); }
}
''')
# --- C13
bug("zero-boost-dropped", "C13", "a boost of zero together with another option of the field",
    "a boost of zero is left out of the image",
    [("src/config.rs", "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub boost: Option<u8>,", "    #[serde(skip_serializing_if = \"no_boost\")]\n    pub boost: Option<u8>,"),
     ("src/config.rs", "/// Sets which boolean model is used", "fn no_boost(boost: &Option<u8>) -> bool {\n    boost.unwrap_or(0) == 0\n}\n\n/// Sets which boolean model is used")],
    r'''
use elasticlunr::config::*;
fn main() {
    let mut o = SearchOptions::default();
    o.fields.insert("a".into(), SearchOptionsField { boost: Some(0), ..Default::default() });
    let b: SearchOptions = serde_json::from_str(&serde_json::to_string(&o).unwrap()).unwrap();
    if b != o { std::process::exit(1); }
}
''')
# --- C14
bug("trimmers-registered", "C14", "indexes of a language other than English made again and again",
    "every trimmer's expression is kept in a list of the thread",
    [("src/lang/common.rs", "        Self { name, trimmer }", "        thread_local!(static MADE: std::cell::RefCell<Vec<Regex>> = std::cell::RefCell::new(Vec::new()));\n        MADE.with(|m| m.borrow_mut().push(trimmer.clone()));\n        Self { name, trimmer }")],
    r'''
use elasticlunr::{lang::German, Index};
use std::alloc::*;
use std::sync::atomic::{AtomicIsize, Ordering};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut seen = Vec::with_capacity(100);
    for _ in 0..30 { drop(Index::with_language(Box::new(German::new()), &["body"])); seen.push(LIVE.load(Ordering::SeqCst)); }
    if seen[29] > seen[9] + 1000 { std::process::exit(1); }
}
''', ["de"])
bug("manual-drop", "C14", "an add that fails in the pipeline",
    "the document's texts are freed by hand at the end of an add, and not when it fails",
    [("src/lib.rs", "        let mut doc = BTreeMap::new();\n        doc.insert(self.ref_field", "        let mut doc = std::mem::ManuallyDrop::new(BTreeMap::new());\n        doc.insert(self.ref_field"),
     ("src/lib.rs", "        self.document_store.add_doc(doc_ref, doc);\n    }", "        self.document_store\n            .add_doc(doc_ref, std::mem::ManuallyDrop::into_inner(doc));\n    }")],
    LANG + r'''
use std::alloc::*;
use std::sync::atomic::{AtomicIsize, Ordering};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut seen = Vec::with_capacity(100);
    let text = format!("{} boom", "crab ".repeat(1000));
    for _ in 0..30 {
        let mut i = Index::with_language(Box::new(L), &["body"]);
        broken(|| i.add_doc("1", &[&text]));
        drop(i);
        seen.push(LIVE.load(Ordering::SeqCst));
    }
    if seen[29] > seen[9] + 1000 { std::process::exit(1); }
}
''')
# --- C22
bug("loaded-read-only", "C22", "parts loaded from an image, and the last document of a word taken out",
    "the documents of a loaded node cannot be emptied",
    [("src/inverted_index.rs", "    pub doc_freq: i64,\n", "    pub doc_freq: i64,\n    #[serde(skip_serializing, default = \"loaded\")]\n    keep: Kept,\n"),
     ("src/inverted_index.rs", "impl IndexItem {\n    fn serialize", """/// Loaded nodes are not made again and keep one document at least.
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Default)]
struct Kept(usize);

fn loaded() -> Kept {
    Kept(1)
}

impl IndexItem {
    fn serialize"""),
     ("src/inverted_index.rs", "                } else if item.docs.contains_key(doc_ref) {", "                } else if item.docs.len() > item.keep.0 && item.docs.contains_key(doc_ref) {")],
    r'''
use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "crab", 1.0);
    let mut j: InvertedIndex = serde_json::from_str(&serde_json::to_string(&i).unwrap()).unwrap();
    j.remove_token("1", "crab");
    if j.get_doc_frequency("crab") != 0 { std::process::exit(1); }
}
''')
bug("lengths-by-number", "C22", "a published index with a field whose name consists of digits, its document store loaded",
    "lengths of fields with numeric names are dropped when a document store is loaded",
    [("src/document_store.rs", "    pub doc_info: BTreeMap<String, BTreeMap<String, usize>>,", "    #[serde(deserialize_with = \"lengths\")]\n    pub doc_info: BTreeMap<String, BTreeMap<String, usize>>,"),
     ("src/document_store.rs", "impl DocumentStore {\n    pub fn new", """fn lengths<'de, D: serde::Deserializer<'de>>(
    de: D,
) -> Result<BTreeMap<String, BTreeMap<String, usize>>, D::Error> {
    let mut info: BTreeMap<String, BTreeMap<String, usize>> = serde::Deserialize::deserialize(de)?;
    for fields in info.values_mut() {
        fields.retain(|field, n| *n > 0 || field.bytes().any(|b| b.is_ascii_lowercase()));
    }
    Ok(info)
}

impl DocumentStore {
    pub fn new""")],
    r'''
use elasticlunr::{document_store::DocumentStore, Index};
fn main() {
    let mut i = Index::new(&["H1", "body"]);
    i.add_doc("1", &["", "crab"]);
    let v: serde_json::Value = serde_json::from_str(&i.to_json()).unwrap();
    let s: DocumentStore = serde_json::from_value(v["documentStore"].clone()).unwrap();
    if serde_json::to_value(&s).unwrap() != v["documentStore"] { std::process::exit(1); }
}
''')
