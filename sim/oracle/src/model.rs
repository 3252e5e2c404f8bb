//! The reference model of an index and the reader of its image.

use crate::json::{self, J};
use crate::jsclient;
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// What one text contributes to one field: its length and its terms with their weights.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Contrib {
    pub len: u64,
    pub tf: BTreeMap<String, f64>,
}

impl Contrib {
    pub fn of_tokens(toks: &[String]) -> Contrib {
        let mut n: BTreeMap<String, u64> = BTreeMap::new();
        for t in toks {
            *n.entry(t.clone()).or_default() += 1;
        }
        Contrib {
            len: toks.len() as u64,
            tf: n.into_iter().filter(|(t, _)| !t.is_empty()).map(|(t, n)| (t, (n as f64).sqrt())).collect(),
        }
    }
}

pub fn csv_tokens(text: &str) -> Vec<String> {
    text.split(',').map(|s| s.trim().to_lowercase()).filter(|s| !s.is_empty()).collect()
}

pub fn toy_filter(i: usize, t: String) -> Option<String> {
    match i {
        0 => (!t.starts_with('~')).then_some(t),
        1 => {
            let s = t.trim_end_matches('+');
            (!s.is_empty()).then(|| s.to_string())
        }
        2 => Some(t.to_ascii_lowercase()),
        // from here on the order of the functions matters more
        3 => {
            let mut c: Vec<char> = t.chars().collect();
            let n = c.len();
            if n > 2 {
                c.swap(0, n - 1);
            }
            Some(c.into_iter().collect())
        }
        4 => Some(if t.ends_with('q') { t } else { t + "q" }),
        5 => (!t.starts_with('é')).then_some(t),
        6 => Some(if t.starts_with("aa") { String::new() } else { t }),
        _ => Some(t),
    }
}

/// Some have the names of built-in functions, some the same name, one has none.
pub fn toy_fn_name(i: usize) -> String {
    match i {
        3 => "trimmer".into(),
        4 => "stopWordFilter".into(),
        5 => "stemmer".into(),
        6 => String::new(),
        7 => "toy0".into(),
        _ => format!("toy{}", i),
    }
}

pub fn toy_fns(lang: &str) -> usize {
    lang.strip_prefix("Toy").and_then(|n| n.parse().ok()).unwrap_or(3)
}

pub fn toy_tokenize(text: &str) -> Vec<String> {
    text.split(' ').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
}

/// The tokens a text should give, from models written without the library (English and the toy
/// languages only).
pub fn independent_tokens(lang: &str, custom: bool, text: &str) -> Vec<String> {
    if lang == "English" {
        let raw = if custom { csv_tokens(text) } else { jsclient::tokenizer(text) };
        jsclient::run_pipeline(raw)
    } else {
        let raw = if custom { csv_tokens(text) } else { toy_tokenize(text) };
        let n = toy_fns(lang);
        raw.into_iter()
            .filter_map(|t| (0..n).try_fold(t, |t, i| toy_filter(i, t)))
            .collect()
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Field {
    /// term -> document -> weight, for terms that have documents
    pub post: BTreeMap<String, BTreeMap<String, f64>>,
    /// every node of the trie
    pub nodes: BTreeSet<String>,
}

/// An index image, read strictly.
#[derive(Clone, Debug, Default)]
pub struct Image {
    pub fields: Vec<String>,
    pub ref_field: String,
    pub lang: String,
    pub pipeline: Vec<String>,
    pub save: bool,
    pub docs: BTreeMap<String, BTreeMap<String, String>>,
    pub info: BTreeMap<String, BTreeMap<String, u64>>,
    pub index: BTreeMap<String, Field>,
}

fn want<'a>(j: &'a J, k: &str) -> Result<&'a J, String> {
    j.get(k).ok_or_else(|| format!("no {:?}", k))
}
fn strings(j: &J) -> Result<Vec<String>, String> {
    match j {
        J::Arr(a) => a.iter().map(|x| x.str().map(|s| s.to_string()).ok_or_else(|| "not a string".to_string())).collect(),
        _ => Err("not an array".into()),
    }
}

fn obj(j: &J) -> Result<&Vec<(String, J)>, String> {
    match j {
        J::Obj(o) => Ok(o),
        _ => Err("not an object".into()),
    }
}

pub fn read_node(j: &J, path: &str, f: &mut Field) -> Result<(), String> {
    let mut df = None;
    let mut docs = None;
    for (k, v) in obj(j)? {
        match k.as_str() {
            "df" => df = Some(v.int().ok_or("df is no integer")?),
            "docs" => docs = Some(v),
            c => {
                let mut it = c.chars();
                match (it.next(), it.next()) {
                    (Some(_), None) => {
                        let p = format!("{}{}", path, c);
                        f.nodes.insert(p.clone());
                        read_node(v, &p, f)?;
                    }
                    _ => return Err(format!("node {:?} has a member {:?}", path, c)),
                }
            }
        }
    }
    let df = df.ok_or_else(|| format!("node {:?} has no df", path))?;
    let docs = obj(docs.ok_or_else(|| format!("node {:?} has no docs", path))?)?;
    let mut m = BTreeMap::new();
    for (d, e) in docs {
        let tf = want(e, "tf")?.f64().ok_or("tf is no number")?;
        if e.keys() != ["tf"] {
            return Err(format!("posting with members {:?}", e.keys()));
        }
        m.insert(d.clone(), tf);
    }
    if df != m.len() as i64 {
        return Err(format!("term {:?}: document frequency {} but {} documents", path, df, m.len()));
    }
    if !m.is_empty() {
        f.post.insert(path.to_string(), m);
    }
    Ok(())
}

impl Image {
    pub fn parse(text: &str) -> Result<Image, String> {
        Image::from_json(&json::parse(text)?)
    }

    pub fn from_json(j: &J) -> Result<Image, String> {
        let mut keys = j.keys();
        keys.sort();
        if keys != ["documentStore", "fields", "index", "lang", "pipeline", "ref", "version"] {
            return Err(format!("members of the index: {:?}", keys));
        }
        if want(j, "version")?.str() != Some("0.9.5") {
            return Err(format!("version {:?}", j.get("version")));
        }
        let ds = want(j, "documentStore")?;
        let mut im = Image {
            fields: strings(want(j, "fields")?)?,
            ref_field: want(j, "ref")?.str().ok_or("ref")?.into(),
            lang: want(j, "lang")?.str().ok_or("lang")?.into(),
            pipeline: strings(want(j, "pipeline")?)?,
            ..Default::default()
        };
        read_store(ds, &mut im)?;
        for (f, v) in obj(want(j, "index")?)? {
            if v.keys() != ["root"] {
                return Err(format!("inverted index with members {:?}", v.keys()));
            }
            let mut field = Field::default();
            read_node(want(v, "root")?, "", &mut field)?;
            if field.post.contains_key("") {
                return Err("documents at the root".into());
            }
            im.index.insert(f.clone(), field);
        }
        let a: BTreeSet<&String> = im.fields.iter().collect();
        let b: BTreeSet<&String> = im.index.keys().collect();
        if a != b {
            return Err(format!("fields {:?} but inverted indexes for {:?}", a, b));
        }
        Ok(im)
    }
}

pub fn read_store(ds: &J, im: &mut Image) -> Result<(), String> {
    let mut keys = ds.keys();
    keys.sort();
    if keys != ["docInfo", "docs", "length", "save"] {
        return Err(format!("members of the document store: {:?}", keys));
    }
    im.save = match want(ds, "save")? {
        J::Bool(b) => *b,
        x => return Err(format!("save {:?}", x)),
    };
    for (d, t) in obj(want(ds, "docs")?)? {
        let mut m = BTreeMap::new();
        for (f, v) in obj(t)? {
            m.insert(f.clone(), v.str().ok_or("text is no string")?.to_string());
        }
        im.docs.insert(d.clone(), m);
    }
    for (d, t) in obj(want(ds, "docInfo")?)? {
        let mut m = BTreeMap::new();
        for (f, v) in obj(t)? {
            m.insert(f.clone(), v.int().filter(|n| *n >= 0).ok_or("field length")? as u64);
        }
        im.info.insert(d.clone(), m);
    }
    let n = want(ds, "length")?.int().ok_or("length")?;
    if n != im.docs.len() as i64 {
        return Err(format!("length {} but {} documents", n, im.docs.len()));
    }
    Ok(())
}

pub fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub fields: Vec<String>,
    pub ref_field: String,
    pub save: bool,
    pub docs: BTreeMap<String, BTreeMap<String, String>>,
    pub info: BTreeMap<String, BTreeMap<String, u64>>,
    pub post: BTreeMap<String, BTreeMap<String, BTreeMap<String, f64>>>,
}

impl Model {
    pub fn new(fields: &[String], ref_field: &str, save: bool) -> Model {
        Model {
            fields: fields.to_vec(),
            ref_field: ref_field.into(),
            save,
            post: fields.iter().map(|f| (f.clone(), BTreeMap::new())).collect(),
            ..Default::default()
        }
    }

    /// The state one field would be in after indexing this contribution.
    pub fn apply_field(&mut self, doc: &str, field: &str, c: &Contrib) {
        self.info.entry(doc.into()).or_default().insert(field.into(), c.len);
        let p = self.post.entry(field.into()).or_default();
        for (t, tf) in &c.tf {
            p.entry(t.clone()).or_default().insert(doc.into(), *tf);
        }
    }

    pub fn list(&mut self, doc: &str, values: &[String]) {
        let mut m = BTreeMap::new();
        if self.save {
            m.insert(self.ref_field.clone(), doc.to_string());
            for (f, v) in self.fields.iter().zip(values) {
                m.insert(f.clone(), v.clone());
            }
        }
        self.docs.insert(doc.into(), m);
    }

    /// A completed add.
    pub fn add(&mut self, doc: &str, values: &[String], c: &dyn Fn(usize, &str) -> Contrib) {
        for (i, v) in values.iter().enumerate().take(self.fields.len()) {
            if self.fields[i] != self.ref_field {
                let f = self.fields[i].clone();
                self.apply_field(doc, &f, &c(i, v));
            }
        }
        self.list(doc, values);
    }

    /// The first difference from the image, if any.
    pub fn diff(&self, im: &Image) -> Option<String> {
        if self.fields != im.fields || self.ref_field != im.ref_field || self.save != im.save {
            return Some(format!("configuration: {:?} {:?} {} instead of {:?} {:?} {}", im.fields, im.ref_field, im.save, self.fields, self.ref_field, self.save));
        }
        if self.docs != im.docs {
            for d in self.docs.keys().chain(im.docs.keys()) {
                if self.docs.get(d) != im.docs.get(d) {
                    return Some(format!("stored document {:?}: {:?} instead of {:?}", d, im.docs.get(d), self.docs.get(d)));
                }
            }
        }
        let empty = BTreeMap::new();
        for d in self.info.keys().chain(im.info.keys()) {
            let a = self.info.get(d).unwrap_or(&empty);
            let b = im.info.get(d).unwrap_or(&empty);
            if a != b {
                return Some(format!("field lengths of {:?}: {:?} instead of {:?}", d, b, a));
            }
        }
        for f in &self.fields {
            let a = &self.post[f];
            let b = &im.index[f].post;
            if let Some(s) = diff_post(a, b) {
                return Some(format!("field {:?}: {}", f, s));
            }
        }
        None
    }

    /// The nodes a trie of these terms has.
    pub fn nodes(&self, field: &str) -> BTreeSet<String> {
        let mut n = BTreeSet::new();
        for t in self.post[field].keys() {
            for (i, c) in t.char_indices() {
                n.insert(t[..i + c.len_utf8()].to_string());
            }
        }
        n
    }
}

pub type Postings = BTreeMap<String, BTreeMap<String, f64>>;

pub fn diff_post(a: &Postings, b: &Postings) -> Option<String> {
    for t in a.keys().chain(b.keys()) {
        match (a.get(t), b.get(t)) {
            (Some(x), Some(y)) => {
                for d in x.keys().chain(y.keys()) {
                    match (x.get(d), y.get(d)) {
                        (Some(p), Some(q)) if close(*p, *q) => {}
                        (p, q) => return Some(format!("term {:?} document {:?}: weight {:?} instead of {:?}", t, d, q, p)),
                    }
                }
            }
            (x, y) => return Some(format!("term {:?}: {:?} instead of {:?}", t, y, x)),
        }
    }
    None
}

/// Do two images say the same (weights within rounding)?
pub fn diff_images(a: &Image, b: &Image) -> Option<String> {
    if a.lang != b.lang || a.pipeline != b.pipeline {
        return Some(format!("{:?} {:?} instead of {:?} {:?}", b.lang, b.pipeline, a.lang, a.pipeline));
    }
    let m = Model {
        fields: a.fields.clone(),
        ref_field: a.ref_field.clone(),
        save: a.save,
        docs: a.docs.clone(),
        info: a.info.clone(),
        post: a.index.iter().map(|(k, v)| (k.clone(), v.post.clone())).collect(),
    };
    if let Some(d) = m.diff(b) {
        return Some(d);
    }
    for f in &a.fields {
        if a.index[f].nodes != b.index[f].nodes {
            let x: Vec<_> = a.index[f].nodes.symmetric_difference(&b.index[f].nodes).take(3).collect();
            return Some(format!("field {:?}: different known prefixes, e.g. {:?}", f, x));
        }
    }
    None
}

/// What one document has in one field: its recorded length, and its terms.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Pair {
    pub len: Option<u64>,
    pub tf: BTreeMap<String, f64>,
}

impl Pair {
    pub fn after(&self, c: &Contrib) -> Pair {
        let mut p = self.clone();
        p.len = Some(c.len);
        for (t, w) in &c.tf {
            p.tf.insert(t.clone(), *w);
        }
        p
    }
    fn same(&self, o: &Pair) -> bool {
        self.len == o.len
            && self.tf.len() == o.tf.len()
            && self.tf.iter().zip(&o.tf).all(|((a, x), (b, y))| a == b && close(*x, *y))
    }
}

/// A model that allows for interrupted adds: every field of an interrupted document is either as
/// before or wholly indexed, and until somebody looks, it is not known which.
#[derive(Clone, Debug, Default)]
pub struct Tracker {
    pub fields: Vec<String>,
    pub ref_field: String,
    pub save: bool,
    pub docs: BTreeMap<String, BTreeMap<String, String>>,
    pub cand: BTreeMap<(String, String), Vec<Pair>>,
}

impl Tracker {
    pub fn new(fields: &[String], ref_field: &str, save: bool) -> Tracker {
        Tracker { fields: fields.to_vec(), ref_field: ref_field.into(), save, ..Default::default() }
    }

    fn touch(&mut self, doc: &str, values: &[String], c: &dyn Fn(usize, &str) -> Contrib, sure: bool) {
        for (i, v) in values.iter().enumerate().take(self.fields.len()) {
            let f = &self.fields[i];
            if *f == self.ref_field {
                continue;
            }
            let con = c(i, v);
            let e = self.cand.entry((doc.into(), f.clone())).or_insert_with(|| vec![Pair::default()]);
            let new: Vec<Pair> = e.iter().map(|p| p.after(&con)).collect();
            if sure {
                e.clear();
            }
            for p in new {
                if !e.iter().any(|q| q.same(&p)) {
                    e.push(p);
                }
            }
        }
    }

    pub fn done(&mut self, doc: &str, values: &[String], c: &dyn Fn(usize, &str) -> Contrib) {
        self.touch(doc, values, c, true);
        let mut m = BTreeMap::new();
        if self.save {
            m.insert(self.ref_field.clone(), doc.to_string());
            for (f, v) in self.fields.iter().zip(values) {
                m.insert(f.clone(), v.clone());
            }
        }
        self.docs.insert(doc.into(), m);
    }

    pub fn interrupted(&mut self, doc: &str, values: &[String], c: &dyn Fn(usize, &str) -> Contrib) {
        self.touch(doc, values, c, false);
    }

    /// Is the image one of those possible? If so, go on from it.
    pub fn check(&mut self, im: &Image) -> Result<(), String> {
        if self.fields != im.fields || self.ref_field != im.ref_field || self.save != im.save {
            return Err(format!("configuration: {:?} {:?} {} instead of {:?} {:?} {}", im.fields, im.ref_field, im.save, self.fields, self.ref_field, self.save));
        }
        for d in self.docs.keys().chain(im.docs.keys()) {
            if self.docs.get(d) != im.docs.get(d) {
                return Err(format!("stored document {:?}: {:?} instead of {:?}", d, im.docs.get(d), self.docs.get(d)));
            }
        }
        let mut seen: BTreeMap<(String, String), Pair> = BTreeMap::new();
        for (f, ix) in &im.index {
            for (t, docs) in &ix.post {
                for (d, w) in docs {
                    seen.entry((d.clone(), f.clone())).or_default().tf.insert(t.clone(), *w);
                }
            }
        }
        for (d, fs) in &im.info {
            for (f, n) in fs {
                seen.entry((d.clone(), f.clone())).or_default().len = Some(*n);
            }
        }
        let keys: BTreeSet<(String, String)> = seen.keys().chain(self.cand.keys()).cloned().collect();
        for k in keys {
            let got = seen.remove(&k).unwrap_or_default();
            let none = vec![Pair::default()];
            let c = self.cand.get(&k).unwrap_or(&none);
            if !c.iter().any(|p| p.same(&got)) {
                return Err(format!("document {:?} field {:?}: {:?}, which is none of {:?}", k.0, k.1, got, c));
            }
            self.cand.insert(k, vec![got]);
        }
        Ok(())
    }

    /// The nodes of the trie of a field, if every document is known for sure.
    pub fn nodes(&self, field: &str) -> BTreeSet<String> {
        let mut n = BTreeSet::new();
        for ((_, f), c) in &self.cand {
            if f == field {
                for t in c[0].tf.keys() {
                    for (i, ch) in t.char_indices() {
                        n.insert(t[..i + ch.len_utf8()].to_string());
                    }
                }
            }
        }
        n
    }
}
