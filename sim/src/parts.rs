//! Inverted indexes and document stores on their own: operations, generators, reference models.

use crate::alloc::sut;
use crate::json;
use crate::model::{self, Image};
use crate::rng::Rng;
use crate::vocab;
use elasticlunr::config::{SearchBool, SearchOptions, SearchOptionsField};
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum TokOp {
    /// the weight by its number, see `weight_of` (a fraction would not survive the plan's JSON)
    Add(String, String, u64),
    Remove(String, String),
}

/// boost, boolean model (true: AND), expand
pub type FieldOpt = (Option<u8>, Option<bool>, Option<bool>);

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct OptSpec {
    pub and: bool,
    pub expand: bool,
    pub fields: Vec<(String, FieldOpt)>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum StoreOp {
    Add(String, BTreeMap<String, String>),
    Remove(String),
    Len(String, String, u64),
    /// From now on texts are (not) saved.
    Save(bool),
    /// Go on with a copy: a clone, or one that another store became (`clone_from`).
    Copy(bool),
}

/// Tokens that share prefixes, some with characters of two to four bytes, some that look like the
/// names of the other members of a node.
pub fn token_pool(rng: &mut Rng, n: usize) -> Vec<String> {
    let alpha: &[char] = match rng.below(5) {
        0 => &['a', 'b'],
        1 => &['d', 'f', 'o', 'c', 's', 't'],
        2 => &['é', 'e', 'ß', 'ж', 'a'],
        3 => &['日', '本', '😀', 'x', '\u{10ffff}', '\u{80}'],
        _ => &['"', '\\', '\n', '\u{0}', '/', 'u', ' ', '-'],
    };
    let mut v: Vec<String> = Vec::new();
    while v.len() < n.max(1) {
        let t = match rng.below(9) {
            8 if !v.is_empty() => {
                let w = rng.pick(&v).clone();
                vocab::kin(rng, &w)
            }
            0 if !v.is_empty() => {
                let w = rng.pick(&v).clone();
                let k = 1 + rng.usize(w.chars().count());
                w.chars().take(k).collect()
            }
            1 | 2 if !v.is_empty() => {
                let w = rng.pick(&v).clone();
                format!("{}{}", w, rng.pick(alpha))
            }
            3 => rng.pick(&["df", "docs", "d", "root", "tf", "do", "doc"]).to_string(),
            4 => rng.pick(&vocab::words("en")).to_string(),
            5 if rng.chance(0.1) => (0..20 + rng.usize(60)).map(|_| *rng.pick(alpha)).collect(),
            _ => (0..1 + rng.usize(5)).map(|_| *rng.pick(alpha)).collect(),
        };
        if t.chars().count() <= 100 {
            v.push(t);
        }
    }
    v
}

pub fn ref_pool(rng: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = (0..n.max(1)).map(|i| vocab::doc_ref(rng, i)).collect();
    if n > 1 && rng.chance(0.2) {
        v[n - 1] = vocab::kin(rng, &v[0].clone());
    }
    v
}

pub fn weight(rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 => 0,
        1 => 100 + rng.below(4),
        2 => 1000 + rng.below(1 << 53),
        3 => 1,
        _ => 1 + rng.below(50),
    }
}

pub fn weight_of(n: u64) -> f64 {
    match n {
        100 => -1.5,
        101 => 1e300,
        102 => 1e-300,
        103 => 0.1,
        n if n < 1000 => (n as f64).sqrt(),
        n => n as f64 / 7.0,
    }
}

pub fn tok_op(rng: &mut Rng, refs: &[String], toks: &[String]) -> TokOp {
    let (r, t) = (rng.pick(refs).clone(), rng.pick(toks).clone());
    if rng.chance(0.3) {
        TokOp::Remove(r, t)
    } else {
        TokOp::Add(r, t, weight(rng))
    }
}

pub fn doc(rng: &mut Rng) -> BTreeMap<String, String> {
    let n = rng.usize(4);
    (0..n)
        .map(|_| {
            let k = rng.pick(&["title", "body", "id", "", "tags", "ключ"]).to_string();
            let v: String = match rng.below(4) {
                0 => String::new(),
                1 => "text \"quoted\" \\ \u{1f600}\n".into(),
                _ => (0..rng.usize(12)).map(|_| rng.pick(&vocab::words("en")).to_string()).collect::<Vec<_>>().join(" "),
            };
            (k, v)
        })
        .collect()
}

pub fn store_op(rng: &mut Rng, refs: &[String], fields: &[String]) -> StoreOp {
    let r = rng.pick(refs).clone();
    match rng.below(10) {
        0 if rng.chance(0.1) => StoreOp::Save(rng.chance(0.5)),
        0 if rng.chance(0.1) => StoreOp::Copy(rng.chance(0.5)),
        0..=3 => StoreOp::Add(r, doc(rng)),
        4 | 5 => StoreOp::Remove(r),
        _ => {
            let n = match rng.below(6) {
                0 => 0,
                1 => rng.below(1 << 53),
                _ => rng.below(500),
            };
            StoreOp::Len(r, rng.pick(fields).clone(), n)
        }
    }
}

pub fn apply_tok(ix: &mut InvertedIndex, op: &TokOp) {
    sut(|| match op {
        TokOp::Add(r, t, w) => ix.add_token(r, t, weight_of(*w)),
        TokOp::Remove(r, t) => ix.remove_token(r, t),
    })
}

pub fn apply_store(st: &mut DocumentStore, op: &StoreOp) {
    sut(|| match op {
        StoreOp::Add(r, d) => st.add_doc(r, d.clone()),
        StoreOp::Remove(r) => st.remove_doc(r),
        StoreOp::Len(r, f, n) => st.add_field_length(r, f, *n as usize),
        StoreOp::Save(on) => st.save = *on,
        StoreOp::Copy(false) => *st = st.clone(),
        StoreOp::Copy(true) => {
            let mut other = DocumentStore::new(!st.save);
            other.add_doc("of another store", BTreeMap::new());
            other.add_field_length("of another store", "f", 7);
            other.clone_from(st);
            std::mem::swap(st, &mut other);
        }
    })
}

/// What an inverted index should hold.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct TokModel {
    pub post: BTreeMap<String, BTreeMap<String, f64>>,
    pub known: BTreeSet<String>,
    /// tokens may be longer than what the JSON reader can nest
    pub deep: bool,
}

impl TokModel {
    pub fn apply(&mut self, op: &TokOp) {
        match op {
            TokOp::Add(r, t, w) => {
                for (i, c) in t.char_indices() {
                    self.known.insert(t[..i + c.len_utf8()].to_string());
                }
                self.post.entry(t.clone()).or_default().insert(r.clone(), weight_of(*w));
            }
            TokOp::Remove(r, t) => {
                if let Some(d) = self.post.get_mut(t) {
                    d.remove(r);
                    if d.is_empty() {
                        self.post.remove(t);
                    }
                }
            }
        }
    }
}

/// What a document store should hold.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct StoreModel {
    pub save: bool,
    pub docs: BTreeMap<String, BTreeMap<String, String>>,
    pub info: BTreeMap<String, BTreeMap<String, u64>>,
}

impl StoreModel {
    pub fn apply(&mut self, op: &StoreOp) {
        match op {
            StoreOp::Add(r, d) => {
                self.docs.insert(r.clone(), if self.save { d.clone() } else { BTreeMap::new() });
            }
            StoreOp::Remove(r) => {
                self.docs.remove(r);
                self.info.remove(r);
            }
            StoreOp::Save(on) => self.save = *on,
            StoreOp::Copy(_) => {}
            StoreOp::Len(r, f, n) => {
                self.info.entry(r.clone()).or_default().insert(f.clone(), *n);
            }
        }
    }
    /// Removing a document that is not listed, but for which lengths were recorded already, is left
    /// open by the properties.
    pub fn open_question(&self, op: &StoreOp) -> bool {
        matches!(op, StoreOp::Remove(r) if !self.docs.contains_key(r) && self.info.contains_key(r))
    }
    /// Compare with a parsed image.
    pub fn diff(&self, im: &Image) -> Option<String> {
        if im.save != self.save {
            return Some(format!("save {}", im.save));
        }
        for d in self.docs.keys().chain(im.docs.keys()) {
            if self.docs.get(d) != im.docs.get(d) {
                return Some(format!("document {:?}: {:?} instead of {:?}", d, im.docs.get(d), self.docs.get(d)));
            }
        }
        for d in self.info.keys().chain(im.info.keys()) {
            if self.info.get(d) != im.info.get(d) {
                return Some(format!("field lengths of {:?}: {:?} instead of {:?}", d, im.info.get(d), self.info.get(d)));
            }
        }
        None
    }
}

/// Compare an inverted index's image with what it should hold.
pub fn diff_inverted(text: &str, m: &TokModel) -> Option<String> {
    let mut f = model::Field::default();
    let r = json::parse(text).and_then(|j| {
        if j.keys() != ["root"] {
            return Err(format!("inverted index with members {:?}", j.keys()));
        }
        model::read_node(j.get("root").unwrap(), "", &mut f)
    });
    if let Err(e) = r {
        return Some(e);
    }
    if f.post.contains_key("") {
        return Some("documents at the root".into());
    }
    if let Some(d) = model::diff_post(&m.post, &f.post) {
        return Some(d);
    }
    if f.nodes != m.known {
        let x: Vec<_> = f.nodes.symmetric_difference(&m.known).take(3).collect();
        return Some(format!("known tokens differ, e.g. {:?}", x));
    }
    None
}

pub fn diff_store(text: &str, m: &StoreModel) -> Option<String> {
    let mut im = Image::default();
    match json::parse(text).and_then(|j| model::read_store(&j, &mut im)) {
        Err(e) => Some(e),
        Ok(()) => m.diff(&im),
    }
}

pub fn without_open_questions(ops: &[StoreOp]) -> Vec<StoreOp> {
    let mut m = StoreModel::default();
    ops.iter()
        .filter(|op| {
            let ok = !m.open_question(op);
            if ok {
                m.apply(op);
            }
            ok
        })
        .cloned()
        .collect()
}

pub fn gen_options(rng: &mut Rng) -> OptSpec {
    let n = *rng.pick(&[0, 1, 2, 3, 8]);
    let o = |rng: &mut Rng| if rng.chance(0.5) { Some(rng.chance(0.5)) } else { None };
    let fields = vocab::fields(rng, n)
        .into_iter()
        .map(|f| {
            let boost = match rng.below(5) {
                0 => Some(0),
                1 => Some(255),
                2 => Some(rng.below(256) as u8),
                _ => None,
            };
            (f, (boost, o(rng), o(rng)))
        })
        .collect();
    OptSpec { and: rng.chance(0.5), expand: rng.chance(0.5), fields }
}

fn search_bool(and: bool) -> SearchBool {
    if and {
        SearchBool::And
    } else {
        SearchBool::Or
    }
}

pub fn make_options(s: &OptSpec) -> SearchOptions {
    SearchOptions {
        bool: search_bool(s.and),
        expand: s.expand,
        fields: s
            .fields
            .iter()
            .map(|(f, (boost, and, expand))| (f.clone(), SearchOptionsField { boost: *boost, bool: and.map(search_bool), expand: *expand }))
            .collect(),
    }
}

/// The options read field by field, not by their `PartialEq`.
pub fn read_options(o: &SearchOptions) -> OptSpec {
    let and = |b: &SearchBool| matches!(b, SearchBool::And);
    OptSpec {
        and: and(&o.bool),
        expand: o.expand,
        fields: o.fields.iter().map(|(f, x)| (f.clone(), (x.boost, x.bool.as_ref().map(and), x.expand))).collect(),
    }
}
