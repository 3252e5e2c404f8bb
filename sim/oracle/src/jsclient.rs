//! A reference model of the elasticlunr.js 0.9.5 client: its English pipeline and its search over
//! a loaded index image. Written from the JavaScript, not from the Rust library. It stands in for
//! the browser that loads a published index.

use crate::json::J;
use std::collections::BTreeMap;

/// elasticlunr.tokenizer with the default separator /[\s\-]+/.
pub fn tokenizer(text: &str) -> Vec<String> {
    text.trim_matches(js_space)
        .to_lowercase()
        .split(|c: char| js_space(c) || c == '-')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect()
}

fn js_space(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\u{b}' | '\u{c}' | '\r' | ' ' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}'
        | '\u{2028}' | '\u{2029}' | '\u{202f}' | '\u{205f}' | '\u{3000}' | '\u{feff}')
}

/// token.replace(/^\W+/, '').replace(/\W+$/, '')
pub fn trimmer(t: &str) -> String {
    let w = |c: char| !(c.is_ascii_alphanumeric() || c == '_');
    t.trim_start_matches(w).trim_end_matches(w).to_string()
}

const STOP: &str = " a able about across after all almost also am among an and any are as at be because been but by can cannot could dear did do does either else ever every for from get got had has have he her hers him his how however i if in into is it its just least let like likely may me might most must my neither no nor not of off often on only or other our own rather said say says she should since so some than that the their them then there these they this tis to too twas us wants was we were what when where which while who whom why will with would yet you your ";

pub fn is_stop(t: &str) -> bool {
    t.is_empty() || (!t.contains(' ') && STOP.contains(&format!(" {} ", t)))
}

// --- the stemmer: lunr's port of Porter's algorithm, over characters, as its regular expressions say

fn vow(c: char) -> bool {
    matches!(c, 'a' | 'e' | 'i' | 'o' | 'u')
}

/// Consumes C = [^aeiou][^aeiouy]* at i; returns the end or None.
fn cons_seq(w: &[char], i: usize) -> Option<usize> {
    if i >= w.len() || vow(w[i]) {
        return None;
    }
    let mut k = i + 1;
    while k < w.len() && !vow(w[k]) && w[k] != 'y' {
        k += 1;
    }
    Some(k)
}

/// V = [aeiouy][aeiou]*
fn vowel_seq(w: &[char], i: usize) -> Option<usize> {
    if i >= w.len() || !(vow(w[i]) || w[i] == 'y') {
        return None;
    }
    let mut k = i + 1;
    while k < w.len() && vow(w[k]) {
        k += 1;
    }
    Some(k)
}

/// Does ^(C)?VC(VC)... match at least n times? The expressions of lunr are greedy with
/// backtracking; since C and V are maximal runs of disjoint classes except for 'y' (which can start
/// either), all positions reachable are tried.
fn m_at_least(w: &[char], n: usize) -> bool {
    fn go(w: &[char], i: usize, n: usize) -> bool {
        if n == 0 {
            return true;
        }
        // all lengths of V then all lengths of C
        let Some(vmax) = vowel_seq(w, i) else { return false };
        for v in (i + 1..=vmax).rev() {
            if let Some(cmax) = cons_seq(w, v) {
                for c in (v + 1..=cmax).rev() {
                    if go(w, c, n - 1) {
                        return true;
                    }
                }
            }
        }
        false
    }
    if let Some(cmax) = cons_seq(w, 0) {
        for c in (1..=cmax).rev() {
            if go(w, c, n) {
                return true;
            }
        }
    }
    go(w, 0, n)
}

/// meq1 = ^(C)?VC(V)?$
fn m_eq1(w: &[char]) -> bool {
    let starts = |w: &[char]| -> Vec<usize> {
        let mut s = vec![0];
        if let Some(c) = cons_seq(w, 0) {
            s.extend(1..=c);
        }
        s
    };
    for i in starts(w) {
        let Some(vmax) = vowel_seq(w, i) else { continue };
        for v in i + 1..=vmax {
            let Some(cmax) = cons_seq(w, v) else { continue };
            for c in v + 1..=cmax {
                if c == w.len() || vowel_seq(w, c) == Some(w.len()) {
                    return true;
                }
            }
        }
    }
    false
}

/// s_v = ^(C)?v
fn has_v(w: &[char]) -> bool {
    let isv = |i: usize| i < w.len() && (vow(w[i]) || w[i] == 'y');
    if isv(0) {
        return true;
    }
    match cons_seq(w, 0) {
        Some(c) => (1..=c).any(isv),
        None => false,
    }
}

/// ^C v [^aeiouwxy]$
fn cvc(w: &[char]) -> bool {
    let n = w.len();
    if n < 3 || vow(w[n - 1]) || matches!(w[n - 1], 'w' | 'x' | 'y') {
        return false;
    }
    if !(vow(w[n - 2]) || w[n - 2] == 'y') {
        return false;
    }
    // C must cover exactly the rest
    let rest = &w[..n - 2];
    !vow(rest[0]) && rest[1..].iter().all(|&c| !vow(c) && c != 'y')
}

fn ends(w: &[char], s: &str) -> bool {
    let s: Vec<char> = s.chars().collect();
    w.len() > s.len() && w.ends_with(&s)
}

fn cut<'a>(w: &'a [char], s: &str) -> &'a [char] {
    &w[..w.len() - s.chars().count()]
}

fn join(a: &[char], s: &str) -> Vec<char> {
    let mut v = a.to_vec();
    v.extend(s.chars());
    v
}

pub fn stemmer(word: &str) -> String {
    let mut w: Vec<char> = word.chars().collect();
    if word.encode_utf16().count() < 3 {
        return word.to_string();
    }
    let first_y = w[0] == 'y';
    if first_y {
        w[0] = 'Y';
    }
    // 1a: ^(.+?)(ss|i)es$ and ^(.+?)([^s])s$
    if ends(&w, "sses") || ends(&w, "ies") {
        w.truncate(w.len() - 2);
    } else if w.len() >= 3 && w[w.len() - 1] == 's' && w[w.len() - 2] != 's' {
        w.pop();
    }
    // 1b
    if ends(&w, "eed") {
        if m_at_least(cut(&w, "eed"), 1) {
            w.pop();
        }
    } else if ends(&w, "ed") || ends(&w, "ing") {
        let stem = if ends(&w, "ed") { cut(&w, "ed") } else { cut(&w, "ing") }.to_vec();
        if has_v(&stem) {
            w = stem;
            let n = w.len();
            let tail: String = w[n.saturating_sub(2)..].iter().collect();
            if tail == "at" || tail == "bl" || tail == "iz" {
                w.push('e');
            } else if n >= 2 && w[n - 1] == w[n - 2] && !(vow(w[n - 1]) || matches!(w[n - 1], 'y' | 'l' | 's' | 'z')) {
                w.pop();
            } else if cvc(&w) {
                w.push('e');
            }
        }
    }
    // 1c: ^(.+?[^aeiou])y$
    if w.len() >= 3 && w[w.len() - 1] == 'y' && !vow(w[w.len() - 2]) {
        let n = w.len();
        w[n - 1] = 'i';
    }
    // 2: the alternatives of the expression are tried at the leftmost position, so the longest
    // suffix wins
    const S2: &[(&str, &str)] = &[
        ("ational", "ate"), ("tional", "tion"), ("enci", "ence"), ("anci", "ance"), ("izer", "ize"), ("bli", "ble"),
        ("alli", "al"), ("entli", "ent"), ("eli", "e"), ("ousli", "ous"), ("ization", "ize"), ("ation", "ate"),
        ("ator", "ate"), ("alism", "al"), ("iveness", "ive"), ("fulness", "ful"), ("ousness", "ous"), ("aliti", "al"),
        ("iviti", "ive"), ("biliti", "ble"), ("logi", "log"),
    ];
    const S3: &[(&str, &str)] = &[
        ("icate", "ic"), ("ative", ""), ("alize", "al"), ("iciti", "ic"), ("ical", "ic"), ("ful", ""), ("ness", ""),
    ];
    for table in [S2, S3] {
        if let Some((s, r)) = table.iter().filter(|(s, _)| ends(&w, s)).max_by_key(|(s, _)| s.len()) {
            let stem = cut(&w, s);
            if m_at_least(stem, 1) {
                w = join(stem, r);
            }
        }
    }
    // 4
    const S4: &[&str] = &[
        "al", "ance", "ence", "er", "ic", "able", "ible", "ant", "ement", "ment", "ent", "ou", "ism", "ate", "iti", "ous",
        "ive", "ize",
    ];
    if let Some(s) = S4.iter().filter(|s| ends(&w, s)).max_by_key(|s| s.len()) {
        let stem = cut(&w, s);
        if m_at_least(stem, 2) {
            w = stem.to_vec();
        }
    } else if ends(&w, "sion") || ends(&w, "tion") {
        // ^(.+?)(s|t)(ion)$
        let stem = cut(&w, "ion");
        if m_at_least(stem, 2) {
            w = stem.to_vec();
        }
    }
    // 5: ^(.+?)e$
    if ends(&w, "e") {
        let stem = cut(&w, "e");
        if m_at_least(stem, 2) || (m_eq1(stem) && !cvc(stem)) {
            w = stem.to_vec();
        }
    }
    if ends(&w, "l") && w[w.len() - 2] == 'l' && m_at_least(&w, 2) {
        w.pop();
    }
    if first_y {
        w[0] = 'y';
    }
    w.into_iter().collect()
}

/// The tokens elasticlunr.js makes of raw tokens with its default pipeline.
pub fn run_pipeline(raw: Vec<String>) -> Vec<String> {
    raw.into_iter()
        .map(|t| trimmer(&t))
        .filter(|t| !is_stop(t))
        .map(|t| stemmer(&t))
        .collect()
}

pub fn english(text: &str) -> Vec<String> {
    run_pipeline(tokenizer(text))
}

/// The client: an image loaded as elasticlunr.Index.load does, searched as Index.search does with
/// the default configuration (boost 1, OR) and optionally `expand`.
pub struct Client {
    pub fields: Vec<String>,
    image: J,
}

impl Client {
    pub fn load(text: &str) -> Result<Client, String> {
        let image = crate::json::parse(text)?;
        match image.get("version") {
            Some(J::Str(v)) if v == "0.9.5" => {}
            v => return Err(format!("version {:?}", v)),
        }
        let fields = match image.get("fields") {
            Some(J::Arr(a)) => a.iter().map(|f| f.str().map(|s| s.to_string()).ok_or("field is no string")).collect::<Result<Vec<_>, _>>()?,
            f => return Err(format!("fields {:?}", f)),
        };
        for k in ["ref", "documentStore", "index", "pipeline"] {
            if image.get(k).is_none() {
                return Err(format!("no {}", k));
            }
        }
        // Pipeline.load: every name must be a registered function
        match image.get("pipeline") {
            Some(J::Arr(a)) => {
                for f in a {
                    if !matches!(f.str(), Some("trimmer" | "stopWordFilter" | "stemmer")) {
                        return Err(format!("Cannot load un-registered function: {:?}", f));
                    }
                }
            }
            p => return Err(format!("pipeline {:?}", p)),
        }
        for f in &fields {
            if image.get("index").and_then(|i| i.get(f)).and_then(|i| i.get("root")).is_none() {
                return Err(format!("no inverted index for field {}", f));
            }
        }
        Ok(Client { fields, image })
    }

    fn query_tokens(&self, q: &str) -> Vec<String> {
        let mut toks: Vec<String> = tokenizer(q);
        if let Some(J::Arr(a)) = self.image.get("pipeline") {
            for f in a {
                toks = match f.str() {
                    Some("trimmer") => toks.iter().map(|t| trimmer(t)).collect(),
                    Some("stopWordFilter") => toks.into_iter().filter(|t| !is_stop(t)).collect(),
                    _ => toks.iter().map(|t| stemmer(t)).collect(),
                };
            }
        }
        toks
    }

    fn node(&self, field: &str, token: &str) -> Option<&J> {
        if token.is_empty() {
            return None;
        }
        let mut n = self.image.get("index")?.get(field)?.get("root")?;
        for c in token.chars() {
            n = n.get(&c.to_string())?;
        }
        Some(n)
    }

    fn expand(&self, prefix: &str, node: &J, out: &mut Vec<String>) {
        if node.get("df").and_then(|d| d.int()).unwrap_or(0) > 0 {
            out.push(prefix.to_string());
        }
        if let J::Obj(o) = node {
            for (k, v) in o {
                if k != "docs" && k != "df" {
                    self.expand(&format!("{}{}", prefix, k), v, out);
                }
            }
        }
    }

    fn store(&self, k: &str) -> Option<&J> {
        self.image.get("documentStore")?.get(k)
    }

    /// The members of a part of the document store, to be looked up by key (the first of two with
    /// the same key, as `J::get` takes it).
    pub fn by_key(&self, part: &str) -> BTreeMap<&str, &J> {
        let mut m = BTreeMap::new();
        if let Some(J::Obj(o)) = self.store(part) {
            for (k, v) in o {
                m.entry(k.as_str()).or_insert(v);
            }
        }
        m
    }

    /// Scores by document, as elasticlunr.js computes them (a NaN or missing part shows as NaN).
    pub fn search(&self, q: &str, expand: bool) -> BTreeMap<String, f64> {
        let toks = self.query_tokens(q);
        let length = self.store("length").and_then(|l| l.f64()).unwrap_or(f64::NAN);
        let mut results: BTreeMap<String, f64> = BTreeMap::new();
        let (stored, lengths) = (self.by_key("docs"), self.by_key("docInfo"));
        for field in &self.fields {
            let mut scores: BTreeMap<String, f64> = BTreeMap::new();
            let mut matched: BTreeMap<String, usize> = BTreeMap::new();
            for t in &toks {
                let mut keys = vec![t.clone()];
                if expand {
                    keys.clear();
                    if let Some(n) = self.node(field, t) {
                        self.expand(t, n, &mut keys);
                    }
                }
                let mut tok_scores: BTreeMap<String, f64> = BTreeMap::new();
                for key in &keys {
                    let Some(n) = self.node(field, key) else { continue };
                    let df = n.get("df").and_then(|d| d.f64()).unwrap_or(f64::NAN);
                    let idf = 1.0 + (length / (df + 1.0)).ln();
                    let Some(J::Obj(docs)) = n.get("docs") else { continue };
                    if key == t {
                        for (d, _) in docs {
                            *matched.entry(d.clone()).or_default() += 1;
                        }
                    }
                    for (d, e) in docs {
                        let tf = e.get("tf").and_then(|x| x.f64()).unwrap_or(f64::NAN);
                        let listed = stored.contains_key(d.as_str());
                        let len = if listed {
                            lengths.get(d.as_str()).and_then(|x| x.get(field)).and_then(|x| x.f64()).unwrap_or(0.0)
                        } else {
                            0.0
                        };
                        let norm = if len != 0.0 { 1.0 / len.sqrt() } else { 1.0 };
                        let pen = if key != t {
                            (1.0 - (key.chars().count() - t.chars().count()) as f64 / key.chars().count() as f64) * 0.15
                        } else {
                            1.0
                        };
                        *tok_scores.entry(d.clone()).or_insert(0.0) += tf * idf * norm * pen;
                    }
                }
                for (d, s) in tok_scores {
                    *scores.entry(d).or_insert(0.0) += s;
                }
            }
            for (d, s) in scores {
                // coordNorm only counts exact matches; documents without one keep their score times 0
                let n = *matched.get(&d).unwrap_or(&0);
                let s = if expand && n == 0 { s } else { s * n as f64 / toks.len() as f64 };
                *results.entry(d).or_insert(0.0) += s;
            }
        }
        results
    }
}
