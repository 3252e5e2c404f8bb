//! C11: what a language makes of a text depends on nothing but the text.

use super::*;
use crate::alloc::{host, sut};
use crate::drive::*;
use crate::harness;
use crate::sched;
use elasticlunr::lang::Language;
use elasticlunr::pipeline::{Pipeline, PipelineFn};
use elasticlunr::Index;
use serde_derive::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::sync::OnceLock;

/// What a new instance made of a text in a process that had done nothing else.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Ref {
    raw: Vec<String>,
    out: Vec<String>,
    each: Vec<Vec<String>>,
    image: String,
}

struct Entry {
    text: String,
    want: Option<Ref>,
}

static CORPUS: OnceLock<BTreeMap<&'static str, Vec<Entry>>> = OnceLock::new();
/// Languages that take long to construct: built once per worker, used by the first two nodes.
static HEAVY: OnceLock<ForceSend<BTreeMap<(&'static str, usize), Box<dyn Language>>>> = OnceLock::new();
const HEAVY_LANGS: &[&str] = &["Chinese", "Japanese"];
const HEAVY_COPIES: usize = 2;

struct RefLang(&'static dyn Language);
impl Language for RefLang {
    fn name(&self) -> String {
        self.0.name()
    }
    fn code(&self) -> String {
        self.0.code()
    }
    fn tokenize(&self, t: &str) -> Vec<String> {
        self.0.tokenize(t)
    }
    fn make_pipeline(&self) -> Pipeline {
        self.0.make_pipeline()
    }
}

fn heavy(lang: &str, copy: usize) -> Option<&'static dyn Language> {
    HEAVY.get()?.0.iter().find(|(k, _)| k.0 == lang && k.1 == copy).map(|(_, l)| &**l)
}

fn instance(lang: &str, copy: usize) -> Box<dyn Language> {
    match heavy(lang, copy) {
        Some(l) => Box::new(RefLang(l)),
        None => base_language(lang),
    }
}

fn image_of(l: Box<dyn Language>, text: &str) -> String {
    let mut ix = Index::with_language(l, &["body"]);
    ix.add_doc("r", &[text]);
    ix.to_json()
}

fn reference(lang: &str, text: &str) -> Option<Ref> {
    harness::isolated(|| {
        let l = instance(lang, 0);
        let raw = l.tokenize(text);
        let out = l.make_pipeline().run(raw.clone());
        // each token by itself
        let all = l.make_pipeline();
        let each = raw
            .iter()
            .map(|t| {
                let own = if raw.len() <= 60 { Some(l.make_pipeline()) } else { None };
                own.as_ref().unwrap_or(&all).run(vec![t.clone()])
            })
            .collect();
        Ref { raw, out, each, image: image_of(l, text) }
    })
    .ok()
}

fn odd(rng: &mut Rng) -> String {
    rng.pick(&[
        "", " ", "-", "İstanbul I ı i", "12 345-678", "...", "(((", "naïve café", "🦀 crab", "the THE The", "日本語 text", "ß", "don't o'clock's", "a-b-c",
        "'s", "ﬁn", "x\u{301}y", "Ωmega Σ", "\"quoted\"", "foo_bar baz.qux", "https://example.org/a?b=c", "\u{200b}zero", "٣٤٥", "ـــ", "الـــ",
    ])
    .to_string()
}

fn gen_text(rng: &mut Rng, lang: &str) -> String {
    let pool = vocab::pool(rng, lang, 40);
    match rng.below(20) {
        0..=6 => rng.pick(&pool).clone(),
        7 => {
            // almost another word
            let mut w: Vec<char> = rng.pick(&pool).chars().collect();
            match rng.below(3) {
                0 => {
                    w.pop();
                }
                1 => w.push(*rng.pick(&['s', 'e', 'n', 'а', 'ة'])),
                _ => {
                    let k = rng.usize(w.len().max(1));
                    if k < w.len() {
                        w.remove(k);
                    }
                }
            }
            w.into_iter().collect()
        }
        8 if rng.chance(0.5) => odd(rng),
        8 => {
            // extremes: the longest and the shortest of tokens, bare or in punctuation
            let ends: &[&str] = &["", "", "", ",", "...", "(\"", "\u{ab}", "-", "'s", "\u{2014}"];
            let long = |rng: &mut Rng| -> String {
                let n = *rng.pick(&[2, 4, 8, 20, 60]);
                let w: String = (0..n).map(|_| rng.pick(&pool).clone()).collect::<String>().split_whitespace().collect();
                format!("{}{}{}", rng.pick(ends), w, rng.pick(ends))
            };
            let short = |rng: &mut Rng| -> String {
                let n = 1 + rng.usize(3);
                format!("{}{}{}", rng.pick(ends), rng.pick(&pool).chars().take(n).collect::<String>(), rng.pick(ends))
            };
            match rng.below(4) {
                0 => long(rng),
                1 => short(rng),
                _ => (0..2 + rng.below(6)).map(|_| if rng.chance(0.4) { long(rng) } else { short(rng) }).collect::<Vec<_>>().join(" "),
            }
        }
        9 => {
            // a text in another language
            let (other, _) = *rng.pick(vocab::BASE_LANGS);
            let p = vocab::pool(rng, other, 10);
            vocab::text(rng, other, &p, 8)
        }
        10 => {
            let p = vocab::pool(rng, lang, 300);
            vocab::text(rng, lang, &p, 300)
        }
        _ => {
            let n = 2 + rng.usize(20);
            vocab::text(rng, lang, &pool, n)
        }
    }
}

fn all_langs() -> Vec<&'static str> {
    vocab::BASE_LANGS.iter().map(|l| l.0).chain(HEAVY_LANGS.iter().copied()).collect()
}

fn corpus_texts(lang: &str) -> Vec<String> {
    let mut rng = Rng::derive(11, lang);
    let n = match lang {
        "English" => 220,
        "Chinese" | "Japanese" => 60,
        _ => 90,
    };
    let mut v: Vec<String> = Vec::new();
    while v.len() < n {
        // one word after another that is easily confused with it
        let t = match v.last() {
            Some(w) if !w.contains(' ') && rng.chance(0.3) => vocab::kin(&mut rng, w),
            _ => gen_text(&mut rng, lang),
        };
        v.push(t);
    }
    for _ in 0..12 {
        v.push(family(&mut rng, lang));
    }
    v
}

/// Words that have everything in common but a part: a long beginning and the length, a long ending
/// and the length, or their letters.
fn family(rng: &mut Rng, lang: &str) -> String {
    let pool = vocab::pool(rng, lang, 60);
    let letters = |w: &str| -> Vec<char> { w.chars().filter(|c| c.is_alphanumeric()).flat_map(|c| c.to_lowercase()).collect() };
    let mut long: Vec<char> = Vec::new();
    let n = *rng.pick(&[4, 6, 8, 10, 12, 15, 16, 20, 24, 32]);
    while long.len() < n {
        long.extend(letters(rng.pick(&pool).as_str()));
        if long.is_empty() {
            long.push('a');
        }
    }
    long.truncate(n);
    let e = 1 + rng.usize(6);
    let kind = rng.below(3);
    let mut v: Vec<String> = Vec::new();
    for _ in 0..3 + rng.usize(6) {
        let w = letters(rng.pick(&pool).as_str());
        let part: Vec<char> = if kind == 0 { w.iter().rev().take(e).rev().copied().collect() } else { w.iter().take(e).copied().collect() };
        let word: Vec<char> = match kind {
            0 => long.iter().chain(&part).copied().collect(),
            1 => part.iter().chain(&long).copied().collect(),
            _ => {
                let mut l = long.clone();
                rng.shuffle(&mut l);
                l
            }
        };
        v.push(word.into_iter().collect());
    }
    v.join(" ")
}

fn warm() {
    let mut c = BTreeMap::new();
    for lang in all_langs() {
        if HEAVY_LANGS.contains(&lang) {
            continue;
        }
        c.insert(lang, corpus_texts(lang).into_iter().map(|text| Entry { want: reference(lang, &text), text }).collect());
    }
    // these are used by every run, so they exist before anything of theirs is looked at
    let mut h: BTreeMap<(&'static str, usize), Box<dyn Language>> = BTreeMap::new();
    for lang in HEAVY_LANGS {
        for k in 0..HEAVY_COPIES {
            h.insert((lang, k), base_language(lang));
        }
    }
    let _ = HEAVY.set(ForceSend(h));
    for lang in HEAVY_LANGS {
        c.insert(lang, corpus_texts(lang).into_iter().map(|text| Entry { want: reference(lang, &text), text }).collect());
    }
    let _ = CORPUS.set(c);
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        gen,
        exec,
        runs: (6000, 150_000),
        rule: "a case is a plan (1-4 threads using instances and pipelines of some of the 19 languages in turns, over up to thousands of texts, with calls abandoned, delayed or re-entered half-way) with a seeded schedule and seeded hash keys; non-trivial when a call was abandoned or re-entered, or nodes were switched inside the library, and its event log differs from every other run's",
        real: &[
            "elasticlunr-rs as built from /repo, all 19 languages",
            "rust-stemmers, regex, jieba-rs and lindera with their dictionaries",
            "the Rust standard library (its hash seeds, clocks, futexes and allocations answered by the simulator)",
        ],
        stubs: &["pipeline functions of the caller between those of the language (they pass tokens on, and panic, stall, stop or call back when the plan says so)"],
        assumptions: &[
            "the reference for a text is what a new instance makes of it in a process that has done nothing else",
            "a text on which the reference panics is not used",
            "the two instances of Chinese and of Japanese that most runs use are constructed before the run",
        ],
        warm,
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Op {
    /// 0 process a text, 1 sweep over the corpus, 2 index a text, 3 new instance, 4 new pipeline,
    /// 5 drop the instance but not the pipeline, 6 process behind seams, 7 the tokens in another order
    kind: u64,
    slot: u64,
    /// number of the text: first the corpus, then the texts of the plan
    text: u64,
    n: u64,
    fault: Option<Fault>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Node {
    slots: Vec<String>,
    ops: Vec<Op>,
    start_us: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Body {
    /// texts of this plan alone: (language, text)
    texts: Vec<(String, String)>,
    nodes: Vec<Node>,
    /// construct the slow languages anew where asked to
    construct_heavy: bool,
}

fn gen(rng: &mut Rng, _run: u64) -> Value {
    let langs = all_langs();
    let heavy_run = rng.chance(0.25);
    let in_play: Vec<&str> = (0..*rng.pick(&[1, 1, 2, 2, 3, 5]))
        .map(|k| {
            if heavy_run && k == 0 {
                *rng.pick(HEAVY_LANGS)
            } else if rng.chance(0.25) {
                "English"
            } else {
                langs[rng.usize(vocab::BASE_LANGS.len())]
            }
        })
        .collect();
    let texts: Vec<(String, String)> = (0..rng.usize(7))
        .map(|_| {
            let l = *rng.pick(&in_play);
            (l.to_string(), gen_text(rng, l))
        })
        .collect();
    let long = rng.chance(0.12);
    let nodes = (0..*rng.pick(&[1, 1, 2, 2, 2, 3, 4]))
        .map(|i| {
            let mut slots: Vec<String> = (0..*rng.pick(&[1, 1, 2, 2, 3, 4])).map(|_| rng.pick(&in_play).to_string()).collect();
            if i >= HEAVY_COPIES {
                for s in slots.iter_mut() {
                    if HEAVY_LANGS.contains(&s.as_str()) {
                        *s = "English".into();
                    }
                }
            }
            let n = if long { 20 + rng.usize(60) } else { 3 + rng.usize(25) };
            let favourite = rng.below(200);
            let ops = (0..n)
                .map(|_| {
                    let kind = *rng.pick(&[0, 0, 0, 0, 0, 1, 2, 2, 3, 4, 5, 6, 6, 6, 6, 7]);
                    // the same texts come back again and again
                    let text = match rng.below(4) {
                        0 => favourite,
                        1 => (favourite + rng.below(3)) % 220,
                        _ => rng.below(240),
                    };
                    let mut o = Op { kind, slot: rng.below(slots.len() as u64), text, n: 0, fault: None };
                    if kind == 1 {
                        o.n = if long { 10 + rng.below(200) } else { 2 + rng.below(20) };
                    }
                    if kind == 6 {
                        o.fault = Some(Fault {
                            site: format!("{}", rng.below(4)),
                            nth: *rng.pick(&[0, 0, 0, 1, 2, 5, 12]),
                            act: rng.pick(&["panic", "panic", "panic", "stall", "nest", "nest", "crash"]).to_string(),
                            arg: rng.below(500_000),
                        });
                        if o.fault.as_ref().unwrap().act == "crash" && rng.chance(0.6) {
                            o.fault.as_mut().unwrap().act = "panic".into();
                        }
                    }
                    o
                })
                .collect();
            Node { slots, ops, start_us: *rng.pick(&[0, 0, 20, 300]) }
        })
        .collect();
    serde_json::to_value(Body { texts, nodes, construct_heavy: rng.chance(0.01) }).unwrap()
}

/// A function of the caller between those of the language.
struct Seam {
    at: usize,
    hub: Hub,
}
const SITES: [&str; 4] = ["0", "1", "2", "3"];
impl PipelineFn for Seam {
    fn name(&self) -> String {
        format!("seam{}", self.at)
    }
    fn filter(&self, token: String) -> Option<String> {
        self.hub.hit(SITES[self.at % 4], || Call::Iter);
        Some(token)
    }
}

struct Slot {
    lang: String,
    inst: Option<Box<dyn Language>>,
    pipe: Pipeline,
}

type Texts = Shared<BTreeMap<(String, u64), (String, Ref)>>;

/// The text of that number for a language, and what it has to become.
fn pick(texts: &Texts, lang: &str, k: u64) -> Option<(String, Ref)> {
    host(|| {
        let own: Vec<&(String, u64)> = texts.get().keys().filter(|t| t.0 == lang).collect();
        let c = CORPUS.get()?.get(lang)?;
        let total = c.len() + own.len();
        if total == 0 {
            return None;
        }
        let k = (k % total as u64) as usize;
        if k < c.len() {
            Some((c[k].text.clone(), c[k].want.clone()?))
        } else {
            texts.get().get(own[k - c.len()]).cloned()
        }
    })
}

fn exec(v: &Value) {
    let b: Body = harness::body(v);
    let mut m = BTreeMap::new();
    for (k, (lang, text)) in b.texts.iter().enumerate() {
        match reference(lang, text) {
            Some(r) => {
                m.insert((lang.clone(), k as u64), (text.clone(), r));
            }
            None => sched::count("reference_unavailable"),
        }
    }
    let texts: Texts = Shared::new(m);
    sched::go_live();
    for (i, n) in b.nodes.into_iter().enumerate() {
        let (texts, ch) = (texts.clone(), b.construct_heavy);
        sched::spawn(i as u64, move || node(i, n, texts, ch));
    }
    sched::run();
    if sched::sim().stats.get("preemptions_in_library").copied().unwrap_or(0) > 0 {
        sched::count("nontrivial");
    }
}

fn differs(who: &str, lang: &str, text: &str, got: &[String], want: &[String]) {
    if got == want {
        return;
    }
    let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let cut = |v: &[String]| format!("{:?}", &v[at.min(v.len())..(at + 6).min(v.len())]);
    let shown: String = text.chars().take(300).collect();
    sched::fail(
        "tokens-differ",
        format!("{}: {} makes of {:?}, from token {} on: {}\nin a fresh process: {}", who, lang, shown, at, cut(got), cut(want)),
    );
}

fn one(who: &str, lang: &str, inst: Option<&dyn Language>, pipe: &Pipeline, text: &str, want: &Ref) {
    sched::point();
    sched::count("texts_processed");
    let r = guarded(|| {
        let raw = match inst {
            Some(l) => l.tokenize(text),
            None => want.raw.clone(),
        };
        let out = pipe.run(raw.clone());
        (raw, out)
    });
    match r {
        Ok((raw, out)) => {
            host(|| {
                slog!("{} {} {:x}", who, lang, sched::fnv(format!("{:?}", out).as_bytes()));
                sched::state(sched::fnv(format!("{}{:?}", lang, out).as_bytes()));
            });
            differs(who, lang, text, &raw, &want.raw);
            differs(who, lang, text, &out, &want.out);
            let each = want.each.concat();
            if each != want.out {
                sched::fail("tokens-not-alone", format!("{}: {} makes of the tokens of {:?} {:?}, but of each alone {:?}", who, lang, text, want.out, each));
            }
        }
        Err(e) => sched::fail("panics-only-here", format!("{}: {} on {:?}: {:?}; in a fresh process it does not", who, lang, text, e)),
    }
}

fn node(i: usize, n: Node, texts: Texts, construct_heavy: bool) {
    if n.start_us > 0 {
        sched::sleep(n.start_us * 1000);
    }
    let make = |lang: &str, again: bool| -> Box<dyn Language> {
        if again && construct_heavy && HEAVY_LANGS.contains(&lang) {
            host(|| base_language(lang))
        } else {
            sut(|| instance(lang, i))
        }
    };
    let mut slots: Vec<Slot> = n
        .slots
        .iter()
        .map(|l| {
            let inst = make(l, false);
            let pipe = sut(|| inst.make_pipeline());
            Slot { lang: l.clone(), inst: Some(inst), pipe }
        })
        .collect();
    let who = format!("node {}", i);
    for op in &n.ops {
        if slots.is_empty() {
            return;
        }
        let k = (op.slot % slots.len() as u64) as usize;
        let lang = slots[k].lang.clone();
        match op.kind {
            1 => {
                for j in 0..op.n {
                    if let Some((t, want)) = pick(&texts, &lang, op.text + j) {
                        let s = &slots[k];
                        one(&who, &lang, s.inst.as_deref(), &s.pipe, &t, &want);
                    }
                }
            }
            2 => {
                let Some((t, want)) = pick(&texts, &lang, op.text) else { continue };
                sched::point();
                let l = make(&lang, false);
                sched::count("texts_indexed");
                match guarded(|| image_of(l, &t)) {
                    Ok(im) if im == want.image => slog!("{} {} image {:x}", who, lang, sched::fnv(im.as_bytes())),
                    Ok(im) => {
                        let at = im.bytes().zip(want.image.bytes()).take_while(|(a, b)| a == b).count();
                        let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(60).min(s.len())..(at + 60).min(s.len())]).into_owned();
                        sched::fail("index-differs", format!("{}: {} indexes {:?} as ...{}\nin a fresh process: ...{}", who, lang, t, cut(&im), cut(&want.image)))
                    }
                    Err(e) => sched::fail("panics-only-here", format!("{}: indexing {:?} in {}: {:?}", who, t, lang, e)),
                }
            }
            3 => {
                let inst = make(&lang, true);
                let pipe = sut(|| inst.make_pipeline());
                sut(|| slots[k] = Slot { lang, inst: Some(inst), pipe });
                sched::count("instances_replaced");
            }
            4 => {
                let s = &mut slots[k];
                if let Some(inst) = &s.inst {
                    sut(|| s.pipe = inst.make_pipeline());
                    sched::count("pipelines_replaced");
                }
            }
            5 => {
                sut(|| slots[k].inst = None);
                sched::count("instances_dropped_before_their_pipeline");
            }
            7 => {
                let Some((_, want)) = pick(&texts, &lang, op.text) else { continue };
                sched::point();
                let (toks, expect) = host(|| {
                    let mut order: Vec<usize> = (0..want.raw.len()).collect();
                    Rng::derive(op.text, "order").shuffle(&mut order);
                    (order.iter().map(|&i| want.raw[i].clone()).collect::<Vec<_>>(), order.iter().flat_map(|&i| want.each[i].clone()).collect::<Vec<_>>())
                });
                sched::count("token_lists_reordered");
                match guarded(|| slots[k].pipe.run(toks.clone())) {
                    Ok(out) => differs(&who, &lang, &toks.join(" "), &out, &expect),
                    Err(e) => sched::fail("panics-only-here", format!("{}: {} on the tokens {:?}: {:?}", who, lang, toks, e)),
                }
            }
            6 => {
                let (Some((t, want)), Some(f)) = (pick(&texts, &lang, op.text), op.fault.clone()) else { continue };
                // seams before, between and after the functions of the pipeline in use
                let hub = Hub::new();
                let len = slots[k].pipe.queue.len();
                for at in (0..=len.min(3)).rev() {
                    slots[k].pipe.queue.insert(at, Box::new(Seam { at, hub: hub.clone() }));
                }
                let act = f.act.clone();
                if act == "nest" {
                    // use other languages, or this one, while its pipeline is half-way
                    let other = slots[(f.arg % slots.len() as u64) as usize].lang.clone();
                    let (texts, who) = (texts.clone(), format!("node {} re-entered", i));
                    let first = f.arg;
                    hub.s().nest.push(Box::new(move || {
                        let inst = sut(|| instance(&other, i));
                        let pipe = sut(|| inst.make_pipeline());
                        for j in 0..3 {
                            if let Some((t, want)) = pick(&texts, &other, first + j) {
                                one(&who, &other, Some(&*inst), &pipe, &t, &want);
                            }
                        }
                    }));
                }
                hub.arm(Some(Fault { arg: if act == "nest" { 0 } else { f.arg }, ..f }));
                let s = &slots[k];
                sched::point();
                let r = guarded(|| {
                    let raw = match &s.inst {
                        Some(l) => l.tokenize(&t),
                        None => want.raw.clone(),
                    };
                    s.pipe.run(raw)
                });
                match r {
                    Ok(out) => {
                        differs(&who, &lang, &t, &out, &want.out);
                        slog!("{} {} behind seams {:x}", who, lang, sched::fnv(format!("{:?}", out).as_bytes()));
                    }
                    Err(Added::Injected) => {
                        sched::count("calls_abandoned");
                        slog!("{} {} abandoned", who, lang);
                    }
                    Err(e) => sched::fail("panics-only-here", format!("{}: {} on {:?}: {:?}; in a fresh process it does not", who, lang, t, e)),
                }
                slots[k].pipe.queue.retain(|f| !f.name().starts_with("seam"));
            }
            _ => {
                let Some((t, want)) = pick(&texts, &lang, op.text) else { continue };
                let s = &slots[k];
                one(&who, &lang, s.inst.as_deref(), &s.pipe, &t, &want);
            }
        }
    }
}
