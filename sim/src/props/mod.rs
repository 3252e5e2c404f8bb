pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c22;

use crate::drive::{DocOp, Fault, IndexSpec};
use crate::harness::Prop;
use crate::rng::Rng;
use crate::vocab;

pub fn all() -> Vec<Prop> {
    let mut v = vec![
        c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::prop(),
        c08::prop(), c09::prop(), c10::prop(), c12::prop(), c13::prop(), c14::prop(), c22::prop(),
    ];
    // needs the languages with dictionaries
    if cfg!(feature = "all") {
        v.push(c11::prop());
    }
    v
}

pub fn nothing() {}

pub const REAL: &[&str] = &[
    "elasticlunr-rs as built from /repo (Index, IndexBuilder, DocumentStore, InvertedIndex, Pipeline, languages)",
    "serde, serde_json, regex, rust-stemmers",
    "the Rust standard library (its hash seeds, clocks, futexes and allocations answered by the simulator)",
];

/// An index specification with fields, reference field and so on at random.
pub fn gen_spec(rng: &mut Rng, lang: &str, max_fields: usize) -> IndexSpec {
    let n = match rng.below(12) {
        0 => 0,
        1..=4 => 1,
        5..=8 => 2,
        9 | 10 => 1 + rng.usize(max_fields.min(4)),
        _ => 1 + rng.usize(max_fields),
    };
    let mut fields = vocab::fields(rng, n);
    // rarely, more fields than anyone would have thought of
    let n = if rng.chance(0.005) { {
        let max = if rng.chance(0.1) { 300 } else { 60 };
        17 + rng.usize(max)
    } } else { n };
    for i in fields.len()..n {
        fields.push(format!("f{}", i));
    }
    let custom = if rng.chance(0.3) { (0..n).filter(|_| rng.chance(0.4)).collect() } else { vec![] };
    let ref_field = match rng.below(6) {
        0 if n > 0 => fields[rng.usize(n)].clone(),
        1 => "key".to_string(),
        _ => "id".to_string(),
    };
    let mut s = IndexSpec {
        lang: lang.into(),
        wrap: rng.chance(0.6),
        fields,
        ref_field,
        save: rng.chance(0.7),
        ctor: *rng.pick(&[0, 0, 0, 1, 2, 3]),
        custom,
    };
    crate::drive::normalise(&mut s);
    s
}

/// The values of one document.
pub fn gen_values(rng: &mut Rng, spec: &IndexSpec, r: &str, pool: &[String], words: usize) -> Vec<String> {
    let mut n = spec.fields.len();
    if rng.chance(0.1) && n > 0 {
        // fewer values than fields: the rest stays unindexed
        n = rng.usize(n);
    }
    (0..n)
        .map(|i| {
            if spec.fields[i] == spec.ref_field {
                return r.to_string();
            }
            let k = match rng.below(10) {
                _ if spec.fields.len() > 16 && rng.chance(0.8) => 0,
                0 => 0,
                1..=3 => rng.usize(4),
                4..=8 => rng.usize(words + 1),
                _ => rng.usize(3 * words + 1),
            };
            if spec.custom.contains(&i) {
                vocab::csv(rng, pool, k)
            } else {
                vocab::text(rng, &spec.lang, pool, k)
            }
        })
        .collect()
}

/// Rarely, many more documents than usual: what counts them has to get past a byte.
pub fn crowd(rng: &mut Rng) -> Option<usize> {
    rng.chance(0.01).then(|| {
        let max = if rng.chance(0.1) { 2000 } else { 500 };
        270 + rng.usize(max)
    })
}

/// The words a crowd has in common.
pub fn crowd_pool(rng: &mut Rng, pool: &mut Vec<String>) {
    pool.truncate(1 + rng.usize(2));
}

/// A word that the English pipeline leaves alone, in the library and in elasticlunr.js: without
/// vowels and suffixes.
pub fn made_up(rng: &mut Rng, n: usize) -> String {
    const A: &[u8] = b"bcdfghjkmnpqtvwxz0123456789";
    let mut s: String = (0..n.max(2) - 1).map(|_| *rng.pick(A) as char).collect();
    s.push('k');
    s
}

pub fn is_made_up(t: &str) -> bool {
    t.ends_with('k') && t.bytes().all(|b| b"bcdfghjkmnpqtvwxz0123456789".contains(&b))
}

/// Rarely, one document of a builder is out of proportion: a word much longer than words are, a text
/// of tens of kilobytes, hundreds of different words, a node with hundreds of children, a reference
/// of thousands of characters. (Whatever sizes a change treats differently from the usual ones.)
pub fn stretch(rng: &mut Rng, spec: &IndexSpec, mut ops: Vec<&mut DocOp>, pool: &[String], longest: usize) -> bool {
    if ops.is_empty() || !rng.chance(0.035) {
        return false;
    }
    let free = spec.lang.starts_with("Toy");
    for _ in 0..1 + rng.usize(2) {
        let i = rng.usize(ops.len());
        let kind = rng.below(6);
        if kind == 0 {
            let old = ops[i].r.clone();
            let n = *rng.pick(&[33, 65, 129, 257, 1025, 4097]) + rng.usize(9);
            let tail: String = (0..n).map(|_| *rng.pick(&['x', '/', '9', 'é'])).collect();
            let new = format!("{}{}", old, tail);
            for o in ops.iter_mut().filter(|o| o.r == old) {
                o.r = new.clone();
                for (k, v) in o.values.iter_mut().enumerate() {
                    if spec.fields.get(k) == Some(&spec.ref_field) {
                        *v = new.clone();
                    }
                }
            }
            continue;
        }
        let before = ops[i].values.clone();
        let op = &mut *ops[i];
        let at: Vec<usize> = (0..op.values.len().min(spec.fields.len())).filter(|k| spec.fields[*k] != spec.ref_field).collect();
        if at.is_empty() {
            continue;
        }
        let k = *rng.pick(&at);
        let custom = spec.custom.contains(&k);
        let word = |rng: &mut Rng, n: usize| {
            if free {
                let a: &[char] = *rng.pick(&[&['a', 'b'][..], &['é', 'z', '日'][..], &['a'][..]]);
                (0..n).map(|_| *rng.pick(a)).collect()
            } else {
                made_up(rng, n)
            }
        };
        let words: Vec<String> = match kind {
            1 => {
                let n = (*rng.pick(&[30, 62, 63, 64, 90, 126, 254, 300, 600]) + rng.usize(5)).min(longest);
                let w: String = word(rng, n);
                let mut v = vec![w];
                if rng.chance(0.5) {
                    // and one that starts like it
                    let n = n.saturating_sub(1 + rng.usize(3)).max(2);
                    let mut c: String = v[0].chars().take(n - 1).collect();
                    c.push('k');
                    v.push(c);
                }
                v
            }
            2 => {
                let n = *rng.pick(&[150, 600, 2000, 9000]) + rng.usize(100);
                (0..n).map(|_| rng.pick(pool).replace(',', "")).collect()
            }
            3 => {
                let n = *rng.pick(&[130, 260, 520, 1100]) + rng.usize(50);
                (0..n).map(|_| { let n = 2 + rng.usize(5); word(rng, n) }).collect()
            }
            4 => {
                // children of one node
                let n = *rng.pick(&[17, 40, 70, 140, 300]) + rng.usize(10);
                let stem: String = { let n = 2 + rng.usize(3); word(rng, n) };
                (0..n as u32)
                    .map(|i| match (free, i) {
                        (true, _) => format!("{}{}", stem, char::from_u32(0x4e00 + 37 * i).unwrap()),
                        (false, _) => format!("{}{}{}k", stem, (i / 10) % 10, i % 10),
                    })
                    .collect()
            }
            _ => {
                // the same word often enough to be counted in more than a byte
                let w = rng.pick(pool).replace(',', "");
                let n = 250 + rng.usize(60);
                vec![w; n]
            }
        };
        let add = words.join(if custom { "," } else { " " });
        let v = &mut op.values[k];
        *v = match rng.below(3) {
            0 => add,
            _ if v.is_empty() => add,
            1 => format!("{}{}{}", add, if custom { "," } else { " " }, v),
            _ => format!("{}{}{}", v, if custom { "," } else { " " }, add),
        };
        let (r, after) = (op.r.clone(), op.values.clone());
        for o in ops.iter_mut().filter(|o| o.r == r && o.values == before) {
            o.values = after.clone();
        }
        let op = &mut *ops[i];
        if let Some(f) = &mut op.fault {
            if rng.chance(0.5) {
                let act = f.act.clone();
                let arg = f.arg;
                *f = gen_fault(rng, spec, &DocOp { r: op.r.clone(), values: op.values.clone(), fault: None }, &act);
                if act == "nest" {
                    f.arg = arg;
                }
            }
        }
    }
    true
}

/// One word of one field very often.
pub fn emphasise(rng: &mut Rng, spec: &IndexSpec, values: &mut [String], pool: &[String]) {
    if values.is_empty() || pool.is_empty() {
        return;
    }
    let k = rng.usize(values.len());
    if spec.fields[k] == spec.ref_field {
        return;
    }
    let w = rng.pick(pool).replace(',', "");
    let n = if rng.chance(0.03) { 66_000 + rng.usize(4000) } else { 200 + rng.usize(200) };
    let sep = if spec.custom.contains(&k) { "," } else { " " };
    values[k] = vec![w.as_str(); n].join(sep);
}

pub fn count_words(op: &DocOp) -> u64 {
    op.values.iter().map(|v| v.split([' ', ',']).count() as u64).sum()
}

/// A fault somewhere in the caller's code for this add.
pub fn gen_fault(rng: &mut Rng, spec: &IndexSpec, op: &DocOp, act: &str) -> Fault {
    let v = op.values.len() as u64;
    let sites: &[&str] = match (spec.wrap, spec.custom.is_empty()) {
        (true, true) => &["iter", "asref", "tok", "fn", "fn", "fn"],
        (true, false) => &["iter", "asref", "tok", "ftok", "fn", "fn", "fn"],
        (false, true) => &["iter", "asref"],
        (false, false) => &["iter", "asref", "ftok"],
    };
    let site = *rng.pick(sites);
    let nth = match site {
        "iter" => rng.below(v + 1),
        "asref" => rng.below(2 * v + 1),
        "tok" => rng.below(v - (spec.custom.len() as u64).min(v) + 1),
        "ftok" => rng.below(spec.custom.len() as u64),
        _ => rng.below(3 * count_words(op) + 1),
    };
    Fault { site: site.into(), nth, act: act.into(), arg: rng.below(3_000_000) }
}
