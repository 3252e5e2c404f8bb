//! Words and texts for the plans.

use crate::rng::Rng;

pub fn words(code: &str) -> Vec<&'static str> {
    let t = match code {
        "vocab" => include_str!("../../data/en_vocab.txt"),
        "en" => include_str!("../../data/en.txt"),
        "ar" => include_str!("../../data/ar.txt"),
        "da" => include_str!("../../data/da.txt"),
        "de" => include_str!("../../data/de.txt"),
        "du" => include_str!("../../data/du.txt"),
        "es" => include_str!("../../data/es.txt"),
        "fi" => include_str!("../../data/fi.txt"),
        "fr" => include_str!("../../data/fr.txt"),
        "hu" => include_str!("../../data/hu.txt"),
        "it" => include_str!("../../data/it.txt"),
        "ja" => include_str!("../../data/ja.txt"),
        "ko" => include_str!("../../data/ko.txt"),
        "no" => include_str!("../../data/no.txt"),
        "pt" => include_str!("../../data/pt.txt"),
        "ro" => include_str!("../../data/ro.txt"),
        "ru" => include_str!("../../data/ru.txt"),
        "sv" => include_str!("../../data/sv.txt"),
        "tr" => include_str!("../../data/tr.txt"),
        "zh" => include_str!("../../data/zh.txt"),
        _ => panic!("no words for {}", code),
    };
    t.lines().filter(|l| !l.is_empty()).collect()
}

/// Languages that are cheap to build and to construct: (name, code).
pub const BASE_LANGS: &[(&str, &str)] = &[
    ("English", "en"), ("Arabic", "ar"), ("Danish", "da"), ("Dutch", "du"), ("Finnish", "fi"), ("French", "fr"),
    ("German", "de"), ("Hungarian", "hu"), ("Italian", "it"), ("Korean", "ko"), ("Norwegian", "no"),
    ("Portuguese", "pt"), ("Romanian", "ro"), ("Russian", "ru"), ("Spanish", "es"), ("Swedish", "sv"), ("Turkish", "tr"),
];

pub fn code_of(name: &str) -> &'static str {
    match name {
        "Chinese" => "zh",
        "Japanese" => "ja",
        _ => BASE_LANGS.iter().find(|l| l.0 == name).map_or("en", |l| l.1),
    }
}

/// A pool of words to draw texts from: small, so that words repeat and share prefixes.
pub fn pool(rng: &mut Rng, lang: &str, n: usize) -> Vec<String> {
    if lang.starts_with("Toy") {
        return (0..n).map(|_| toy_word(rng)).collect();
    }
    let ws = match lang {
        "English" => words("vocab"),
        l if l.starts_with("Parts") => words("vocab"),
        l => words(code_of(l)),
    };
    (0..n).map(|_| rng.pick(&ws).to_string()).collect()
}

pub fn toy_word(rng: &mut Rng) -> String {
    let alpha: &[char] = match rng.below(4) {
        0 => &['a', 'b'],
        1 => &['a', 'b', 'c', 'd', 'A', 'B'],
        2 => &['a', 'é', '日', '🦀', 'ß', 'Z'],
        _ => &['d', 'o', 'c', 's', 'f', '"', '\\', '/', '\u{1}', '0', '.', 'ё'],
    };
    let n = *rng.pick(&[1, 1, 2, 2, 3, 4, 6, 12]);
    let mut w: String = (0..n).map(|_| *rng.pick(alpha)).collect();
    match rng.below(14) {
        0 => w.insert(0, '~'),
        1 => w.push_str("++"),
        2 => w = kin(rng, &w).replace(' ', "_"),
        _ => {}
    }
    w
}

/// A string easily confused with this one: another case, a character with the same low byte or the
/// same low 16 bits, one with or without an accent, wider or narrower, a character more, less or
/// twice, two exchanged, something invisible.
pub fn kin(rng: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    if c.is_empty() {
        return rng.pick(&[" ", "\u{0}", "\u{200b}", "\u{feff}", "null"]).to_string();
    }
    let i = rng.usize(c.len());
    let u = c[i] as u32;
    let ch = |u: u32| char::from_u32(u).unwrap_or('\u{fffd}');
    match rng.below(16) {
        0 => c[i] = ch((u & 0xff) + 0x100 * (1 + rng.below(30) as u32)),
        1 => c[i] = ch(u & 0xff),
        2 => c[i] = ch((u & 0xffff) + 0x10000 * (1 + rng.below(2) as u32)),
        3 => c[i] = ch(u & 0x7f),
        4 => c[i] = c[i].to_uppercase().next().unwrap_or('?'),
        5 => c[i] = c[i].to_lowercase().next().unwrap_or('?'),
        6 => c[i] = ch(u.wrapping_add(1)),
        7 => c[i] = ch(u.saturating_sub(1)),
        8 => c.insert(i + 1, '\u{301}'),
        9 => c[i] = if (0x21..0x7f).contains(&u) { ch(u + 0xfee0) } else { 'é' },
        10 => {
            c.remove(i);
            if c.is_empty() {
                c.push('é');
            }
        }
        11 => c.insert(i, c[i]),
        12 => {
            let j = rng.usize(c.len());
            c.swap(i, j);
        }
        13 => c.insert(*rng.pick(&[0, i, i + 1]), *rng.pick(&['\u{0}', '\u{200b}', '\u{ad}', '\u{feff}', '\u{a0}'])),
        14 => c.truncate(i.max(1)),
        _ => c.push(*rng.pick(&['s', ' ', '0', '.', '\u{0}', '\u{308}'])),
    }
    c.into_iter().collect()
}

/// A text of about `n` words from the pool.
pub fn text(rng: &mut Rng, lang: &str, pool: &[String], n: usize) -> String {
    if pool.is_empty() {
        return String::new();
    }
    let toy = lang.starts_with("Toy");
    let mut out = String::new();
    if toy && rng.chance(0.1) {
        out.push(' ');
    }
    for i in 0..n {
        if i > 0 {
            out.push_str(if toy {
                *rng.pick(&[" ", " ", " ", "  "])
            } else {
                *rng.pick(&[" ", " ", " ", " ", "\n", "-", ", ", ". ", "  ", "\t", " - "])
            });
        }
        let w = rng.pick(pool);
        if toy {
            out.push_str(w);
        } else {
            match rng.below(14) {
                0 => out.extend(w.chars().flat_map(|c| if c.is_ascii() { c.to_ascii_uppercase() } else { c }.to_string().chars().collect::<Vec<_>>())),
                1 => {
                    out.push('(');
                    out.push_str(w);
                    out.push(')');
                }
                2 => {
                    out.push('"');
                    out.push_str(w);
                    out.push_str("!\"");
                }
                3 if lang == "English" => out.push_str(*rng.pick(&["the", "and", "of", "is", "a", "with", "THE", "in"])),
                _ => out.push_str(w),
            }
        }
    }
    out
}

/// A comma separated text for fields with a tokenizer of their own.
pub fn csv(rng: &mut Rng, pool: &[String], n: usize) -> String {
    (0..n).map(|_| rng.pick(pool).replace(',', "")).collect::<Vec<_>>().join(*rng.pick(&[",", ", ", ",,"]))
}

pub fn doc_ref(rng: &mut Rng, i: usize) -> String {
    let ch = |u: u32| char::from_u32(u).unwrap_or('\u{fffd}');
    // distinct for distinct i
    match rng.below(16) {
        // derived from each other
        14 | 15 => format!("p{}{}", i / 4, rng.pick(&[["", "#top", "/", ".html"], ["", "#a b", "-1", "/index"], ["", "?q=1", " ", ".0"], ["", "p", "#", ":1"]])[i % 4]),
        10 if i < 200 => ch(0x61 + 0x100 * i as u32).to_string(),
        11 => format!("{}{}", if i % 2 == 0 { "Key" } else { "key" }, i / 2),
        12 => format!("0{}", i),
        13 => format!("{}{}", i, rng.pick(&[" ", ".0", "\u{0}", "é", "e\u{301}"])),
        0 => format!("docs/{}/é {}.html", i, i),
        1 if i > 0 => format!("-{}", i),
        2 => format!("\"{}\"\\", i),
        3 => format!("日{}", i),
        4 if i == 0 => String::new(),
        5 => format!("r{}", "x".repeat(i)),
        _ => format!("{}", i),
    }
}

pub const FIELD_NAMES: &[&str] = &["title", "body", "breadcrumbs", "tags", "id", "a", "Ünïcode", "docs", "df", "field with space", "z", "", "root", "url", "h1", "toc", "Title", "ID", "body ", "título", "ti\u{301}tulo", "tag"];

pub fn fields(rng: &mut Rng, n: usize) -> Vec<String> {
    let mut f: Vec<String> = FIELD_NAMES.iter().map(|s| s.to_string()).collect();
    rng.shuffle(&mut f);
    f.truncate(n);
    f
}
