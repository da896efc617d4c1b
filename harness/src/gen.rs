//! Generators.

use crate::dict::dict;
use crate::oracle::{lang::CODES, porter};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use std::collections::HashMap;
use std::sync::OnceLock;

pub type S<T> = BoxedStrategy<T>;

macro_rules! data {
    ($kind:literal: $($c:literal)+) => {
        &[$(($c, include_str!(concat!("../data/", $kind, "/", $c, ".txt")))),+]
    };
}
pub const WORDS: &[(&str, &str)] =
    data!("words": "ar" "da" "de" "du" "en" "es" "fi" "fr" "hu" "it" "ja" "ko" "no" "pt" "ro" "ru" "sv" "tr" "zh");
pub const STOPS: &[(&str, &str)] =
    data!("stop": "da" "de" "du" "en" "es" "fi" "fr" "hu" "it" "ko" "no" "pt" "ro" "ru" "sv" "tr");

pub fn corpus(code: &str) -> &'static [&'static str] {
    static M: OnceLock<HashMap<&'static str, Vec<&'static str>>> = OnceLock::new();
    &M.get_or_init(|| WORDS.iter().map(|(c, t)| (*c, t.lines().collect())).collect())[code]
}

/// The stop list of a language, as data of the harness (the two Chinese words included).
pub fn stops(code: &str) -> &'static [&'static str] {
    static M: OnceLock<HashMap<&'static str, Vec<&'static str>>> = OnceLock::new();
    M.get_or_init(|| {
        let mut m: HashMap<&'static str, Vec<&'static str>> =
            STOPS.iter().map(|(c, t)| (*c, t.strip_suffix('\n').unwrap_or(t).split('\n').collect())).collect();
        m.insert("zh", vec!["的", "了"]);
        m
    })
    .get(code)
    .map_or(&[], |v| v.as_slice())
}

pub fn code() -> S<String> {
    select(CODES).prop_map(String::from).boxed()
}

/// Languages in which a case is cheap; the two dictionary languages are in `code()`.
pub fn light_code() -> S<String> {
    select(CODES.iter().copied().filter(|c| *c != "zh" && *c != "ja").collect::<Vec<_>>())
        .prop_map(String::from)
        .boxed()
}

pub fn alphabet(code: &str) -> Vec<char> {
    let latin = "abcdefghijklmnopqrstuvwxyz";
    let s = match code {
        "ar" => "ابتثجحخدذرزسشصضطظعغفقكلمنهويءآأإٱىةؤئـًٌٍَُِّْٕٓٔٛ".to_string(),
        "da" | "no" => format!("{latin}æøåÆØÅ"),
        "sv" | "fi" => format!("{latin}äöåÄÖÅ"),
        "de" => format!("{latin}äöüßÄÖÜẞ"),
        "du" => format!("{latin}ëïéèáĳ"),
        "fr" => format!("{latin}àâçéèêëîïôûùüœæÉŒ"),
        "es" => format!("{latin}áéíñóúüÑªº"),
        "it" => format!("{latin}àèéìíòùú"),
        "pt" => format!("{latin}ãõáéíóúâêôçà"),
        "ro" => format!("{latin}ăâîșțşţ"),
        "hu" => format!("{latin}áéíóöőúüű"),
        "tr" => format!("{latin}çğıöşüİI"),
        "ru" => "абвгдеёжзийклмнопрстуфхцчшщъыьэюяАЁЯѣіѵѳ".to_string(),
        "ko" => "가나다라마바사국회국민대한법원ㄱㄴㅏ가어을를이abc".to_string(),
        "zh" => "的了我们中国法律人民在这不大学生活京北上海你好世界〇abcXYZ".to_string(),
        "ja" => "あいうえおのはがをにでとたですますアイウエオーヴ日本東京人行食べる国語漢字々0aA".to_string(),
        _ => latin.to_string() + "aeiouyysstle'",
    };
    s.chars().collect()
}

pub const PUNCT: &[&str] = &[
    ".", ",", "!", "?", ":", ";", "'", "\"", "(", ")", "[", "]", "{", "}", "_", "*", "/", "\\", "&", "@", "#",
    "$", "%", "+", "=", "<", ">", "|", "~", "`", "^", "…", "—", "–", "“", "”", "‘", "’", "«", "»", "¿", "¡",
    "。", "、", "，", "！", "？", "「", "」", "・", "·", "％", "0", "7", "42", "½", "٣", "²", "№", "©", "™", "\u{200b}",
    "\u{200d}", "\u{feff}", "\u{ad}", "\u{301}", "😀", "\u{7f}", "\0", "\u{1b}", "ʼ", "′", "１", "Ａ", "々", "〆", "ー",
];

pub const SPECIAL: &[&str] = &[
    "docs", "df", "tf", "root", "id", "ref", "length", "save", "index", "docInfo", "documentStore", "__proto__",
    "constructor", "prototype", "toString", "hasOwnProperty", "valueOf", "null", "undefined", "true", "NaN", "0", "1",
    "-1", "1e9", "\"", "\\", "\\n", "\\u0000", "</script>", "<b>", "&amp;", "\u{2028}x", "x\u{2029}", "a\0b", "\u{1}",
    "\u{1f}", "\t", "C:\\dir", "{\"a\":1}", "[]", "%00", "${x}", "'", "''", "O'Neil", "it's", "l'eau", "e.g.", "U.S.A.",
    "3.14", "1,000", "v1.2.3", "c++", "c#", "node.js", "foo_bar", "_", "__", "_x_", "9th", "naïve", "Straße", "STRASSE",
    "ﬁn", "ŒUVRE", "İstanbul", "ISI", "ıı", "ΑΣ", "ΑΣΑ", "ΣΊΣΥΦΟΣ", "ǅ", "ß", "ẞ", "e\u{301}te\u{301}", "ｆｕｌｌ", "𝔘𝔫𝔦", "𠮷野家", "😀",
    "a😀b", "👨‍👩‍👧", "🇫🇷", "한국어", "日本語", "中文", "العربية", "עברית", "ไทย", "हिन्दी", "Ѣ", "Ⅷ", "ª", "ºC", "x²", "µm", "ﷺ",
];

/// Sizes around which implementations change behaviour.
pub const EDGES: &[usize] = &[
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 48, 50, 63, 64, 65, 80, 99, 100, 101, 127, 128,
    129, 150, 199, 200, 201, 250, 254, 255, 256, 257, 300,
];
pub const BIG_EDGES: &[usize] =
    &[400, 499, 500, 501, 511, 512, 513, 600, 700, 800, 999, 1000, 1001, 1023, 1024, 1025, 1200, 1500, 2000];

/// Numbers from the edges and from the sources (see dict.rs), not above `max`.
pub fn size(max: usize) -> S<usize> {
    let edges: Vec<usize> = EDGES.iter().chain(BIG_EDGES).copied().filter(|n| *n <= max).collect();
    let fresh: Vec<usize> = dict()
        .fresh_ints
        .iter()
        .flat_map(|n| [n.saturating_sub(1), *n, n + 1, n + 2])
        .filter(|n| *n >= 1 && *n <= max as u64)
        .map(|n| n as usize)
        .collect();
    let top = max.min(40).max(1);
    let u = prop_oneof![3 => 1..=top, 3 => select(edges)];
    if fresh.is_empty() {
        u.boxed()
    } else {
        prop_oneof![1 => u, 1 => select(fresh)].boxed()
    }
}

/// A fresh literal of the sources, when there is one.
fn fresh() -> Option<S<String>> {
    if dict().fresh.is_empty() {
        None
    } else {
        Some(select(dict().fresh.as_slice()).boxed())
    }
}

pub fn any_literal() -> S<String> {
    select(dict().all.as_slice()).boxed()
}

fn cased(w: String, how: u8) -> String {
    match how {
        0 => w.to_uppercase(),
        1 => {
            let mut c = w.chars();
            c.next().map_or(String::new(), |f| f.to_uppercase().collect::<String>() + c.as_str())
        }
        2 => w.to_lowercase(),
        _ => w.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_uppercase().next().unwrap() } else { c }).collect(),
    }
}

pub fn letters(code: &str, max: usize) -> S<String> {
    vec(select(alphabet(code)), 1..=max).prop_map(|v| v.into_iter().collect()).boxed()
}

/// English words built so that the stemmer's rules fire.
pub fn english() -> S<String> {
    let suf = select(porter::suffixes());
    let stem = prop_oneof![
        2 => vec(select("abcdefghijklmnopqrstuvwxyzaeiouy".chars().collect::<Vec<_>>()), 0..7).prop_map(|v| v.into_iter().collect::<String>()),
        2 => vec(prop_oneof![select(vec!["b", "t", "l", "s", "st", "ch", "r", "v", "w", "x", "y", "z", "n", "qu"]), select(vec!["a", "e", "i", "o", "u", "y"])], 0..6).prop_map(|v| v.concat()),
        2 => select(corpus("en")).prop_map(|s| s.to_lowercase()),
        1 => select("üßéаñ😀".chars().collect::<Vec<_>>()).prop_map(String::from),
    ];
    let suffixes = vec(suf, 0..4);
    prop_oneof![
        6 => (stem.clone(), suffixes.clone()).prop_map(|(s, x)| s + &x.concat()),
        1 => (stem, suffixes, select(vec!["'s", "s'", ".", "ü", "1", "_"])).prop_map(|(s, x, e)| s + &x.concat() + e),
    ]
    .boxed()
}

pub fn any_text(max: usize) -> S<String> {
    let ch = prop_oneof![
        4 => any::<char>(),
        3 => proptest::char::range(' ', '~'),
        2 => proptest::char::range('\u{a0}', '\u{24f}'),
        1 => proptest::char::range('\u{370}', '\u{6ff}'),
        1 => proptest::char::range('\u{1e00}', '\u{206f}'),
        1 => proptest::char::range('\u{3000}', '\u{30ff}'),
        1 => proptest::char::range('\u{4e00}', '\u{9fff}'),
        1 => proptest::char::range('\u{ac00}', '\u{d7a3}'),
        1 => proptest::char::range('\0', '\u{1f}'),
    ];
    vec(ch, 0..=max).prop_map(|v| v.into_iter().collect()).boxed()
}

/// One word (it can hold separators of its own now and then).
pub fn word(code: &str) -> S<String> {
    let base = base_word(code);
    let p = select(PUNCT);
    let mut v: Vec<(u32, S<String>)> = vec![
        (14, base.clone()),
        (3, (vec(p.clone(), 0..3), base.clone(), vec(p.clone(), 0..3)).prop_map(|(a, w, b)| a.concat() + &w + &b.concat()).boxed()),
        (1, (base.clone(), p.clone(), base.clone()).prop_map(|(a, p, b)| a + p + &b).boxed()),
        (2, (base.clone(), 0u8..4).prop_map(|(w, h)| cased(w, h)).boxed()),
        (1, vec(p, 1..4).prop_map(|v| v.concat()).boxed()),
    ];
    if let Some(f) = fresh() {
        let lower = f.prop_map(|s| if s.len() % 2 == 0 { s } else { s.to_lowercase() });
        v.push((3, lower.clone().boxed()));
        v.push((1, (base.clone(), lower.clone()).prop_map(|(a, b)| a + &b).boxed()));
        v.push((1, (lower.clone(), base.clone()).prop_map(|(a, b)| a + &b).boxed()));
        v.push((1, (base.clone(), lower, base).prop_map(|(a, f, b)| a + &f + &b).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}

fn base_word(code: &str) -> S<String> {
    let cw = corpus(code);
    let mut v: Vec<(u32, S<String>)> = vec![
        (8, select(cw).prop_map(String::from).boxed()),
        (4, letters(code, 12)),
        (1, letters(code, 2)),
        (2, select(SPECIAL).prop_map(String::from).boxed()),
        (1, any_text(6).prop_filter("empty", |s| !s.is_empty()).boxed()),
        (1, select(WORDS).prop_flat_map(|(c, _)| select(corpus(c))).prop_map(String::from).boxed()),
        (1, "[0-9]{1,6}".boxed()),
        (1, any_literal()),
        (1, select(cw).prop_flat_map(|w| {
            let c: Vec<char> = w.chars().collect();
            (Just(c.clone()), 1..=c.len())
        }).prop_map(|(c, n)| c[..n].iter().collect()).boxed()),
    ];
    let st: Vec<&'static str> = stops(code).iter().copied().filter(|s| !s.is_empty()).collect();
    if !st.is_empty() {
        v.push((4, select(st).prop_map(String::from).boxed()));
    }
    if code == "en" {
        v.push((5, english()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}

/// A word of an exact length in characters.
pub fn long_word(code: &str, max: usize) -> S<String> {
    (size(max), vec(select(alphabet(code)), 1..6), any::<bool>())
        .prop_map(|(n, a, tail)| {
            let mut s: String = a.iter().cycle().take(n).collect();
            if tail {
                s.pop();
                s.push('z');
            }
            s
        })
        .boxed()
}

pub const SEPS: &[&str] = &[
    " ", " ", " ", " ", " ", "\n", "\t", "-", "  ", ", ", ". ", "\r\n", " - ", "--", "\u{a0}", "\u{3000}", "\u{2028}", "\u{2003}",
    "\u{85}", "\u{b}", "\u{c}", "\u{1680}", "\u{202f}", "\u{205f}", "\u{2029}", "/", "\u{200b}", "\u{2010}", "\u{2011}", "\u{2013}", "。", "、",
];

fn sep(code: &str) -> S<&'static str> {
    if code == "zh" || code == "ja" {
        prop_oneof![3 => Just(""), 1 => select(SEPS)].boxed()
    } else {
        select(SEPS).boxed()
    }
}

/// Text of up to `max` words, some of them repeated.
pub fn text(code: &str, max: usize) -> S<String> {
    let rep = prop_oneof![30 => Just(1usize), 3 => 2..6usize, 1 => size(12)];
    let piece = (word(code), sep(code), rep);
    let body = vec(piece, 0..=max).prop_map(|v| {
        let mut s = String::new();
        for (w, sep, n) in v {
            for _ in 0..n {
                s.push_str(&w);
                s.push_str(if sep.is_empty() && n > 1 { " " } else { sep });
            }
        }
        s
    });
    prop_oneof![
        20 => body,
        1 => any_text(40),
        1 => Just(String::new()),
        1 => select(vec![" ", "-", " - ", "\n\n", "...", "\u{feff}"]).prop_map(String::from),
    ]
    .boxed()
}

const REFS: &[&str] = &[
    "1", "2", "3", "10", "11", "01", "a", "A", "doc_a", "doc_b", "docs", "df", "tf", "root", "", " ", "a b", "http://example.com/x?y=1#z",
    "日本", "ß", "ss", "é", "e\u{301}", "a\"b", "\\", "a\\\"", "length", "__proto__", "constructor", "\0", "\n", "\u{2028}", "😀", "-1", "1.0", "null", "id", "title",
    "/posts/one/", "/posts/one", "index.html#section",
];

pub fn doc_ref() -> S<String> {
    let mut v: Vec<(u32, S<String>)> = vec![
        (8, select(REFS).prop_map(String::from).boxed()),
        (3, "[a-z0-9/_.#-]{1,12}".boxed()),
        (2, (1..2000u32).prop_map(|n| n.to_string()).boxed()),
        (1, any_text(8)),
        (1, size(300).prop_map(|n| "k".repeat(n)).boxed()),
        (1, select(SPECIAL).prop_map(String::from).boxed()),
    ];
    if let Some(f) = fresh() {
        v.push((3, f.clone()));
        v.push((1, (f.clone(), "[a-z0-9]{0,3}").prop_map(|(a, b)| a + &b).boxed()));
        v.push((1, ("[a-z0-9]{0,3}", f).prop_map(|(a, b)| a + &b).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}

const FIELDS: &[&str] = &[
    "title", "body", "id", "summary", "tags", "docs", "df", "tf", "root", "index", "fields", "length", "save", "docInfo", "ref", "", " ", "a b", "Title", "TITLE",
    "日本語", "é", "\"q\"", "\\", "__proto__", "constructor", "a.b", "a\nb", "0", "1", "\0", "😀", "breadcrumbs",
];

pub fn field() -> S<String> {
    let mut v: Vec<(u32, S<String>)> = vec![
        (10, select(FIELDS).prop_map(String::from).boxed()),
        (3, "[a-z]{1,8}".boxed()),
        (1, any_text(6)),
        (1, size(120).prop_map(|n| "f".repeat(n)).boxed()),
    ];
    if let Some(f) = fresh() {
        v.push((3, f));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}

/// A string that code handling names could mix up with `s`: other case, other ends, another
/// normal form, cut, doubled.
pub fn relate(s: &str, kind: u8) -> String {
    let cut = |n: usize| s.chars().take(s.chars().count().saturating_sub(n)).collect::<String>();
    let ends = ["_", " ", "\0", "/", ".", "-", "0", "'", "\u{feff}", "\u{301}", "\n", "#", ":", "s", "a", "@"];
    match kind % 54 {
        k @ 0..=15 => format!("{s}{}", ends[k as usize]),
        k @ 16..=31 => format!("{}{s}", ends[k as usize - 16]),
        32 | 33 => s.to_uppercase(),
        34 | 35 => s.to_lowercase(),
        36 => s.trim().to_string(),
        37 | 38 => cut(1),
        39 => s.chars().skip(1).collect(),
        40 => s.chars().rev().collect(),
        41 => s.repeat(2),
        42 => s.replace(['_', ' ', '-', '/'], ""),
        43 => s.replace([' ', '-', '/'], "_"),
        44 => s.chars().map(|c| if c.is_ascii_alphabetic() { ((c as u8) ^ 0x20) as char } else { c }).collect(),
        45 => s.replace('é', "e\u{301}").replace('ß', "ss"),
        46 => s.chars().filter(|c| c.is_alphanumeric()).collect(),
        47 => cut(s.chars().count() / 2),
        k => collide(s, k, s.len() as u16 / 2),
    }
}

/// Another string that a short description (a hash, the length and the ends, the characters
/// without their order, low bits) may not tell from `s`.
pub fn collide(s: &str, kind: u8, at: u16) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = c.len();
    if n < 2 {
        return format!("{s}{s}");
    }
    let (i, j) = (at as usize % (n - 1), at as usize / 7 % n);
    // characters are moved by so much, where that makes characters
    let mut shift = |moves: &[(usize, i32)]| {
        let new: Option<Vec<char>> = moves.iter().map(|(k, d)| char::from_u32((c[*k] as i32 + d) as u32).filter(|c| !c.is_control())).collect();
        for (v, (k, _)) in new.into_iter().flatten().zip(moves) {
            c[*k] = v;
        }
    };
    let polynomial = |base: i32| match at / 64 % 3 {
        0 => [(i, 1), (i + 1, -base)],
        1 => [(i, -1), (i + 1, base)],
        _ => [(i, 2), (i + 1, -2 * base)],
    };
    match kind % 16 {
        0 => c.swap(i, i + 1),
        1 => c.swap(i, j),
        2 => shift(&[(i, 1), (i + 1, -1)]),
        3 | 4 | 5 => shift(&polynomial(31)),
        6 => shift(&polynomial(33)),
        7 => shift(&polynomial(37)),
        8 => shift(&[(i, 256)]),
        9 => shift(&[(i, 65_536)]),
        10 => shift(&[(i, 128)]),
        11 => c[i] = if c[i] == 'k' { 'm' } else { 'k' },
        12 => c[n / 2..].iter_mut().for_each(|x| *x = if *x == 'x' { 'b' } else { 'x' }),
        13 => c[..n / 2].iter_mut().for_each(|x| *x = if *x == 'x' { 'b' } else { 'x' }),
        14 => c.insert(i, c[i]),
        _ => c.reverse(),
    }
    c.into_iter().collect()
}

/// A text that differs little from another: in capitals, an end, one character, the order of its
/// words, or not at all.
pub fn variant(t: &str, how: u8) -> String {
    match how {
        0 => t.to_string(),
        1 => t.to_uppercase(),
        2 => t.to_lowercase(),
        3 => {
            let mut c: Vec<char> = t.chars().collect();
            match c.last_mut() {
                Some(x) if *x == 'x' => *x = 'y',
                Some(x) => *x = 'x',
                None => {}
            }
            c.into_iter().collect()
        }
        4 => {
            let mut w: Vec<&str> = t.split(' ').collect();
            w.reverse();
            w.join(" ")
        }
        5 => format!("{t} "),
        6 => t.chars().skip(1).collect(),
        _ => String::new(),
    }
}

/// Some of the names become relatives of one before them.
pub fn relatives(v: S<Vec<String>>) -> S<Vec<String>> {
    (v, vec((0u8..12, any::<u8>()), 8))
        .prop_map(|(mut v, r)| {
            for i in 1..v.len() {
                let (how, kind) = r[(i - 1) % r.len()];
                if how < 3 {
                    v[i] = relate(&v[i - 1 - how as usize % i], kind);
                }
            }
            v
        })
        .boxed()
}

/// Distinct values, in order of first appearance; equal ones get a suffix.
pub fn distinct(v: Vec<String>) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for mut s in v {
        while out.contains(&s) {
            s.push('\'');
        }
        out.push(s);
    }
    out
}

pub fn fields(max: usize) -> S<Vec<String>> {
    prop_oneof![
        12 => relatives(vec(field(), 1..=max).boxed()),
        1 => size(40).prop_flat_map(|n| vec(field(), n)),
    ]
    .prop_map(distinct)
    .boxed()
}
