//! Reference text processing of every built-in language, written from the documentation of
//! elasticlunr.js / lunr-languages and of the crate, without using the crate under test.
//! The Snowball stemmers, jieba and lindera are called directly (they are dependencies, not
//! the code under test).

use super::porter;
use crate::gen::stops;
use regex::Regex;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::OnceLock;

pub const CODES: &[&str] = &[
    "en", "ar", "zh", "da", "du", "fi", "fr", "de", "hu", "it", "ja", "ko", "no", "pt", "ro", "ru", "es", "sv", "tr",
];

pub const NAMES: &[(&str, &str)] = &[
    ("en", "English"), ("ar", "Arabic"), ("zh", "Chinese"), ("da", "Danish"), ("du", "Dutch"), ("fi", "Finnish"),
    ("fr", "French"), ("de", "German"), ("hu", "Hungarian"), ("it", "Italian"), ("ja", "Japanese"), ("ko", "Korean"),
    ("no", "Norwegian"), ("pt", "Portuguese"), ("ro", "Romanian"), ("ru", "Russian"), ("es", "Spanish"),
    ("sv", "Swedish"), ("tr", "Turkish"),
];

pub fn name_of(code: &str) -> &'static str {
    NAMES.iter().find(|x| x.0 == code).unwrap().1
}

/// The scripts whose letters are part of words.
pub fn classes(code: &str) -> &'static [Class] {
    use Class::*;
    match code {
        "ru" => &[Cyrillic],
        "ko" => &[Latin, Hangul],
        "zh" => &[Ideograph, Latin],
        "ja" => &[AsciiAlnum, Hiragana, Katakana, Ideograph],
        "en" => &[AsciiAlnum, Underscore],
        "ar" => &[],
        _ => &[Latin],
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Class {
    AsciiAlnum,
    Underscore,
    Latin,
    Cyrillic,
    Hangul,
    Hiragana,
    Katakana,
    Ideograph,
}

impl Class {
    pub fn has(self, c: char) -> bool {
        static R: OnceLock<Vec<Regex>> = OnceLock::new();
        let r = R.get_or_init(|| {
            ["Latin", "Cyrillic", "Hangul", "Hiragana", "Katakana", "Unified_Ideograph"]
                .iter()
                .map(|n| Regex::new(&format!(r"^\p{{{n}}}$")).unwrap())
                .collect()
        });
        let i = match self {
            Class::AsciiAlnum => return c.is_ascii_alphanumeric(),
            Class::Underscore => return c == '_',
            Class::Latin => 0,
            Class::Cyrillic => 1,
            Class::Hangul => 2,
            Class::Hiragana => 3,
            Class::Katakana => 4,
            Class::Ideograph => 5,
        };
        let mut b = [0; 4];
        r[i].is_match(c.encode_utf8(&mut b))
    }
}

/// Removes characters from both ends up to the first and after the last one in the classes.
pub fn trim<'a>(token: &'a str, is_word: &dyn Fn(char) -> bool) -> &'a str {
    let idx: Vec<(usize, char)> = token.char_indices().filter(|(_, c)| is_word(*c)).collect();
    match (idx.first(), idx.last()) {
        (Some((a, _)), Some((b, c))) => &token[*a..*b + c.len_utf8()],
        _ => "",
    }
}

pub fn in_classes(cl: &[Class], c: char) -> bool {
    cl.iter().any(|k| k.has(c))
}

/// Unicode White_Space, written out.
pub fn is_space(c: char) -> bool {
    matches!(c as u32, 0x9..=0xd | 0x20 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)
}

pub fn tokenize_whitespace(text: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for c in text.chars() {
        if is_space(c) || c == '-' {
            if !cur.is_empty() {
                out.push(cur.to_lowercase());
            }
            cur.clear();
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        out.push(cur.to_lowercase());
    }
    out
}

pub const DIACRITICS: &[(u32, u32)] = &[(0x640, 0x640), (0x64b, 0x65b)];
pub const ALEFS: &[u32] = &[0x622, 0x623, 0x625, 0x671, 0x649];

pub fn is_diacritic(c: char) -> bool {
    DIACRITICS.iter().any(|(a, b)| (*a..=*b).contains(&(c as u32)))
}
pub fn is_alef(c: char) -> bool {
    ALEFS.contains(&(c as u32))
}

/// Every diacritic and elongation removed, every alef variant plain (js/lunr.ar.js).
pub fn arabic_full(t: &str) -> String {
    t.chars().filter(|c| !is_diacritic(*c)).map(|c| if is_alef(c) { '\u{627}' } else { c }).collect()
}

/// As `arabic_full`, but only the first alef variant is made plain: what the known finding
/// `arabic-alef` looks like.
pub fn arabic_first(t: &str) -> String {
    let mut done = false;
    t.chars()
        .filter(|c| !is_diacritic(*c))
        .map(|c| {
            if is_alef(c) && !done {
                done = true;
                '\u{627}'
            } else {
                c
            }
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stage {
    Trim,
    Stop,
    Stem,
}

pub struct RefLang {
    pub code: &'static str,
    stop: HashSet<&'static str>,
    snowball: Option<rust_stemmers::Stemmer>,
    jieba: Option<jieba_rs::Jieba>,
    lindera: Option<lindera::tokenizer::Tokenizer>,
}

fn algorithm(code: &str) -> Option<rust_stemmers::Algorithm> {
    use rust_stemmers::Algorithm::*;
    Some(match code {
        "da" => Danish,
        "du" => Dutch,
        "fi" => Finnish,
        "fr" => French,
        "de" => German,
        "hu" => Hungarian,
        "it" => Italian,
        "no" => Norwegian,
        "pt" => Portuguese,
        "ro" => Romanian,
        "ru" => Russian,
        "es" => Spanish,
        "sv" => Swedish,
        "tr" => Turkish,
        _ => return None,
    })
}

thread_local! {
    static CACHE: RefCell<HashMap<&'static str, Rc<RefLang>>> = RefCell::default();
}

/// The reference for a language (cached per thread).
pub fn reference(code: &str) -> Rc<RefLang> {
    let code = CODES.iter().copied().find(|c| *c == code).expect("a known language");
    CACHE.with(|c| {
        c.borrow_mut()
            .entry(code)
            .or_insert_with(|| {
                Rc::new(RefLang {
                    code,
                    stop: stops(code).iter().copied().collect(),
                    snowball: algorithm(code).map(rust_stemmers::Stemmer::create),
                    jieba: (code == "zh").then(jieba_rs::Jieba::new),
                    lindera: (code == "ja").then(|| {
                        lindera::tokenizer::Tokenizer::with_config(lindera::tokenizer::TokenizerConfig {
                            mode: lindera_core::viterbi::Mode::Decompose(Default::default()),
                            ..Default::default()
                        })
                        .unwrap()
                    }),
                })
            })
            .clone()
    })
}

impl RefLang {
    pub fn stages(&self) -> Vec<(Stage, String)> {
        let c = self.code;
        match c {
            "en" => vec![(Stage::Trim, "trimmer".into()), (Stage::Stop, "stopWordFilter".into()), (Stage::Stem, "stemmer".into())],
            "ar" => vec![(Stage::Stem, "stemmer-ar".into())],
            "ja" => vec![(Stage::Trim, "trimmer-ja".into()), (Stage::Stem, "stemmer-ja".into())],
            _ => vec![
                (Stage::Trim, format!("trimmer-{c}")),
                (Stage::Stop, format!("stopWordFilter-{c}")),
                (Stage::Stem, format!("stemmer-{c}")),
            ],
        }
    }

    pub fn tokenize(&self, text: &str) -> Vec<String> {
        if let Some(j) = &self.jieba {
            j.cut_for_search(text, false).into_iter().map(String::from).collect()
        } else if let Some(l) = &self.lindera {
            l.tokenize(text)
                .expect("lindera")
                .into_iter()
                .filter(|t| {
                    let d: &str = t.detail.first().map_or("", |d| d.as_str());
                    !["助詞", "助動詞", "記号", "UNK"].contains(&d)
                })
                .map(|t| t.text.to_string())
                .collect()
        } else {
            tokenize_whitespace(text)
        }
    }

    /// Trimming; `None` when nothing of the token remains.
    pub fn trim(&self, t: &str) -> Option<String> {
        let r = trim(t, &|c| in_classes(classes(self.code), c));
        (!r.is_empty()).then(|| r.to_string())
    }

    pub fn is_stop(&self, t: &str) -> bool {
        self.stop.contains(t)
    }

    pub fn stem(&self, t: &str) -> Option<String> {
        let s = match self.code {
            // words the stemmer looks at are lowercased first (documented in en.rs); a default
            // tokenizer never gives it any other, a custom one may
            "en" if t.encode_utf16().count() > 2 => porter::stem(&t.to_ascii_lowercase()),
            "en" => t.to_string(),
            "ar" => arabic_full(t),
            "zh" | "ja" | "ko" => t.to_string(),
            _ => self.snowball.as_ref().unwrap().stem(t).into_owned(),
        };
        (!s.is_empty()).then_some(s)
    }

    /// What becomes of one token.
    pub fn run(&self, t: &str) -> Option<String> {
        let mut t = t.to_string();
        for (st, _) in self.stages() {
            t = match st {
                Stage::Trim => self.trim(&t)?,
                Stage::Stop => {
                    if self.is_stop(&t) {
                        return None;
                    }
                    t
                }
                Stage::Stem => self.stem(&t)?,
            };
        }
        Some(t)
    }

    pub fn process(&self, text: &str) -> Vec<String> {
        self.tokenize(text).iter().filter_map(|t| self.run(t)).collect()
    }
}

/// Whether the Arabic known finding can show in this text: a token with two alef variants.
pub fn arabic_affected(text: &str) -> bool {
    tokenize_whitespace(text).iter().any(|t| t.chars().filter(|c| is_alef(*c)).count() >= 2)
}
