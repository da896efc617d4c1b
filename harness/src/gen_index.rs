//! Generators of index cases.

use crate::gen::*;
use crate::oracle::lang::{is_alef, CODES};
use crate::sut::*;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::{select, Index as Pick};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! {
    static TEXTS: RefCell<HashMap<(String, usize), S<String>>> = RefCell::default();
    static REFS: RefCell<Option<S<String>>> = const { RefCell::new(None) };
    static FIELDS: RefCell<Option<S<Vec<String>>>> = const { RefCell::new(None) };
}

/// Leaves at most one alef variant in a word: words with more show the known finding
/// `arabic-alef`, which C13 judges; elsewhere they would only hide other failures.
pub fn tame_arabic(text: String) -> String {
    let mut seen = false;
    text.chars()
        .map(|c| {
            if crate::oracle::lang::is_space(c) || c == '-' {
                seen = false;
                c
            } else if is_alef(c) {
                if seen {
                    '\u{627}'
                } else {
                    seen = true;
                    c
                }
            } else {
                c
            }
        })
        .collect()
}

pub fn lang_text(code: &str, max: usize) -> S<String> {
    TEXTS.with(|t| {
        t.borrow_mut()
            .entry((code.to_string(), max))
            .or_insert_with(|| {
                let s = text(code, max);
                if code == "ar" {
                    s.prop_map(tame_arabic).boxed()
                } else {
                    s
                }
            })
            .clone()
    })
}

pub fn refs() -> S<String> {
    REFS.with(|r| r.borrow_mut().get_or_insert_with(doc_ref).clone())
}

fn field_names() -> S<Vec<String>> {
    FIELDS.with(|r| r.borrow_mut().get_or_insert_with(|| fields(5)).clone())
}

pub fn tok_spec() -> S<TokSpec> {
    prop_oneof![
        3 => select(vec![',', ';', '|', ' ', 'a', 'e', '\n', '/']).prop_map(TokSpec::Split),
        1 => Just(TokSpec::Whole),
        1 => Just(TokSpec::Chars),
        1 => Just(TokSpec::Bigrams),
        1 => vec(word("en").prop_filter("empty", |w| !w.is_empty()), 0..4).prop_map(TokSpec::Fixed),
        1 => Just(TokSpec::Whitespace),
        1 => Just(TokSpec::Nothing),
    ]
    .boxed()
}

pub fn fn_spec() -> S<FnSpec> {
    let wch = || "[a-zéßА-я0-9_]{1,6}";
    prop_oneof![
        1 => Just(FnSpec::Upper),
        2 => select(vec!["s", "ing", "x", "é", "日", "y", "s'"]).prop_map(|s| FnSpec::Append(s.to_string())),
        2 => select("aeist.,".chars().collect::<Vec<_>>()).prop_map(FnSpec::DropIf),
        2 => (1usize..6).prop_map(FnSpec::Truncate),
        2 => (1usize..6).prop_map(FnSpec::MinLen),
        1 => Just(FnSpec::Reverse),
        2 => vec(word("en"), 0..6).prop_map(FnSpec::Stop),
        2 => wch().prop_map(FnSpec::Trim),
        1 => Just(FnSpec::Trim("abcdefghijklmnopqrstuvwxyz".into())),
    ]
    .boxed()
}

pub fn custom_lang() -> S<LangSpec> {
    let name = prop_oneof![
        2 => "[A-Z][a-z]{1,6}".boxed(),
        1 => select(SPECIAL).prop_map(String::from).boxed(),
        1 => Just("English".to_string()).boxed(),
    ];
    (name, prop_oneof![2 => "[a-z]{2}", 1 => Just("en".to_string())], tok_spec(), vec(fn_spec(), 0..4))
        .prop_map(|(name, code, tok, fns)| LangSpec::Custom { name, code, tok, fns })
        .boxed()
}

#[derive(Clone, Copy)]
pub struct Shape {
    /// Out of 100: a custom language.
    pub custom: u32,
    /// Out of 100: custom tokenizers among the fields.
    pub toks: u32,
    /// Documents share keys (a document is indexed again) now and then.
    pub again: bool,
    /// Words per field.
    pub words: usize,
    pub docs: usize,
    /// `Some(code)`: this language only.
    pub only: Option<&'static str>,
    pub save: Option<Option<bool>>,
}

pub const GENERAL: Shape = Shape { custom: 15, toks: 20, again: true, words: 9, docs: 6, only: None, save: None };

fn lang_for(sh: Shape) -> S<LangSpec> {
    if let Some(c) = sh.only {
        return Just(LangSpec::Builtin(c.into())).boxed();
    }
    let b = prop_oneof![2 => Just("en".to_string()), 3 => select(CODES).prop_map(String::from)].prop_map(LangSpec::Builtin);
    if sh.custom == 0 {
        b.boxed()
    } else {
        prop_oneof![100 - sh.custom => b, sh.custom => custom_lang()].boxed()
    }
}

pub fn text_code(l: &LangSpec) -> String {
    match l {
        LangSpec::Builtin(c) => c.clone(),
        LangSpec::Custom { .. } => "en".into(),
    }
}

pub fn index_case(sh: Shape) -> S<IndexCase> {
    lang_for(sh)
        .prop_flat_map(move |lang| {
            let t = lang_text(&text_code(&lang), sh.words);
            let keys = relatives(vec(refs(), 1..=sh.docs).boxed());
            let data = prop_oneof![6 => vec(t.clone(), 1..=5), 1 => vec(t, 0..=5)];
            let docs = vec((any::<Pick>(), data, 0u8..10, 0u8..16, 0usize..6), 0..=sh.docs);
            let toks = vec(prop_oneof![100 - sh.toks => Just(None), sh.toks.max(1) => tok_spec().prop_map(Some)], 5);
            let use_toks = prop_oneof![2 => Just(false), 1 => Just(sh.toks > 0)];
            let save = match sh.save {
                Some(s) => Just(s).boxed(),
                None => prop_oneof![4 => Just(None), 1 => Just(Some(true)), 1 => Just(Some(false))].boxed(),
            };
            let rf = prop_oneof![6 => Just(0u8), 2 => Just(1), 1 => Just(2)];
            (Just(lang), field_names(), use_toks, toks, keys, docs, save, (rf, field(), any::<Pick>()), any::<bool>())
        })
        .prop_map(move |(lang, names, use_toks, toks, keys, docs, save, (rk, rname, rpick), short)| {
            let mut used: Vec<String> = vec![];
            let ref_field = match rk {
                0 => None,
                1 => Some(rname),
                _ => Some(rpick.get(&names).clone()),
            };
            let fields: Vec<FieldSpec> = names
                .into_iter()
                .enumerate()
                .map(|(i, name)| FieldSpec { name, tok: if use_toks { toks.get(i).cloned().flatten() } else { None } })
                .collect();
            let mut before: Vec<Vec<String>> = vec![];
            let docs = docs
                .into_iter()
                .map(|(p, mut data, again, how, one)| {
                    let mut r = p.get(&keys).clone();
                    if !(sh.again && again == 0) {
                        while used.contains(&r) {
                            r.push('+');
                        }
                    }
                    used.push(r.clone());
                    // texts close to the last ones under the key, or else the last ones, now and then
                    let old = if again == 0 { used[..used.len() - 1].iter().rposition(|u| *u == r) } else { None };
                    if let Some(old) = old.map(|i| &before[i]).or(before.last()) {
                        if how < 8 && (again == 0 || how == one as u8) {
                            data = old.iter().enumerate().map(|(i, t)| variant(t, if one < 3 && one != i { 0 } else { how })).collect();
                        }
                    }
                    // more fields than texts: reuse them in turn
                    if !data.is_empty() && data.len() < fields.len() && again != 1 {
                        let base = data.clone();
                        while data.len() < fields.len() {
                            data.push(base[data.len() % base.len()].clone());
                        }
                    }
                    before.push(data.clone());
                    Doc { r, data }
                })
                .collect();
            let mut c = IndexCase { lang, fields, ref_field, save, short, docs };
            c.normalise();
            c
        })
        .boxed()
}

/// A large regular index, described by a few numbers.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scale {
    pub lang: String,
    pub vocab: Vec<String>,
    pub docs: usize,
    pub fields: usize,
    pub tokens: usize,
    pub stride: usize,
    pub numbered: bool,
    pub save: Option<bool>,
    /// What the keys look like.
    #[serde(default)]
    pub keys: u8,
    /// Every word is numbered, so that nearly all are different.
    #[serde(default)]
    pub every: bool,
}

impl Scale {
    fn key(&self, i: usize) -> String {
        match self.keys {
            1 => i.to_string(),
            2 => (i * 7919 % 1_000_003).to_string(),
            3 => format!("{i:05}"),
            4 => format!("/{}/page-{i}.html#x", i % 7),
            // capitals tell them apart
            5 => (0..12).map(|b| if i >> b & 1 == 1 { 'A' } else { 'a' }).collect(),
            6 => format!("{}{}", "k".repeat(i % 150 + 1), "l".repeat(i / 150)),
            7 => format!("é{}\"", char::from_u32(0x4e00 + i as u32).unwrap()),
            8 => format!("{}{}", if i % 2 == 0 { "-" } else { "" }, i as f64 / 2.0),
            _ => format!("doc{i}"),
        }
    }

    pub fn case(&self) -> IndexCase {
        let fields: Vec<FieldSpec> =
            (0..self.fields).map(|i| FieldSpec { name: format!("field{i}"), tok: None }).collect();
        let docs = (0..self.docs)
            .map(|i| Doc {
                r: self.key(i),
                data: (0..self.fields)
                    .map(|j| {
                        let mut s = String::new();
                        for k in 0..self.tokens {
                            let w = &self.vocab[(i * self.stride + k * (j + 1)) % self.vocab.len()];
                            s.push_str(w);
                            if self.every || self.numbered && k % 3 == 1 {
                                s.push_str(&(k + i).to_string());
                                s.push('q');
                            }
                            s.push(' ');
                        }
                        s
                    })
                    .collect(),
            })
            .collect();
        IndexCase { lang: LangSpec::Builtin(self.lang.clone()), fields, ref_field: None, save: self.save, short: true, docs }
    }
}

pub fn scale() -> S<Scale> {
    let budget = 12_000usize;
    let dims = prop_oneof![
        // many documents / many fields / many tokens / very many of one word
        3 => (size(2000), 1..3usize, 1..5usize),
        2 => (1..5usize, size(300), 1..8usize),
        3 => (1..4usize, 1..3usize, size(2000)),
        1 => (Just(1usize), Just(1usize), select(vec![2500usize, 4095, 4096, 4097, 5000, 8192, 10000, 11000])),
        1 => (size(60), size(20), size(60)),
    ];
    let code = prop_oneof![3 => Just("en".to_string()), 2 => light_code()];
    let keys = prop_oneof![3 => Just(0u8), 2 => Just(1), 4 => 2u8..9];
    (code.prop_flat_map(|c| {
        let w = prop_oneof![4 => word(&c).boxed(), 1 => long_word(&c, 300)];
        (Just(c), vec(w, 1..6))
    }), dims, 1..7usize, any::<bool>(), option::weighted(0.3, any::<bool>()), keys, prop::bool::weighted(0.15))
        .prop_map(move |((lang, vocab), (d, f, t), stride, numbered, save, keys, every)| {
            let d = d.min(budget / f.max(1)).max(1);
            let t = t.min(budget / (d * f).max(1)).max(1);
            let vocab = if lang == "ar" { vocab.into_iter().map(tame_arabic).collect() } else { vocab };
            Scale { lang, vocab, docs: d, fields: f, tokens: t, stride, numbered, save, keys, every }
        })
        .boxed()
}

/// An index with one dimension beyond 2^16.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Huge {
    pub kind: String,
    pub n: usize,
}

pub const HUGE: &[&str] = &["documents", "documents-of-one-word", "tokens", "terms", "children", "blanks", "text", "key", "field-name", "again", "fields"];

impl Huge {
    pub fn list(kinds: &[&str]) -> Vec<Huge> {
        let mut sizes = vec![65_535usize, 65_536, 65_537, 70_000];
        sizes.extend(crate::dict::dict().fresh_ints.iter().filter(|n| **n > 2000 && **n < 200_000).take(6).map(|n| *n as usize + 1));
        let mut v = vec![];
        for k in kinds {
            for n in &sizes {
                // a field is compared with every other as it is added
                let n = if *k == "fields" { n / 10 } else { *n };
                v.push(Huge { kind: k.to_string(), n });
            }
        }
        v
    }

    pub fn case(&self) -> IndexCase {
        let n = self.n;
        let words = LangSpec::Custom { name: "Words".into(), code: "wd".into(), tok: TokSpec::Split(' '), fns: vec![] };
        let doc = |r: &str, data: &[&str]| Doc { r: r.into(), data: data.iter().map(|s| s.to_string()).collect() };
        let field = |f: &str| FieldSpec { name: f.into(), tok: None };
        let small = vec![doc("small", &["apple banana", "apple"]), doc("other", &["banana", ""])];
        let numbered = |p: &str| (0..n).map(|i| format!("{p}{i}")).collect::<Vec<_>>().join(" ");
        let (mut lang, mut fields, mut docs) = (LangSpec::Builtin("en".into()), vec![field("body"), field("note")], small);
        match self.kind.as_str() {
            "documents" => docs.extend((0..n).map(|i| doc(&format!("d{i}"), &[&"apple ".repeat(i % 3 + 1), &format!("w{}", i % 7)]))),
            "documents-of-one-word" => {
                lang = words;
                fields.pop();
                docs = (0..n).map(|i| doc(&i.to_string(), &["apple"])).collect();
            }
            "tokens" => docs.push(doc("big", &[&"apple banana cherry ".repeat(n / 3 + 1), "apple"])),
            "terms" => docs.push(doc("big", &[&numbered("t"), "apple"])),
            "children" => {
                lang = words;
                let t: String = (0x100u32..).filter_map(char::from_u32).filter(|c| *c != ' ').take(n).map(|c| format!("x{c} ")).collect();
                docs.push(doc("big", &[&t, "x"]));
            }
            "blanks" => docs.push(doc("big", &[&format!("apple{}banana", " ".repeat(n)), &format!("{}cherry", "-".repeat(n))])),
            "text" => docs.push(doc("big", &[&format!("apple {}", "é\" ".repeat(n / 4 + 1)), &"x".repeat(100)])),
            "key" => docs.push(doc(&"k".repeat(n), &["apple cherry", "x"])),
            "field-name" => fields.push(field(&"f".repeat(n))),
            "again" => docs.extend((0..n).map(|i| doc("again", &["apple", if i % 2 == 0 { "cherry" } else { "banana cherry" }]))),
            "fields" => fields.extend((0..n).map(|i| field(&format!("f{i}")))),
            k => panic!("no such kind: {k}"),
        }
        if self.kind == "fields" {
            docs.push(Doc { r: "big".into(), data: (0..n + 2).map(|i| if i % 1000 == 0 || i + 1 == n { "apple banana" } else { "" }.into()).collect() });
        }
        let mut c = IndexCase { lang, fields, ref_field: None, save: None, short: true, docs };
        c.normalise();
        c
    }
}
