//! Properties of text processing: C09–C17, C25.

use super::Prop;
use crate::ensure;
use crate::engine::*;
use crate::gen::*;
use crate::gen_index::{fn_spec, lang_text, tok_spec};
use crate::oracle::lang::*;
use crate::oracle::model::Export;
use crate::oracle::porter;
use crate::sut::*;
use elasticlunr::lang::common::{RegexTrimmer, RustStemmer, StopWordFilter};
use elasticlunr::pipeline::{FnWrapper, PipelineFn};
use elasticlunr::{Index, IndexBuilder, Language, Pipeline};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C09", sections: c09, assumptions: &["the oracle is elasticlunr.js's stemmer transcribed as regular expressions; it agreed with the JavaScript original under node on 575000 words (refs/crosscheck_porter.sh)"] },
        Prop { id: "C10", sections: c10, assumptions: &["script membership is taken from the regex crate's Unicode tables, one character at a time"] },
        Prop { id: "C11", sections: c11, assumptions: &["the stop lists are data of the harness (harness/data/stop)"] },
        Prop { id: "C12", sections: c12, assumptions: &["rust-stemmers is trusted as the Snowball implementation"] },
        Prop { id: "C13", sections: c13, assumptions: &["js/lunr.ar.js in the repository is the specification"] },
        Prop { id: "C14", sections: c14, assumptions: &["jieba-rs and lindera with IPADIC are trusted as the segmenters"] },
        Prop { id: "C15", sections: c15, assumptions: &["str::to_lowercase of the standard library"] },
        Prop { id: "C16", sections: c16, assumptions: &["cases run on 512 MB stacks: the depth of very long words is the known finding long-word-stack", "debug assertions and overflow checks are on in the crate under test"] },
        Prop { id: "C17", sections: c17, assumptions: &[] },
        Prop { id: "C25", sections: c25, assumptions: &[] },
    ]
}

thread_local! {
    static PIPES: RefCell<HashMap<String, Rc<Pipeline>>> = RefCell::default();
}

/// The crate's pipeline of a language (one per thread).
fn pipe(code: &str) -> Rc<Pipeline> {
    PIPES.with(|m| m.borrow_mut().entry(code.to_string()).or_insert_with(|| Rc::new(shared(code).make_pipeline())).clone())
}

/// The stage of a language's pipeline with a given part.  The order and the names of the
/// stages are exported and read by elasticlunr.js, so they are part of the behaviour.
fn stage(code: &str, st: Stage) -> Result<(Rc<Pipeline>, usize), String> {
    let want = reference(code).stages();
    let p = pipe(code);
    let got: Vec<String> = p.queue.iter().map(|f| f.name()).collect();
    let names: Vec<String> = want.iter().map(|x| x.1.clone()).collect();
    ensure!(got == names, "{code}: pipeline {got:?}, expected {names:?}");
    let i = want.iter().position(|x| x.0 == st).expect("a stage the language has");
    Ok((p, i))
}

fn apply(code: &str, st: Stage, token: &str) -> Result<Option<String>, String> {
    let (p, i) = stage(code, st)?;
    Ok(p.queue[i].filter(token.to_string()))
}

fn snowball_codes() -> Vec<&'static str> {
    CODES.iter().copied().filter(|c| !["en", "ar", "zh", "ja", "ko"].contains(c)).collect()
}

fn terms_of(code: &str, text: &str) -> Result<Vec<String>, String> {
    let mut i = Index::with_language(builtin(code), ["body"]);
    i.add_doc("d", [text]);
    Ok(Export::read(&i.to_json())?.terms["body"].keys().cloned().collect())
}

fn sorted_set(v: Vec<String>) -> Vec<String> {
    v.into_iter().filter(|s| !s.is_empty()).collect::<std::collections::BTreeSet<_>>().into_iter().collect()
}

// ---------------------------------------------------------------- C09

/// The stemmer's domain is what elasticlunr.js gives it: lowercase words.
fn stem_check(w: &str, o: &mut Obs) -> Verdict {
    let w = &*w.to_ascii_lowercase();
    let want = porter::stem(w);
    o.nontrivial(want != w);
    let got = apply("en", Stage::Stem, w)?;
    ensure!(got.as_deref() == Some(want.as_str()), "{w:?} is stemmed to {got:?}, by elasticlunr.js to {want:?}");
    Ok(())
}

fn block_check(b: &Block, o: &mut Obs) -> Verdict {
    for w in b.words() {
        stem_check(&w, o).map_err(|e| format!("{e} (word {w:?})"))?;
    }
    Ok(())
}

/// All words `head` + every string of `tail` letters + `end`.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Block {
    head: String,
    letters: String,
    tail: usize,
    end: String,
}

impl Block {
    fn words(&self) -> Vec<String> {
        let a: Vec<char> = self.letters.chars().collect();
        let mut v = vec![self.head.clone()];
        for _ in 0..self.tail {
            v = v.iter().flat_map(|s| a.iter().map(move |c| format!("{s}{c}"))).collect();
        }
        for w in &mut v {
            w.push_str(&self.end);
        }
        v
    }
}

/// Every length up to 600 (thorough: 2100), and others around powers of two and new literals.
fn lengths(t: Tier) -> Vec<usize> {
    let (all, top) = if t == Tier::Quick { (600, 13) } else { (2100, 15) };
    let mut v: std::collections::BTreeSet<usize> = (1..=all).collect();
    v.extend((9..=top).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]));
    v.extend(crate::dict::dict().fresh_ints.iter().filter(|n| **n < 20_000).flat_map(|n| [*n as usize, *n as usize + 1]));
    v.into_iter().collect()
}

/// A unit so many times over, in a language.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Repeat {
    code: String,
    unit: String,
    n: usize,
}

fn repeats(codes: &[&str], units: impl Fn(&str) -> Vec<String>, sizes: &[usize]) -> Vec<Repeat> {
    let mut v = vec![];
    for n in sizes {
        for c in codes {
            v.extend(units(c).into_iter().map(|unit| Repeat { code: c.to_string(), unit, n: *n }));
        }
    }
    v
}

fn c09() -> Vec<Section> {
    vec![
        enumerated("lengths", "one of seven syllables any number of times up to 600 (thorough: 2100) and around powers of two, and suffixes up to 40 times, each with every suffix behind it; non-trivial: some stem differs",
            |t| {
                let mut v = repeats(&["en"], |_| ["ta", "at", "t", "a", "sty", "ayt", "ébo"].map(String::from).into(), &lengths(t));
                v.extend(repeats(&["en"], |_| porter::suffixes().iter().map(|s| s.to_string()).collect(), &(2..=40).collect::<Vec<_>>()));
                v
            },
            |r: &Repeat, o| {
                let head = r.unit.repeat(r.n);
                // very long words only with some of the suffixes
                for s in porter::suffixes().iter().step_by(if r.n > 2000 { 7 } else { 1 }) {
                    stem_check(&format!("{head}{s}"), o)?;
                }
                Ok(())
            }),
        generated("suffixes", "a word of up to 8 random letters, syllables, a corpus word or a non-ASCII letter, with up to 3 suffixes on which rules fire, and sometimes a tail; non-trivial: the stem differs from the word", 400_000, 6_000_000, english, |w: &String, o| stem_check(w, o)),
        generated("words", "any generated English token: corpus, stop words, other scripts, punctuation, long words, arbitrary Unicode, literals of the sources; non-trivial: as above", 120_000, 2_000_000,
            || prop_oneof![4 => word("en"), 1 => any_text(8), 1 => long_word("en", 600), 1 => (any_text(3), select(porter::suffixes())).prop_map(|(a, b)| a + b),
                           1 => (long_word("en", 120), select(porter::suffixes()), select(porter::suffixes())).prop_map(|(a, b, c)| a + b + c)].boxed(),
            |w: &String, o| stem_check(w, o)),
        enumerated("short-words", "every word of up to 4 letters over a-z, and of 5 to 8 over small alphabets, in blocks; non-trivial: some stem in the block differs",
            |t| {
                let az = "abcdefghijklmnopqrstuvwxyz";
                let mut v = vec![];
                for n in 0..3 {
                    v.push(Block { head: String::new(), letters: az.into(), tail: n, end: String::new() });
                }
                for c in az.chars() {
                    v.push(Block { head: c.into(), letters: az.into(), tail: 2, end: String::new() });
                    for d in az.chars() {
                        v.push(Block { head: format!("{c}{d}"), letters: az.into(), tail: 2, end: String::new() });
                    }
                }
                let small = ["aelst", "eysio", "bnoiz", "yedgn", "allie"];
                for s in small {
                    for c in s.chars() {
                        v.push(Block { head: c.into(), letters: s.into(), tail: 4, end: String::new() });
                        if t == Tier::Thorough {
                            v.push(Block { head: c.into(), letters: s.into(), tail: 6, end: String::new() });
                        }
                    }
                }
                v
            },
            block_check),
        enumerated("suffix-pairs", "every stem of up to 3 letters from a small alphabet with every pair of suffixes, in blocks; non-trivial: as above",
            |t| {
                let s = porter::suffixes();
                let n = if t == Tier::Quick { 3 } else { 5 };
                let mut v = vec![];
                for a in &s {
                    for k in 0..n {
                        v.push(Block { head: String::new(), letters: "taeyb".into(), tail: k, end: a.to_string() });
                    }
                    for b in &s {
                        for k in 0..n {
                            v.push(Block { head: String::new(), letters: "tae".into(), tail: k, end: format!("{a}{b}") });
                        }
                    }
                }
                v
            },
            block_check),
        generated("pipeline", "an English text of up to 12 words through tokenizer and pipeline, and as the terms of an index; non-trivial: two or more terms, one of them stemmed", 12_000, 200_000,
            || lang_text("en", 12),
            |t: &String, o| {
                let want = reference("en").process(t);
                let low = t.to_lowercase();
                o.nontrivial(want.len() >= 2 && want.iter().any(|w| !low.contains(w.as_str())));
                let got = crate_process("en", t);
                ensure!(got == want, "tokens {got:?}, expected {want:?}");
                let (got, want) = (terms_of("en", t)?, sorted_set(want));
                ensure!(got == want, "terms {got:?}, expected {want:?}");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C10

pub fn trimming_codes() -> Vec<&'static str> {
    CODES.iter().copied().filter(|c| *c != "ar").collect()
}

/// The English trimmer hands on an empty word (the stop word filter takes it out).
fn norm(code: &str, x: Option<String>) -> Option<String> {
    if code == "en" {
        x.filter(|s| !s.is_empty())
    } else {
        x
    }
}

fn trim_check(code: &str, token: &str, o: &mut Obs) -> Verdict {
    let want = reference(code).trim(token);
    o.nontrivial(want.as_deref() != Some(token));
    o.label_if(want.is_none(), "nothing remains");
    let raw = apply(code, Stage::Trim, token)?;
    if code != "en" {
        ensure!(raw.as_deref() != Some(""), "{code}: {token:?} is trimmed to an empty token");
    }
    let got = norm(code, raw);
    ensure!(got == want, "{code}: {token:?} is trimmed to {got:?}, expected {want:?}");
    // trimming again changes nothing
    if let Some(g) = got {
        let again = norm(code, apply(code, Stage::Trim, &g)?);
        ensure!(again.as_deref() == Some(g.as_str()), "{code}: trimming {g:?} again gives {again:?}");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CharBlock {
    code: String,
    from: u32,
    n: u32,
}

fn char_blocks(codes: Vec<&'static str>, tier: Tier) -> Vec<CharBlock> {
    let mut v = vec![];
    for c in codes {
        let mut at = 0;
        let ranges: &[(u32, u32)] = match tier {
            // the private planes and most of the unassigned ones are left to the thorough tier
            Tier::Quick => &[(0, 0x3400), (0x4dc0, 0x4e10), (0x9ff0, 0xac10), (0xd700, 0x10000), (0x10000, 0x12000), (0x16f00, 0x17010), (0x1b000, 0x1b300), (0x1d400, 0x20010), (0x2a6d0, 0x2a710), (0x2f800, 0x2fa20), (0x31340, 0x31360)],
            Tier::Thorough => &[(0, 0x110000)],
        };
        for (a, b) in ranges {
            at = at.max(*a);
            while at < *b {
                v.push(CharBlock { code: c.into(), from: at, n: 512.min(b - at) });
                at += 512.min(b - at);
            }
        }
    }
    v
}

pub fn letter_of(code: &str) -> char {
    match code {
        "ru" => 'ж',
        "ko" => '국',
        "zh" => '中',
        "ja" => '語',
        _ => 'k',
    }
}

fn c10() -> Vec<Section> {
    vec![
        generated("tokens", "a language and a token: a word with punctuation, digits or other scripts around and inside it, or arbitrary text; non-trivial: trimming changes it", 160_000, 3_000_000,
            || (select(trimming_codes()), select(trimming_codes())).prop_flat_map(|(c, other)| {
                let p = vec(prop_oneof![2 => select(PUNCT).prop_map(String::from), 1 => word(other)], 0..4).prop_map(|v| v.concat());
                let t = prop_oneof![4 => (p.clone(), word(c), p).prop_map(|(a, w, b)| a + &w + &b), 1 => any_text(8), 1 => (select(PUNCT), size(400), word(c)).prop_map(|(p, n, w)| p.repeat(n) + &w + &p.repeat(n))];
                (Just(c.to_string()), t)
            }).boxed(),
            |(c, t): &(String, String), o| trim_check(c, t, o)),
        enumerated("every-character", "every assigned character (thorough: every code point) in every language: alone, before, after, around and between letters, in blocks of 512; non-trivial: some character of the block is trimmed",
            |t| char_blocks(trimming_codes(), t),
            |b: &CharBlock, o| {
                let k = letter_of(&b.code);
                for u in b.from..b.from + b.n {
                    if let Some(c) = char::from_u32(u) {
                        for t in [format!("{c}"), format!("{c}{k}{c}{c}"), format!("{k}{c}{k}")] {
                            trim_check(&b.code, &t, o).map_err(|e| format!("{e} (U+{u:04X})"))?;
                        }
                    }
                }
                Ok(())
            }),
        enumerated("lengths", "so many characters to trim before, inside, behind or all around a word, and words so long, for every number up to 600 (thorough: 2100) and around powers of two, in every language; non-trivial: something is trimmed",
            |t| repeats(&trimming_codes(), |_| ["-", "\u{2019}\u{1f600}"].map(String::from).into(), &lengths(t)),
            |r: &Repeat, o| {
                let k = letter_of(&r.code);
                let (p, w) = (r.unit.repeat(r.n), k.to_string().repeat(r.n));
                for t in [format!("{p}{k}"), format!("{k}{p}"), format!("{k}{p}{k}"), format!("{p}{w}{p}"), format!("-{w}-"), format!("{k}-{w}"), p.clone(), format!("{p}{k}-{k}{p}")] {
                    trim_check(&r.code, &t, o)?;
                }
                Ok(())
            }),
        generated("in-an-index", "a language and a text of up to 10 words with punctuation; the terms of an index hold what the reference leaves; non-trivial: some word is trimmed", 6000, 80_000,
            || select(trimming_codes()).prop_flat_map(|c| (Just(c.to_string()), lang_text(c, 10))).boxed(),
            |(c, t): &(String, String), o| {
                let r = reference(c);
                o.nontrivial(r.tokenize(t).iter().any(|w| r.trim(w).map_or(false, |x| x != *w)));
                let want = sorted_set(r.process(t));
                let got = terms_of(c, t)?;
                ensure!(got == want, "{c}: terms {got:?}, expected {want:?}");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C11

pub fn stop_codes() -> Vec<&'static str> {
    CODES.iter().copied().filter(|c| !stops(c).is_empty()).collect()
}

fn stop_check(code: &str, token: &str, o: &mut Obs) -> Verdict {
    let r = reference(code);
    let want = r.is_stop(token);
    o.nontrivial(want);
    let got = apply(code, Stage::Stop, token)?;
    match (&got, want) {
        (None, true) => Ok(()),
        (Some(s), false) if s == token => Ok(()),
        (Some(_), true) => Err(format!("{code}: the stop word {token:?} passes the filter")),
        (None, false) => Err(format!("{code}: {token:?} is not a stop word, but is filtered out")),
        (Some(s), false) => Err(format!("{code}: the stop word filter turns {token:?} into {s:?}")),
    }
}

fn c11() -> Vec<Section> {
    vec![
        enumerated("lists", "every stop word of every language, and the same word upper-cased, title-cased, doubled, cut by a letter at either end, and with a letter added; non-trivial: the token is on the list",
            |_| stop_codes().iter().flat_map(|c| {
                let extra = letter_of(c);
                stops(c).iter().flat_map(move |w| {
                    let w = w.to_string();
                    let cs: Vec<char> = w.chars().collect();
                    let mut v = vec![w.clone(), w.to_uppercase(), w.repeat(2), format!("{w}{extra}"), format!("{extra}{w}"), format!(" {w}"), format!("{w} ")];
                    if cs.len() > 1 {
                        v.push(cs[1..].iter().collect());
                        v.push(cs[..cs.len() - 1].iter().collect());
                        v.push(cs[0].to_uppercase().chain(cs[1..].iter().copied()).collect());
                    }
                    v.into_iter().map(move |t| (c.to_string(), t))
                }).collect::<Vec<_>>()
            }).collect(),
            |(c, t): &(String, String), o| stop_check(c, t, o)),
        generated("tokens", "a language and any token, stop words of this and other languages among them; non-trivial: on the list", 200_000, 4_000_000,
            || select(stop_codes()).prop_flat_map(|c| (Just(c.to_string()), prop_oneof![3 => word(c), 1 => letters(c, 3), 1 => any_text(3)])).boxed(),
            |(c, t): &(String, String), o| stop_check(c, t, o)),
        enumerated("in-an-index", "every stop word of every language in a one-word text, in any case and between punctuation: the index holds a term exactly when the reference does; non-trivial: it holds none",
            |_| stop_codes().iter().flat_map(|c| stops(c).iter().filter(|w| !w.is_empty()).flat_map(|w| {
                let mut v = vec![(c.to_string(), w.to_string()), (c.to_string(), w.to_uppercase())];
                v.push((c.to_string(), format!("({w}),")));
                v
            })).collect(),
            |(c, t): &(String, String), o| {
                let want = sorted_set(reference(c).process(t));
                o.nontrivial(want.is_empty());
                let got = crate_process(c, t);
                ensure!(sorted_set(got.clone()) == want, "{c}: {t:?} yields {got:?}, expected {want:?}");
                let mut i = Index::with_language(builtin(c), ["body"]);
                i.add_doc("1", [t]);
                let e = Export::read(&i.to_json())?;
                let terms: Vec<String> = e.terms["body"].keys().cloned().collect();
                ensure!(terms == want, "{c}: text {t:?} indexes {terms:?}, expected {want:?}");
                Ok(())
            }),
        generated("texts", "a text of up to 15 words, half of them stop words; non-trivial: one word is dropped and one is kept", 16_000, 250_000,
            || select(stop_codes()).prop_flat_map(|c| {
                let st: Vec<String> = stops(c).iter().filter(|w| !w.is_empty()).map(|w| w.to_string()).collect();
                (Just(c.to_string()), vec(prop_oneof![select(st), word(c)], 0..15).prop_map(|v| v.join(" ")))
            }).boxed(),
            |(c, t): &(String, String), o| {
                let r = reference(c);
                let want = r.process(t);
                o.nontrivial(!want.is_empty() && want.len() < r.tokenize(t).len());
                let got = crate_process(c, t);
                ensure!(got == want, "{c}: tokens {got:?}, expected {want:?}");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C12

pub fn c12_codes() -> Vec<&'static str> {
    let mut v = snowball_codes();
    v.push("ko");
    v
}

fn algo(code: &str) -> Option<rust_stemmers::Algorithm> {
    use rust_stemmers::Algorithm::*;
    Some(match code {
        "da" => Danish, "du" => Dutch, "fi" => Finnish, "fr" => French, "de" => German, "hu" => Hungarian, "it" => Italian,
        "no" => Norwegian, "pt" => Portuguese, "ro" => Romanian, "ru" => Russian, "es" => Spanish, "sv" => Swedish, "tr" => Turkish,
        _ => return None,
    })
}

fn c12() -> Vec<Section> {
    vec![
        generated("tokens", "a Snowball language or Korean, and any token, through the stemmer alone and the whole pipeline; non-trivial: stemming changes it", 200_000, 4_000_000,
            || select(c12_codes()).prop_flat_map(|c| (Just(c.to_string()), prop_oneof![5 => word(c), 1 => any_text(6), 1 => long_word(c, 200)])).boxed(),
            |(c, t): &(String, String), o| {
                let r = reference(c);
                let want = r.stem(t);
                o.nontrivial(want.as_deref() != Some(t.as_str()));
                if c != "ko" || !t.is_empty() {
                    let got = apply(c, Stage::Stem, t)?;
                    ensure!(got == want, "{c}: {t:?} is stemmed to {got:?}, expected {want:?}");
                }
                let low = t.to_lowercase();
                let (got, want) = (pipe(c).run(vec![low.clone()]), r.run(&low).into_iter().collect::<Vec<_>>());
                ensure!(got == want, "{c}: the pipeline turns {low:?} into {got:?}, expected {want:?}");
                Ok(())
            }),
        enumerated("corpora", "every word of every language's corpus through every Snowball language and Korean; non-trivial: something remains and differs",
            |_| c12_codes().iter().flat_map(|c| WORDS.iter().map(move |(d, _)| (c.to_string(), d.to_string()))).collect(),
            |(c, d): &(String, String), o| {
                let r = reference(c);
                for w in corpus(d) {
                    let want = r.process(w);
                    o.nontrivial(want.iter().any(|x| x != w));
                    let got = crate_process(c, w);
                    ensure!(got == want, "{c}: {w:?} yields {got:?}, expected {want:?}");
                }
                Ok(())
            }),
        enumerated("lengths", "one to three letters of a language any number of times up to 600 (thorough: 2100) and around powers of two, with words of its corpus behind them; non-trivial: some stem differs",
            |t| repeats(&c12_codes(), |c| { let a = alphabet(c); vec![a[0].to_string(), format!("{}{}", a[a.len() / 2], a[0]), format!("{}{}{}", a[1], a[a.len() / 3], a[a.len() - 1])] }, &lengths(t)),
            |r: &Repeat, o| {
                let l = reference(&r.code);
                let head = r.unit.repeat(r.n);
                let words = corpus(&r.code);
                for i in 0..6 {
                    let w = if i == 0 || words.is_empty() { "" } else { words[(r.n * 31 + i * 977) % words.len()] };
                    let t = head.clone() + &w.to_lowercase();
                    let want = l.stem(&t);
                    o.nontrivial(want.as_deref() != Some(t.as_str()));
                    let got = apply(&r.code, Stage::Stem, &t)?;
                    ensure!(got == want, "{}: {t:?} is stemmed to {got:?}, expected {want:?}", r.code);
                }
                Ok(())
            }),
        generated("texts", "a text of up to 12 words through a fresh instance of the language, as tokens and as the terms of an index; non-trivial: two or more terms", 12_000, 200_000,
            || select(c12_codes()).prop_flat_map(|c| (Just(c.to_string()), lang_text(c, 12))).boxed(),
            |(c, t): &(String, String), o| {
                let want = reference(c).process(t);
                o.nontrivial(want.len() >= 2);
                let l = fresh(c);
                let got = l.make_pipeline().run(l.tokenize(t));
                ensure!(got == want, "{c}: tokens {got:?}, expected {want:?}");
                let (got, want) = (terms_of(c, t)?, sorted_set(want));
                ensure!(got == want, "{c}: terms {got:?}, expected {want:?}");
                Ok(())
            }),
        generated("stemmer", "the public Snowball stage by algorithm on any token; non-trivial: stemming changes it", 100_000, 2_000_000,
            || select(snowball_codes()).prop_flat_map(|c| (Just(c.to_string()), prop_oneof![4 => word(c), 1 => any_text(5)])).boxed(),
            |(c, t): &(String, String), o| {
                thread_local! { static ST: RefCell<HashMap<String, Rc<RustStemmer>>> = RefCell::default(); }
                let s = ST.with(|m| m.borrow_mut().entry(c.clone()).or_insert_with(|| Rc::new(RustStemmer::new(&format!("my-{c}"), algo(c).unwrap()))).clone());
                ensure!(s.name() == format!("my-{c}"), "the stemmer's name is {:?}", s.name());
                let want = reference(c).stem(t);
                o.nontrivial(want.as_deref() != Some(t.as_str()));
                let got = s.filter(t.clone());
                ensure!(got == want, "{c}: {t:?} is stemmed to {got:?}, expected {want:?}");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C13

fn ar_check(t: &str, o: &mut Obs) -> Verdict {
    let want = arabic_full(t);
    o.nontrivial(want != t);
    let got = apply("ar", Stage::Stem, t)?;
    let want_opt = (!want.is_empty()).then(|| want.clone());
    if got == want_opt {
        return Ok(());
    }
    if t.chars().filter(|c| is_alef(*c)).count() >= 2 && got.as_deref() == Some(arabic_first(t).as_str()) {
        o.known("arabic-alef");
        return Ok(());
    }
    Err(format!("{t:?} is normalised to {got:?}, expected {want_opt:?}"))
}

fn c13() -> Vec<Section> {
    let mark = || select("ـًٌٍَُِّْٕٓٔٛ\u{653}\u{65a}\u{65b}\u{64b}".chars().collect::<Vec<_>>());
    let near = || select("\u{63f}\u{641}\u{64a}\u{65c}\u{670}\u{671}\u{672}\u{621}\u{622}\u{623}\u{624}\u{625}\u{626}\u{627}\u{648}\u{649}\u{610}\u{6d6}\u{660}آأإٱىاكتبpx1".chars().collect::<Vec<_>>());
    let tok = move || vec(prop_oneof![3 => mark().prop_map(String::from), 3 => near().prop_map(String::from), 2 => letters("ar", 3)], 0..10).prop_map(|v| v.concat());
    vec![
        generated("tokens", "Arabic letters, alef variants, diacritics, elongation and their neighbours in Unicode; non-trivial: normalising changes the token", 200_000, 3_000_000,
            move || prop_oneof![3 => tok(), 2 => word("ar"), 1 => any_text(5), 1 => (mark(), size(500)).prop_map(|(m, n)| format!("ك{}ت", m.to_string().repeat(n)))].boxed(),
            |t: &String, o| ar_check(t, o)),
        enumerated("every-character", "every code point, between letters and repeated, in blocks of 512; non-trivial: one of the block is removed or replaced",
            |_| char_blocks(vec!["ar"], Tier::Thorough),
            |b: &CharBlock, o| {
                for u in b.from..b.from + b.n {
                    if let Some(c) = char::from_u32(u) {
                        for t in [format!("{c}"), format!("ك{c}ب"), format!("{c}ب{c}")] {
                            ar_check(&t, o).map_err(|e| format!("{e} (U+{u:04X})"))?;
                        }
                    }
                }
                Ok(())
            }),
        generated("texts", "an Arabic text of up to 12 words with at most one alef variant in each, as tokens and as the terms of an index; non-trivial: a word is changed", 12_000, 160_000,
            || lang_text("ar", 12),
            |t: &String, o| {
                let r = reference("ar");
                let want = r.process(t);
                o.nontrivial(want != r.tokenize(t));
                let got = crate_process("ar", t);
                ensure!(got == want, "tokens {got:?}, expected {want:?}");
                let (got, want) = (terms_of("ar", t)?, sorted_set(want));
                ensure!(got == want, "terms {got:?}, expected {want:?}");
                Ok(())
            }),
        enumerated("lengths", "so many marks before, inside and behind letters, and words so long with one mark or alef, for every number up to 600 (thorough: 2100) and around powers of two; non-trivial: normalising changes the token",
            |t| repeats(&["ar"], |_| ["ـ", "\u{64b}", "\u{652}\u{640}", "\u{650}"].map(String::from).into(), &lengths(t)),
            |r: &Repeat, o| {
                let (p, w) = (r.unit.repeat(r.n), "كت".repeat(r.n));
                for t in [format!("{p}ك"), format!("ك{p}"), format!("ك{p}ب"), p.clone(), format!("{w}{}", r.unit), format!("{w}أ{w}"), format!("أ{p}ك"), format!("ك{p}آ"), format!("ك{}", r.unit).repeat(r.n)] {
                    ar_check(&t, o)?;
                }
                Ok(())
            }),
        enumerated("listed", "the inputs of the known finding arabic-alef; non-trivial: all",
            |_| vec!["إلى".to_string(), "أآكل".to_string(), "ٱأ".to_string()],
            |t: &String, o| {
                o.nontrivial(true);
                ar_check(t, o)
            }),
    ]
}

// ---------------------------------------------------------------- C14

const ZH: &[&str] = &[
    "我们中出了一个叛徒", "小明硕士毕业于中国科学院计算所，后在日本京都大学深造。", "南京市长江大桥", "中华人民共和国", "他来到了网易杭研大厦", "我来到北京清华大学。",
    "机器学习(machine learning)是人工智能的一个分支", "的", "了", "2024年5月1日", "Rust语言", "北京大学生前来应聘", "１２３ＡＢＣ",
];
const JA: &[&str] = &[
    "関西国際空港限定トートバッグ", "すもももももももものうち", "東京特許許可局", "私は学生です。", "Rustは安全な言語だ！", "２０２４年５月１日", "ﾊﾝｶｸカナ", "お寿司が食べたい", "𠮷野家で牛丼を食べた",
    "バイト仲間で、ものすごく気の合うメンバーがいた。", "々〆ヶ", "abc123DEF", "スーパーカリフラジリスティックエクスピアリドーシャス", "株式会社日立製作所情報通信事業部",
];

fn cjk(code: &'static str, max: usize) -> S<String> {
    let fixed = if code == "zh" { ZH } else { JA };
    vec(prop_oneof![3 => select(corpus(code)).prop_map(String::from), 2 => letters(code, 8), 2 => select(fixed).prop_map(String::from), 1 => word(code), 1 => select(vec!["，", "。", "、", " ", "\n", "！", "「", "」", "-", "　"]).prop_map(String::from)], 0..max)
        .prop_map(|v| v.concat())
        .boxed()
}

fn cjk_check((c, t): &(String, String), o: &mut Obs) -> Verdict {
    let r = reference(c);
    let want = r.tokenize(t);
    o.nontrivial(want.len() >= 2);
    let got = shared(c).tokenize(t);
    ensure!(got == want, "{c}: {t:?} is segmented as {got:?}, expected {want:?}");
    let want: Vec<String> = want.iter().filter_map(|t| r.run(t)).collect();
    let got = pipe(c).run(got);
    ensure!(got == want, "{c}: {t:?} yields {got:?}, expected {want:?}");
    let (got, want) = (terms_of(c, t)?, sorted_set(want));
    ensure!(got == want, "{c}: {t:?} indexes {got:?}, expected {want:?}");
    Ok(())
}

thread_local! {
    static CONFIGURED: RefCell<HashMap<u8, (Rc<elasticlunr::lang::Japanese>, Rc<lindera::tokenizer::Tokenizer>)>> = RefCell::default();
}

fn configured(mode: u8) -> (Rc<elasticlunr::lang::Japanese>, Rc<lindera::tokenizer::Tokenizer>) {
    use lindera_core::viterbi::{Mode, Penalty};
    CONFIGURED.with(|m| {
        m.borrow_mut().entry(mode).or_insert_with(|| {
            let config = || lindera::tokenizer::TokenizerConfig {
                mode: match mode {
                    0 => Mode::Normal,
                    1 => Mode::Decompose(Default::default()),
                    2 => Mode::Decompose(Penalty { kanji_penalty_length_threshold: 1, kanji_penalty_length_penalty: 9000, other_penalty_length_threshold: 2, other_penalty_length_penalty: 9000 }),
                    _ => Mode::Decompose(Penalty { kanji_penalty_length_threshold: 100, kanji_penalty_length_penalty: 0, other_penalty_length_threshold: 100, other_penalty_length_penalty: 0 }),
                },
                ..Default::default()
            };
            let l = elasticlunr::lang::Japanese::with_config(config());
            let r = lindera::tokenizer::Tokenizer::with_config(config()).expect("lindera");
            (Rc::new(l), Rc::new(r))
        }).clone()
    })
}

fn c14() -> Vec<Section> {
    vec![
        generated("texts", "Chinese or Japanese text of up to 12 pieces: corpus words and clauses, random letters of the script, sentences, Latin, digits, punctuation; through segmentation, pipeline and an index; non-trivial: two or more segments", 16_000, 240_000,
            || prop_oneof![(Just("zh".to_string()), cjk("zh", 12)), (Just("ja".to_string()), cjk("ja", 12))].boxed(), cjk_check),
        generated("foreign", "text of any other language, or arbitrary Unicode; non-trivial: two or more segments", 6000, 100_000,
            || (select(vec!["zh".to_string(), "ja".to_string()]), prop_oneof![2 => code().prop_flat_map(|c| lang_text(&c, 8)), 1 => any_text(30)]).boxed(), cjk_check),
        generated("tokens", "single tokens through each stage of the Chinese and Japanese pipelines; non-trivial: a stage changes or drops it", 60_000, 1_000_000,
            || prop_oneof![(Just("zh".to_string()), word("zh")), (Just("ja".to_string()), word("ja"))].boxed(),
            |(c, t): &(String, String), o| {
                let r = reference(c);
                let want = r.trim(t);
                ensure!(apply(c, Stage::Trim, t)? == want, "{c}: {t:?} is trimmed to {:?}, expected {want:?}", apply(c, Stage::Trim, t)?);
                ensure!(apply(c, Stage::Stem, t)?.as_deref() == Some(t.as_str()), "{c}: the stemmer changes {t:?}");
                let (got, want) = (pipe(c).run(vec![t.clone()]), r.run(t).into_iter().collect::<Vec<_>>());
                o.nontrivial(want.first() != Some(t));
                ensure!(got == want, "{c}: {t:?} becomes {got:?}, expected {want:?}");
                Ok(())
            }),
        generated("with-config", "Japanese text through Japanese::with_config in normal, decomposing and penalised mode against lindera so configured; non-trivial: two or more segments", 4000, 60_000,
            || (0u8..4, prop_oneof![4 => cjk("ja", 8), 1 => any_text(12)]).boxed(),
            |(mode, t): &(u8, String), o| {
                let (l, seg) = configured(*mode);
                let want: Vec<String> = seg.tokenize(t).map_err(|e| format!("lindera: {e}"))?.into_iter()
                    .filter(|t| !["助詞", "助動詞", "記号", "UNK"].contains(&t.detail.first().map_or("", |d| d.as_str())))
                    .map(|t| t.text.to_string()).collect();
                o.nontrivial(want.len() >= 2);
                let got = l.tokenize(t);
                ensure!(got == want, "mode {mode}: {t:?} is segmented as {got:?}, expected {want:?}");
                let r = reference("ja");
                let want: Vec<String> = want.iter().filter_map(|t| r.run(t)).collect();
                let got = l.make_pipeline().run(got);
                ensure!(got == want, "mode {mode}: {t:?} yields {got:?}, expected {want:?}");
                ensure!(l.code() == "ja" && l.name() == "Japanese", "mode {mode}: the language is {} {}", l.code(), l.name());
                Ok(())
            }),
        generated("long", "a long text of up to 8000 characters; non-trivial: 500 or more", 160, 2000,
            || prop_oneof![(Just("zh".to_string()), cjk("zh", 20), size(2000)), (Just("ja".to_string()), cjk("ja", 20), size(2000))].boxed(),
            |(c, t, n): &(String, String, usize), o| {
                let t: String = if t.is_empty() { String::new() } else { t.chars().cycle().take(n * 4).collect() };
                o.nontrivial(*n >= 125);
                let mut sub = Obs::default();
                cjk_check(&(c.clone(), t), &mut sub)
            }),
    ]
}

// ---------------------------------------------------------------- C15

/// Sizes around 2^16, and large numbers that are new in the sources.
fn big_sizes() -> Vec<usize> {
    crate::gen_index::Huge::list(&["any"]).into_iter().map(|h| h.n).collect()
}

fn ws_codes() -> Vec<&'static str> {
    CODES.iter().copied().filter(|c| *c != "zh" && *c != "ja").collect()
}

fn ws_check(code: &str, t: &str, o: &mut Obs) -> Verdict {
    let want = tokenize_whitespace(t);
    o.nontrivial(want.len() >= 2);
    let got = elasticlunr::lang::tokenize_whitespace(t);
    ensure!(got == want, "tokens {got:?}, expected {want:?}");
    let l = shared(code).tokenize(t);
    ensure!(l == want, "{code}: tokens {l:?}, expected {want:?}");
    Ok(())
}

fn c15() -> Vec<Section> {
    let piece = || prop_oneof![3 => select(SEPS).prop_map(String::from), 3 => word("en"), 1 => code().prop_flat_map(|c| word(&c)), 1 => any_text(4),
        1 => select(vec!["-", "--", "\u{2010}", "_", "\u{200b}", "\u{feff}", "\u{180e}", "\u{2060}", "\u{85}", "\u{1c}", "\u{1f}", "\u{ad}", "−", "ー", "\u{a0}"]).prop_map(String::from)];
    vec![
        generated("texts", "up to 20 words, separators and look-alikes of separators joined without more; through the public tokenizer and that of every language using it; non-trivial: two or more tokens", 160_000, 2_500_000,
            move || (select(ws_codes()).prop_map(String::from), vec(piece(), 0..20).prop_map(|v| v.concat())).boxed(),
            |(c, t): &(String, String), o| ws_check(c, t, o)),
        generated("any", "arbitrary Unicode text of up to 60 characters; non-trivial: two or more tokens", 60_000, 1_000_000,
            || (select(ws_codes()).prop_map(String::from), prop_oneof![any_text(60), lang_text("tr", 12), lang_text("de", 12), lang_text("en", 12)]).boxed(),
            |(c, t): &(String, String), o| ws_check(c, t, o)),
        enumerated("every-character", "every code point between letters, doubled and at the ends, in blocks of 512; non-trivial: one of the block separates or changes case",
            |_| char_blocks(vec!["en"], Tier::Thorough),
            |b: &CharBlock, o| {
                for u in b.from..b.from + b.n {
                    if let Some(c) = char::from_u32(u) {
                        for t in [format!("A{c}b"), format!("{c}A{c}{c}b{c}")] {
                            let mut sub = Obs::default();
                            ws_check("en", &t, &mut sub).map_err(|e| format!("{e} (U+{u:04X})"))?;
                            o.nontrivial(sub.nontrivial || c.to_lowercase().ne([c]));
                        }
                    }
                }
                Ok(())
            }),
        generated("long", "up to 4000 words or one of up to 2000 characters, or many separators in a row; non-trivial: 50 or more tokens", 2000, 20_000,
            || (select(ws_codes()).prop_map(String::from), prop_oneof![
                (word("en"), select(SEPS), size(2000)).prop_map(|(w, s, n)| format!("{w}{s}").repeat(n)),
                (word("en"), select(SEPS), size(2000)).prop_map(|(w, s, n)| format!("{w}{}{w}", s.repeat(n))),
                long_word("en", 2000),
            ]).boxed(),
            |(c, t): &(String, String), o| {
                let mut sub = Obs::default();
                let r = ws_check(c, t, &mut sub);
                o.nontrivial(tokenize_whitespace(t).len() >= 50);
                r
            }),
        enumerated("huge", "2^16-1, 2^16, 2^16+1 and 70000 (and large numbers new in the sources) words, separators, characters of a word, of two bytes each; non-trivial: all",
            |_| {
                let codes = ws_codes();
                big_sizes().into_iter().flat_map(|n| ["words", "separators", "letters", "capitals", "mixed"].map(|k| (k.to_string(), n))).enumerate()
                    .map(|(i, (k, n))| (codes[i % codes.len()].to_string(), k, n)).collect()
            },
            |(c, k, n): &(String, String, usize), o| {
                let t = match k.as_str() {
                    "words" => "Ab ".repeat(*n),
                    "separators" => format!("Ab{}cD", "- \u{3000}".repeat(*n)),
                    "letters" => format!("a b{}c d", "x".repeat(*n)),
                    "capitals" => format!("{}-É", "É".repeat(*n)),
                    _ => (0..*n).map(|i| format!("W{i}{}", SEPS[i % SEPS.len()])).collect(),
                };
                o.nontrivial(true);
                ws_check(c, &t, &mut Obs::default()).map_err(|e| e.chars().take(300).collect())
            }),
    ]
}

// ---------------------------------------------------------------- C16

/// Indexes a text every way there is, and reads the result.
fn survive(code: &str, t: &str) -> Verdict {
    let l = shared(code);
    let tokens = l.tokenize(t);
    let p = pipe(code);
    // each stage by itself, whatever came before
    for w in tokens.iter().chain([&t.to_string()]) {
        for f in &p.queue {
            let _ = f.filter(w.clone());
        }
    }
    for w in p.run(tokens) {
        ensure!(!w.is_empty(), "{code}: an empty token comes out of the pipeline");
    }
    let mut i = Index::with_language(builtin(code), ["title", "body"]);
    i.add_doc(t, [t, t]);
    i.add_doc("2", [t]);
    i.add_doc(t, [t]);
    let e = Export::read(&i.to_json())?;
    crate::json::parse(&i.to_json_pretty())?;
    ensure!(e.docs.contains_key(t), "{code}: the document is not in the export");
    Ok(())
}

fn c16() -> Vec<Section> {
    let weird = |c: String| {
        let k = letter_of(&c);
        prop_oneof![
            3 => any_text(40),
            3 => vec(prop_oneof![word(&c), select(SEPS).prop_map(String::from), any_text(3)], 0..10).prop_map(|v| v.concat()),
            2 => lang_text(&c, 12),
            // repeated combining marks, one kind of character, prefixes and suffixes of letters
            1 => (any::<char>(), size(600)).prop_map(|(x, n)| x.to_string().repeat(n)),
            1 => (any::<char>(), 0usize..6).prop_map(move |(x, n)| format!("{}{x}", k.to_string().repeat(n))),
            1 => vec(select("َّ́̈\u{200d}\u{fe0f}ſﬀßİıΣς😀𠮷\u{10ffff}\u{e000}".chars().collect::<Vec<_>>()), 0..12).prop_map(|v| v.into_iter().collect::<String>()),
            1 => (any_text(3), select(porter::suffixes()), any_text(1)).prop_map(|(a, b, c)| a + b + &c),
        ]
    };
    vec![
        generated("texts", "a language and a text: arbitrary Unicode, words and separators of any kind, repeated characters, combining marks, suffixes after non-ASCII letters; every stage alone, the pipeline, an index and its exports; non-trivial: not ASCII", 50_000, 800_000,
            move || light_code().prop_flat_map(move |c| (Just(c.clone()), weird(c))).boxed(),
            |(c, t): &(String, String), o| {
                o.nontrivial(!t.is_ascii());
                survive(c, t)
            }),
        generated("dictionaries", "the same for Chinese and Japanese", 8000, 120_000,
            move || select(vec!["zh".to_string(), "ja".to_string()]).prop_flat_map(move |c| (Just(c.clone()), weird(c))).boxed(),
            |(c, t): &(String, String), o| {
                o.nontrivial(!t.is_ascii());
                survive(c, t)
            }),
        enumerated("every-character", "every code point with every language, alone, before and after a letter, in blocks of 512 (quick: assigned ranges); tokenizer and pipeline; non-trivial: all but ASCII",
            |t| char_blocks(CODES.to_vec(), t),
            |b: &CharBlock, o| {
                let k = letter_of(&b.code);
                o.nontrivial(b.from > 127);
                let (l, p) = (shared(&b.code), pipe(&b.code));
                let mut all = String::new();
                for u in b.from..b.from + b.n {
                    if let Some(c) = char::from_u32(u) {
                        for t in [format!("{c}"), format!("{k}{c}"), format!("{c}{k}{k}{c}ed")] {
                            if b.code == "zh" || b.code == "ja" {
                                all.push_str(&t);
                                all.push(' ');
                                p.run(vec![t]);
                            } else {
                                let r = guarded(|| p.run(l.tokenize(&t))).map_err(|e| format!("{}: {t:?} (U+{u:04X}): {e}", b.code))?;
                                ensure!(r.iter().all(|w| !w.is_empty()), "{}: {t:?} yields an empty token", b.code);
                            }
                        }
                    }
                }
                if !all.is_empty() {
                    p.run(l.tokenize(&all));
                }
                Ok(())
            }),
        generated("stem-words", "words that reach the stemming rules, with non-ASCII letters inside, through the English pipeline; non-trivial: not ASCII", 200_000, 3_000_000,
            || (english(), any_text(2), english()).prop_map(|(a, x, b)| a + &x + &b).boxed(),
            |t: &String, o| {
                o.nontrivial(!t.is_ascii());
                for w in pipe("en").run(shared("en").tokenize(t)) {
                    ensure!(!w.is_empty(), "{t:?} yields an empty token");
                }
                pipe("en").queue[2].filter(t.clone());
                Ok(())
            }),
        generated("large", "long words (up to 2000 characters), long keys and field names, many words; non-trivial: 500 or more characters", 600, 8000,
            || code().prop_flat_map(|c| {
                let w = long_word(&c, 2000);
                (Just(c), prop_oneof![w.clone().boxed(), (w, size(200)).prop_map(|(w, n)| {
                    let w: String = w.chars().take(50).collect();
                    format!("{w} ").repeat(n)
                }).boxed()])
            }).boxed(),
            |(c, t): &(String, String), o| {
                o.nontrivial(t.len() >= 500);
                survive(c, t)?;
                let mut i = IndexBuilder::with_language(builtin(c)).add_field(t).set_ref(t).build();
                i.add_doc(t, [t]);
                Export::read(&i.to_json())?;
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C17

/// A pipeline function with a memory.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Counting {
    /// Appends how many tokens it has got.
    Number,
    /// Drops every n-th.
    DropEvery(u8),
    /// Drops what it has got before.
    Unique,
    /// Gives the token before, and drops the first.
    Delay,
    Plain(FnSpec),
}

#[derive(Default)]
struct Memory {
    n: usize,
    seen: Vec<String>,
}

impl Counting {
    fn step(&self, m: &mut Memory, t: String, plain: impl Fn(&FnSpec, String) -> Option<String>) -> Option<String> {
        m.n += 1;
        let r = match self {
            Counting::Number => Some(format!("{t}{}", m.n)),
            Counting::DropEvery(k) => (m.n % (*k as usize + 1) != 0).then(|| t.clone()),
            Counting::Unique => (!m.seen.contains(&t)).then(|| t.clone()),
            Counting::Delay => m.seen.last().cloned(),
            Counting::Plain(f) => plain(f, t.clone()),
        };
        m.seen.push(t);
        r
    }
}

struct CountingFn(Counting, Option<Box<dyn PipelineFn>>, Rc<RefCell<Memory>>);
impl PipelineFn for CountingFn {
    fn name(&self) -> String {
        "counting".into()
    }
    fn filter(&self, t: String) -> Option<String> {
        self.0.step(&mut self.2.borrow_mut(), t, |_, t| self.1.as_ref().unwrap().filter(t))
    }
}

fn counting() -> S<Counting> {
    prop_oneof![
        2 => Just(Counting::Number),
        2 => (1u8..5).prop_map(Counting::DropEvery),
        1 => Just(Counting::Unique),
        1 => Just(Counting::Delay),
        3 => fn_spec().prop_map(Counting::Plain),
    ]
    .boxed()
}

/// Every function gets exactly the tokens that the ones before it let through, once each and in
/// order, whether the pipeline takes token by token or function by function.
fn c17_counting(fns: &[Counting], runs: &[Vec<String>], o: &mut Obs) -> Verdict {
    let memory: Vec<Rc<RefCell<Memory>>> = fns.iter().map(|_| Default::default()).collect();
    let p = Pipeline {
        queue: fns
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let f = if let Counting::Plain(f) = c { Some(f.sut(i)) } else { None };
                Box::new(CountingFn(c.clone(), f, memory[i].clone())) as Box<dyn PipelineFn>
            })
            .collect(),
    };
    let mut model: Vec<Memory> = fns.iter().map(|_| Memory::default()).collect();
    for toks in runs {
        let mut want = toks.clone();
        for (f, m) in fns.iter().zip(&mut model) {
            want = want.into_iter().filter_map(|t| f.step(m, t, |f, t| f.model(t))).collect();
        }
        let got = p.run(toks.clone());
        o.nontrivial(fns.len() >= 2 && toks.len() >= 2 && &want != toks);
        ensure!(got == want, "the pipeline gives {got:?}, expected {want:?}");
        for (i, (a, b)) in memory.iter().zip(&model).enumerate() {
            ensure!(a.borrow().seen == b.seen, "function {i} got {:?}, expected {:?}", a.borrow().seen, b.seen);
        }
    }
    Ok(())
}

fn c17() -> Vec<Section> {
    let tokens = || vec(prop_oneof![4 => word("en"), 1 => any_text(5), 1 => letters("en", 3)], 0..10);
    vec![
        generated("compose", "a pipeline of 0-5 functions (crate's and the harness's) and up to 10 tokens, empty ones among them; run at once, token by token, split in two and against function-by-function application; non-trivial: two functions, and a token is dropped or changed", 60_000, 900_000,
            move || (vec(fn_spec(), 0..5), tokens(), any::<u8>()).boxed(),
            |(fns, toks, cut): &(Vec<FnSpec>, Vec<String>, u8), o| {
                let build = |fs: &[FnSpec]| Pipeline { queue: fs.iter().enumerate().map(|(i, f)| f.sut(i)).collect() };
                let p = build(fns);
                let want: Vec<String> = toks.iter().filter_map(|t| fns.iter().try_fold(t.clone(), |t, f| f.model(t))).collect();
                o.nontrivial(fns.len() >= 2 && &want != toks);
                let got = p.run(toks.clone());
                ensure!(got == want, "the pipeline gives {got:?}, expected {want:?}");
                let one: Vec<String> = toks.iter().flat_map(|t| p.run(vec![t.clone()])).collect();
                ensure!(one == want, "token by token it gives {one:?}, expected {want:?}");
                let k = *cut as usize % (fns.len() + 1);
                let two = build(&fns[k..]).run(build(&fns[..k]).run(toks.clone()));
                ensure!(two == want, "as two pipelines it gives {two:?}, expected {want:?}");
                let again = p.run(toks.clone());
                ensure!(again == want, "running it again gives {again:?}, expected {want:?}");
                let names = serde_json::to_string(&p).map_err(|e| e.to_string())?;
                let want: Vec<String> = fns.iter().enumerate().map(|(i, f)| f.name(i)).collect();
                ensure!(crate::json::parse(&names)?.strings()? == want, "the pipeline is exported as {names}, expected {want:?}");
                Ok(())
            }),
        generated("counting", "a pipeline of 0-4 functions, some of which remember what they got, run on up to 3 lists of up to 10 tokens; every function must get exactly the tokens the ones before it let through, in order; non-trivial: two functions, two tokens, of which one is dropped or changed", 30_000, 450_000,
            move || (vec(counting(), 0..4), vec(tokens(), 1..4)).boxed(),
            |(fns, runs): &(Vec<Counting>, Vec<Vec<String>>), o| c17_counting(fns, runs, o)),
        generated("functions", "one of a set of plain functions wrapped under a name, and a token; non-trivial: the token is changed or dropped", 20_000, 200_000,
            || (0usize..4, any_text(6), word("en")).boxed(),
            |(k, name, t): &(usize, String, String), o| {
                fn id(t: String) -> Option<String> { Some(t) }
                fn none(_: String) -> Option<String> { None }
                fn twice(t: String) -> Option<String> { Some(t.clone() + &t) }
                fn even(t: String) -> Option<String> { (t.len() % 2 == 0).then_some(t) }
                let f: fn(String) -> Option<String> = [id, none, twice, even][*k];
                let w = FnWrapper(name.clone(), f);
                ensure!(w.name() == *name, "the name is {:?}", w.name());
                let want = f(t.clone());
                o.nontrivial(want.as_ref() != Some(t));
                ensure!(w.filter(t.clone()) == want && w.clone().filter(t.clone()) == want, "the wrapped function gives {:?}, expected {want:?}", w.filter(t.clone()));
                Ok(())
            }),
        generated("stop-filter", "a custom stop list of 0-8 words, or of up to 600, and a token, on the list or near; non-trivial: on the list", 60_000, 900_000,
            || (any_text(4), prop_oneof![6 => vec(word("en"), 0..8), 1 => (letters("en", 3), size(600)).prop_map(|(w, n)| (0..n).map(|i| format!("{w}{i}")).collect())]).prop_flat_map(|(name, list)| {
                let t = if list.is_empty() { word("en") } else { prop_oneof![2 => select(list.clone()), 1 => (select(list.clone()), letters("en", 1)).prop_map(|(a, b)| a + &b), 1 => select(list.clone()).prop_map(|s| s.to_uppercase()), 2 => word("en")].boxed() };
                (Just(name), Just(list), t)
            }).boxed(),
            |(name, list, t): &(String, Vec<String>, String), o| {
                let l: Vec<&str> = list.iter().map(|s| s.as_str()).collect();
                let f = StopWordFilter::new(name, &l);
                ensure!(f.name() == *name, "the name is {:?}, expected {name:?}", f.name());
                let stop = list.contains(t);
                o.nontrivial(stop);
                let want = (!stop).then(|| t.clone());
                ensure!(f.filter(t.clone()) == want, "{t:?} gives {:?} with the list {list:?}", f.filter(t.clone()));
                ensure!(f.clone().filter(t.clone()) == want, "a clone of the filter gives another answer for {t:?}");
                Ok(())
            }),
        generated("trimmer", "a trimmer with a set of 1-8 word characters or a Unicode class, and a token of these and others; non-trivial: trimming changes it", 60_000, 900_000,
            || (any_text(4), prop_oneof![2 => vec(prop_oneof![proptest::char::range('a', 'f'), select("é日я-]^\\[. 0".chars().collect::<Vec<_>>())], 1..8).prop_map(|v| v.into_iter().collect::<String>()), 1 => "[a-z]{1,8}".boxed()]).prop_flat_map(|(name, cls)| {
                let inside: Vec<char> = cls.chars().collect();
                let t = vec(prop_oneof![2 => select(inside), 2 => select("abcdef.,!é日я-]^\\[ 0😀\n".chars().collect::<Vec<_>>()), 1 => any::<char>()], 0..9).prop_map(|v| v.into_iter().collect::<String>());
                (Just(name), Just(cls), t)
            }).boxed(),
            |(name, cls, t): &(String, String, String), o| {
                let f = RegexTrimmer::new(name, &class_text(cls));
                ensure!(f.name() == *name, "the name is {:?}, expected {name:?}", f.name());
                let w = trim(t, &|c| cls.contains(c));
                o.nontrivial(w != t);
                let want = (!w.is_empty()).then(|| w.to_string());
                let got = f.filter(t.clone());
                ensure!(got == want, "{t:?} is trimmed to {got:?} with word characters {cls:?}, expected {want:?}");
                ensure!(f.clone().filter(t.clone()) == want, "a clone of the trimmer gives another answer for {t:?}");
                Ok(())
            }),
        generated("languages", "the pipeline of a built-in language and up to 10 tokens: its stages in turn, token by token, and twice; non-trivial: a token is changed", 40_000, 600_000,
            || code().prop_flat_map(|c| {
                let w = word(&c);
                (Just(c), vec(prop_oneof![8 => w, 1 => any_text(4)], 0..10))
            }).boxed(),
            |(c, toks): &(String, Vec<String>), o| {
                let p = pipe(c);
                let got = p.run(toks.clone());
                o.nontrivial(&got != toks && !got.is_empty());
                let mut want = vec![];
                'next: for t in toks {
                    let mut t = t.clone();
                    for f in &p.queue {
                        match f.filter(t) {
                            Some(x) => t = x,
                            None => continue 'next,
                        }
                    }
                    want.push(t);
                }
                ensure!(got == want, "{c}: {got:?} at once, {want:?} stage by stage");
                let one: Vec<String> = toks.iter().flat_map(|t| p.run(vec![t.clone()])).collect();
                ensure!(one == got, "{c}: {one:?} token by token, {got:?} at once");
                Ok(())
            }),
        enumerated("huge", "2^16-1, 2^16, 2^16+1 and 70000 (and large numbers new in the sources) tokens, entries of a stop list, functions, characters of a token or name; non-trivial: all",
            |_| big_sizes().into_iter().flat_map(|n| ["tokens", "stop-list", "functions", "letters", "name"].map(|k| (k.to_string(), n))).collect(),
            |(k, n): &(String, usize), o| {
                let n = *n;
                o.nontrivial(true);
                fn even(t: String) -> Option<String> { (t.len() % 2 == 0).then_some(t) }
                fn more(t: String) -> Option<String> { Some(t + "x") }
                match k.as_str() {
                    "tokens" => {
                        let p = Pipeline { queue: vec![Box::new(FnWrapper("even".into(), even)), Box::new(FnWrapper("more".into(), more))] };
                        let toks: Vec<String> = (0..n).map(|i| format!("t{i}")).collect();
                        let want: Vec<String> = toks.iter().filter(|t| t.len() % 2 == 0).map(|t| format!("{t}x")).collect();
                        let got = p.run(toks);
                        ensure!(got == want, "{n} tokens yield {}, expected {}, or others", got.len(), want.len());
                    }
                    "functions" => {
                        let p = Pipeline { queue: (0..n).map(|i| Box::new(FnWrapper(format!("f{i}"), more)) as Box<dyn elasticlunr::pipeline::PipelineFn>).collect() };
                        let got = p.run(vec!["a".into(), "bc".into()]);
                        ensure!(got == vec![format!("a{}", "x".repeat(n)), format!("bc{}", "x".repeat(n))], "{n} functions are not all applied, in order");
                        let names = crate::json::parse(&serde_json::to_string(&p).map_err(|e| e.to_string())?)?.strings()?;
                        ensure!(names.iter().enumerate().all(|(i, f)| *f == format!("f{i}")) && names.len() == n, "{n} functions are exported as {} names, or others", names.len());
                    }
                    "stop-list" => {
                        let list: Vec<String> = (0..n).map(|i| format!("w{i}")).collect();
                        let f = StopWordFilter::new("stop", &list.iter().map(|s| s.as_str()).collect::<Vec<_>>());
                        for w in &list {
                            ensure!(f.filter(w.clone()).is_none(), "{w:?} passes a filter whose list of {n} has it");
                        }
                        for w in ["w", "", &format!("w{n}"), "w00"] {
                            ensure!(f.filter(w.to_string()).as_deref() == Some(w), "{w:?} does not pass a filter whose list of {n} does not have it");
                        }
                    }
                    "letters" => {
                        let f = RegexTrimmer::new("trim", "a-z");
                        let (inner, outer) = ("ab-".repeat(n / 3) + "z", ".é".repeat(n));
                        ensure!(f.filter(format!("{outer}{inner}{outer}")).as_deref() == Some(&inner[..]), "a token of {n} characters is not trimmed at its ends");
                        ensure!(f.filter(outer).is_none(), "a token of {n} other characters is not dropped");
                        let l = "x".repeat(n);
                        let f = StopWordFilter::new("stop", &[&l[1..], "y"]);
                        ensure!(f.filter(l.clone()) == Some(l.clone()) && f.filter(l[1..].to_string()).is_none(), "a filter with a word of {} characters", n - 1);
                    }
                    _ => {
                        let name = "n".repeat(n);
                        let p = Pipeline { queue: vec![Box::new(StopWordFilter::new(&name, &["a"])), Box::new(RegexTrimmer::new(&name, "a-z")), Box::new(FnWrapper(name.clone(), more))] };
                        ensure!(p.queue.iter().all(|f| f.name() == name), "a name of {n} characters is not kept");
                        let names = crate::json::parse(&serde_json::to_string(&p).map_err(|e| e.to_string())?)?.strings()?;
                        ensure!(names.len() == 3 && names.iter().all(|f| *f == name), "a name of {n} characters is exported as another");
                    }
                }
                Ok(())
            }),
        generated("toy-languages", "a custom language with its tokenizer and 0-3 pipeline functions, and a text, through an index; non-trivial: two or more terms", 8000, 100_000,
            || (tok_spec(), vec(fn_spec(), 0..3), lang_text("en", 9)).boxed(),
            |(tok, fns, t): &(TokSpec, Vec<FnSpec>, String), o| {
                let l = LangSpec::Custom { name: "Toy".into(), code: "ty".into(), tok: tok.clone(), fns: fns.clone() };
                let want: Vec<String> = l.tokenize(t).iter().filter_map(|w| l.run(w)).collect();
                o.nontrivial(want.len() >= 2);
                let mut i = Index::with_language(l.sut(), ["body"]);
                i.add_doc("1", [t]);
                let e = Export::read(&i.to_json())?;
                let got: Vec<String> = e.terms["body"].keys().cloned().collect();
                let n = e.info["1"]["body"];
                ensure!(n == want.len() as f64, "{n} tokens are counted, expected {}", want.len());
                let want = sorted_set(want);
                ensure!(got == want, "terms {got:?}, expected {want:?}");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Context {
    code: String,
    before: String,
    text: String,
    after: String,
    sep: String,
}

fn c25_check(x: &Context, o: &mut Obs) -> Verdict {
    let l = fresh_unless_heavy(&x.code);
    let p = l.make_pipeline();
    let alone = p.run(l.tokenize(&x.text));
    o.nontrivial(!alone.is_empty() && !x.before.trim().is_empty());
    // after any history, and on a second pipeline and instance
    let b = p.run(l.tokenize(&x.before));
    let a = p.run(l.tokenize(&x.after));
    ensure!(p.run(l.tokenize(&x.text)) == alone, "{}: {:?} is processed differently after other text", x.code, x.text);
    ensure!(l.make_pipeline().run(l.tokenize(&x.text)) == alone, "{}: {:?} is processed differently by a second pipeline", x.code, x.text);
    let m = shared(&x.code);
    ensure!(pipe(&x.code).run(m.tokenize(&x.text)) == alone, "{}: {:?} is processed differently by another instance", x.code, x.text);
    // texts joined by white space
    if x.code != "zh" && x.code != "ja" {
        let joined = p.run(l.tokenize(&format!("{}{}{}{}{}", x.before, x.sep, x.text, x.sep, x.after)));
        let want: Vec<String> = [b, alone, a].concat();
        ensure!(joined == want, "{}: the joined texts yield {joined:?}, the parts {want:?}", x.code);
    }
    Ok(())
}

fn fresh_unless_heavy(code: &str) -> Box<dyn elasticlunr::Language> {
    builtin(code)
}

fn c25() -> Vec<Section> {
    let s = || select(vec![" ", "\n", "-", "\t", "\u{a0}", "\u{3000}", "\r\n", " - "]).prop_map(String::from);
    vec![
        generated("context", "a language, a text, and texts before and after it; alone, after the others, by another pipeline and instance, and joined by white space; non-trivial: the text yields tokens and one comes before", 16_000, 250_000,
            move || code().prop_flat_map(move |c| {
                let t = || prop_oneof![4 => lang_text(&c, 6), 1 => any_text(20)];
                (Just(c.clone()), t(), t(), t(), s())
            }).prop_map(|(code, before, text, after, sep)| Context { code, before, text, after, sep }).boxed(),
            c25_check),
        generated("lookalikes", "words and others that a hash, a length, the ends or the low bits of the characters may not tell from them, processed one after the other and in the other order, each against the reference processing; non-trivial: every case",
            30_000, 400_000,
            || light_code().prop_flat_map(|c| {
                let w = prop_oneof![3 => word(&c), 1 => letters(&c, 9)];
                (Just(c), vec((w, any::<u8>(), any::<u16>()), 1..4))
            }).prop_map(|(c, w)| {
                let mut v: Vec<String> = vec![];
                for (w, kind, at) in w {
                    // the first that differs
                    let other = (0..16u8).map(|k| collide(&w, kind.wrapping_add(k), at)).find(|o| *o != w);
                    v.extend([Some(w), other].into_iter().flatten());
                }
                if c == "ar" {
                    v = v.into_iter().map(crate::gen_index::tame_arabic).collect();
                }
                (c, v)
            }).boxed(),
            |(c, v): &(String, Vec<String>), o| {
                o.nontrivial(v.len() > 1);
                let r = reference(c);
                let want: Vec<Option<String>> = v.iter().map(|t| r.run(t)).collect();
                let run = |back: bool| {
                    let (c, v) = (c.clone(), v.clone());
                    move || {
                        let p = builtin(&c).make_pipeline();
                        let mut got: Vec<Vec<String>> = vec![vec![]; v.len()];
                        for n in 0..v.len() {
                            let k = if back { v.len() - 1 - n } else { n };
                            got[k] = p.run(vec![v[k].clone()]);
                        }
                        got
                    }
                };
                for (got, order) in [(run(false)(), "after those before it"), (run(true)(), "after those behind it")] {
                    for ((t, g), w) in v.iter().zip(&got).zip(&want) {
                        ensure!(g.iter().eq(w.iter()), "{c}: {t:?} of {v:?} yields {g:?} when processed {order}, expected {w:?}");
                    }
                }
                Ok(())
            }),
        generated("long-history", "a token processed after up to 3000 others by the same pipeline; non-trivial: 200 or more", 1200, 16_000,
            || light_code().prop_flat_map(|c| {
                let w = word(&c);
                (Just(c), vec(w.clone(), 1..8), size(2000), vec(w, 1..4))
            }).boxed(),
            |(c, hist, n, toks): &(String, Vec<String>, usize, Vec<String>), o| {
                o.nontrivial(*n >= 200);
                let l = fresh(c);
                let p = l.make_pipeline();
                let alone = p.run(toks.clone());
                let long: Vec<String> = hist.iter().cycle().take(*n).cloned().collect();
                let h1 = p.run(long.clone());
                ensure!(p.run(toks.clone()) == alone, "{c}: {toks:?} is processed differently after {n} tokens");
                let mut both = long;
                both.extend(toks.clone());
                let all = p.run(both);
                ensure!(all[..h1.len()] == h1[..] && all[h1.len()..] == alone[..], "{c}: {toks:?} is processed differently behind {n} tokens");
                let one: Vec<String> = hist.iter().flat_map(|t| p.run(vec![t.clone()])).collect();
                ensure!(h1.iter().eq(one.iter().cycle().take(h1.len())), "{c}: repeated tokens are processed differently as they recur");
                Ok(())
            }),
        alone(generated("long-history-alone", "one token after up to 20000 others that are all words of a corpus, all padded with punctuation, all stop words, or mixed, in one thread; non-trivial: 1000 or more", 250, 4000,
            || (light_code(), 0u8..4).prop_flat_map(|(c, kind)| {
                let base = select(corpus(&c)).prop_map(String::from).boxed();
                let h = match kind {
                    0 => base.clone(),
                    1 => base.clone().prop_map(|w| format!("({w})")).boxed(),
                    2 if !stops(&c).is_empty() => select(stops(&c)).prop_map(String::from).boxed(),
                    _ => word(&c),
                };
                let probe = prop_oneof![1 => word(&c), 1 => base.prop_map(|w| w + ".."), 1 => letters(&c, 8).prop_map(|w| format!("\"{w}"))];
                (Just(c), vec(h, 1..8), size(20_000), vec(probe, 1..4))
            }).boxed(),
            |(c, hist, n, probes): &(String, Vec<String>, usize, Vec<String>), o| {
                o.nontrivial(*n >= 1000);
                let l = builtin(c);
                let p = l.make_pipeline();
                let want: Vec<Vec<String>> = probes.iter().map(|t| p.run(vec![t.clone()])).collect();
                let first = p.run(hist.clone());
                let mut k = 0;
                for (t, want) in probes.iter().zip(&want) {
                    while k < *n {
                        k += hist.len();
                        let again = p.run(hist.clone());
                        ensure!(again == first, "{c}: after {k} tokens {hist:?} yields {again:?}, at first {first:?}");
                    }
                    let got = p.run(vec![t.clone()]);
                    ensure!(&got == want, "{c}: after {k} tokens like {hist:?} the token {t:?} yields {got:?}, at first {want:?}");
                }
                Ok(())
            })),
        enumerated("huge-history", "2^16-1, 2^16, 2^16+1 and 70000 (and large numbers new in the sources) texts or tokens through a language (as many tenths for Chinese and Japanese), then texts that are judged against a new instance; non-trivial: all",
            |_| CODES.iter().flat_map(|c| big_sizes().into_iter().map(move |n| (c.to_string(), n))).collect(),
            |(c, n): &(String, usize), o| {
                o.nontrivial(true);
                let heavy = c == "zh" || c == "ja";
                let (n, toks) = (if heavy { n / 10 } else { *n }, corpus(c).iter().take(40).map(|s| s.to_string()).collect::<Vec<_>>());
                let text = toks.join(" ");
                let a = fresh(c);
                let p = a.make_pipeline();
                let short: Vec<&str> = toks.iter().take(7).map(|s| s.as_str()).collect();
                let first: Vec<Vec<String>> = short.iter().map(|t| p.run(a.tokenize(t))).collect();
                for k in 0..n {
                    let i = k % short.len();
                    let r = p.run(a.tokenize(short[i]));
                    ensure!(r == first[i], "{c}: after {k} others {:?} yields {r:?}, at first {:?}", short[i], first[i]);
                }
                let long = p.run(vec![toks[0].clone(); n]);
                let one = p.run(vec![toks[0].clone()]);
                ensure!(long.len() == n * one.len() && long.iter().all(|t| one.contains(t)), "{c}: {n} times {:?} does not yield {one:?} as often", toks[0]);
                let b = fresh(c);
                ensure!(p.run(a.tokenize(&text)) == b.make_pipeline().run(b.tokenize(&text)), "{c}: after {n} texts {text:?} yields something else than by a new instance");
                Ok(())
            }),
        generated("fresh-instances", "a new instance of a language that has processed up to 40 texts, or a clone of such a one, against another that has not and takes the judged texts in the other order; Chinese and Japanese included; non-trivial: three texts yield tokens", 400, 3000,
            || prop_oneof![1 => Just("zh".to_string()), 1 => Just("ja".to_string()), 4 => code()].prop_flat_map(|c| {
                let t = || prop_oneof![8 => lang_text(&c, 8), 1 => any_text(20), 1 => any_literal()];
                let (b, j) = (vec(t(), 0..40), vec(t(), 1..30));
                (Just(c), b, j, 0u8..4)
            }).boxed(),
            |(c, before, judged, how): &(String, Vec<String>, Vec<String>, u8), o| {
                let mut a = fresh(c);
                let b = if how % 2 == 0 { elasticlunr::lang::from_code(c) } else { elasticlunr::lang::from_name(name_of(c)) }.ok_or_else(|| format!("no language for {c:?}"))?;
                if *how >= 2 {
                    // the clone of one used on everything before
                    if let Some((copy, _)) = by_clone(c, &before.join(" ")) {
                        a = copy;
                    }
                }
                let (pa, pb) = (a.make_pipeline(), b.make_pipeline());
                for t in before {
                    pa.run(a.tokenize(t));
                }
                let x: Vec<_> = judged.iter().map(|t| pa.run(a.tokenize(t))).collect();
                let mut y: Vec<_> = judged.iter().rev().map(|t| pb.run(b.tokenize(t))).collect();
                y.reverse();
                o.nontrivial(x.iter().filter(|t| !t.is_empty()).count() >= 3);
                for ((t, x), y) in judged.iter().zip(x).zip(y) {
                    ensure!(x == y, "{c}: a new instance makes {y:?} of {t:?}, one with other texts behind it {x:?}");
                    let m = crate_process(c, t);
                    ensure!(m == x, "{c}: an older instance makes {m:?} of {t:?}, this one {x:?}");
                }
                Ok(())
            }),
    ]
}
