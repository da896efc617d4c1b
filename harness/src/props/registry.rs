//! C20 (language lookup) and C24 (language features on their own).

use super::Prop;
use crate::ensure;
use crate::engine::*;
use crate::gen::*;
use crate::gen_index::lang_text;
use crate::oracle::lang::*;
use crate::oracle::model::Export;
use crate::sut::*;
use elasticlunr::lang::{from_code, from_name, languages};
use elasticlunr::{Index, Language};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::{Mutex, OnceLock};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C20", sections: c20, assumptions: &["whether from_name accepts other capitalisations beyond the first letter is not judged"] },
        Prop { id: "C24", sections: c24, assumptions: &["cargo builds one probe per feature set from /repo's working tree"] },
    ]
}

// ---------------------------------------------------------------- C20

fn is(l: &dyn Language, code: &str, text: &str, how: &str) -> Verdict {
    ensure!(l.name() == name_of(code), "{how} gives a language named {:?}, expected {:?}", l.name(), name_of(code));
    ensure!(l.code() == code, "{how} gives a language with code {:?}, expected {code:?}", l.code());
    let r = reference(code);
    let want = r.process(text);
    let got = l.make_pipeline().run(l.tokenize(text));
    ensure!(got == want, "{how} gives a language that turns {text:?} into {got:?}, expected {want:?} ({code})");
    let names: Vec<String> = l.make_pipeline().queue.iter().map(|f| f.name()).collect();
    let want: Vec<String> = r.stages().into_iter().map(|x| x.1).collect();
    ensure!(names == want, "{how} gives a language with the pipeline {names:?}, expected {want:?}");
    Ok(())
}

fn flip(s: &str, bits: u32) -> String {
    s.chars().enumerate().map(|(i, c)| if bits >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect()
}

fn c20() -> Vec<Section> {
    vec![
        enumerated("all", "every language by every route and capitalisation of its code, on its corpus; non-trivial: all",
            |_| CODES.iter().map(|c| c.to_string()).collect::<Vec<String>>(),
            |c: &String, o| {
                o.nontrivial(true);
                let text = corpus(c).iter().take(60).map(|w| w.to_string()).collect::<Vec<_>>().join(" ");
                let text = if c == "ar" { crate::gen_index::tame_arabic(text) } else { text };
                for b in 0..4 {
                    let code = flip(c, b);
                    let l = from_code(&code).ok_or_else(|| format!("from_code({code:?}) knows no language"))?;
                    is(l.as_ref(), c, &text, &format!("from_code({code:?})"))?;
                }
                let l = from_name(name_of(c)).ok_or_else(|| format!("from_name({:?}) knows no language", name_of(c)))?;
                is(l.as_ref(), c, &text, &format!("from_name({:?})", name_of(c)))?;
                let low = name_of(c).to_lowercase();
                ensure!(from_name(&low).is_none(), "from_name({low:?}) is accepted without a capital");
                is(fresh(c).as_ref(), c, &text, "the constructor")?;
                is(by_default(c).as_ref(), c, &text, "Default")?;
                if let Some((copy, old)) = by_clone(c, &text) {
                    is(copy.as_ref(), c, &text, "a clone")?;
                    is(old.as_ref(), c, &text, "an instance that was cloned")?;
                }
                let all: Vec<Box<dyn Language>> = languages();
                let mine: Vec<&Box<dyn Language>> = all.iter().filter(|l| l.code() == *c).collect();
                ensure!(mine.len() == 1, "languages() has {} languages with code {c:?}", mine.len());
                is(mine[0].as_ref(), c, &text, "languages()")?;
                ensure!(all.len() == CODES.len(), "languages() has {} languages, expected {}", all.len(), CODES.len());
                let mut i = Index::with_language(from_code(c).unwrap(), ["body"]);
                i.add_doc("1", [&text]);
                let e = Export::read(&i.to_json())?;
                ensure!(e.lang == name_of(c), "an index names its language {:?}, expected {:?}", e.lang, name_of(c));
                let want: BTreeSet<String> = reference(c).process(&text).into_iter().collect();
                ensure!(e.terms["body"].keys().cloned().collect::<BTreeSet<_>>() == want, "{c}: an index by from_code holds other terms than the language has");
                Ok(())
            }),
        enumerated("two-and-three-letters", "every string of up to 3 ASCII letters as a code; non-trivial: it is one",
            |_| {
                let az: Vec<char> = ('a'..='z').collect();
                let mut v = vec![String::new()];
                for a in &az {
                    v.push(a.to_string());
                    for b in &az {
                        v.push(format!("{a}{b}"));
                        for c in &az {
                            v.push(format!("{a}{b}{c}"));
                        }
                    }
                }
                v
            },
            |c: &String, o| {
                if CODES.contains(&c.as_str()) {
                    o.nontrivial(true);
                    return if ["zh", "ja"].contains(&c.as_str()) || from_code(c).map(|l| l.code()).as_ref() == Some(c) { Ok(()) } else { Err(format!("from_code({c:?}) is not that language")) };
                }
                for t in [c.clone(), c.to_uppercase(), flip(c, 1)] {
                    if let Some(l) = from_code(&t) {
                        return Err(format!("from_code({t:?}) is {}", l.name()));
                    }
                }
                Ok(())
            }),
        generated("strings", "strings near codes and names, and arbitrary ones; non-trivial: within two characters of one", 30_000, 400_000,
            || prop_oneof![
                2 => any_text(4), 1 => any_text(12), 1 => any_literal(),
                4 => (select(NAMES), 0u8..7, any::<char>(), any::<bool>()).prop_map(|((c, n), k, x, name)| {
                    let s = if name { n.to_string() } else { c.to_string() };
                    match k {
                        0 => format!("{s}{x}"), 1 => format!("{x}{s}"), 2 => format!("{s} "), 3 => format!(" {s}"), 4 => s[1..].to_string(), 5 => s[..s.len() - 1].to_string(), _ => format!("{s}-{s}"),
                    }
                }),
                1 => select(vec!["nl", "nb", "nn", "jp", "cn", "kr", "dk", "se", "ger", "eng", "en-US", "en_US", "pt-BR", "zh-CN", "Kо", "\u{212a}o", "e\u{ff4e}", "ſv", "FİNNISH", "ﬁ", "ĳ", "ＥＮ", "English ", "Mandarin", "Farsi", "Greek", "languages", "none"]).prop_map(String::from),
            ].boxed(),
            |s: &String, o| {
                o.nontrivial(s.chars().count() <= 4 || NAMES.iter().any(|(_, n)| s.contains(n)));
                if !CODES.iter().any(|c| c.eq_ignore_ascii_case(s)) {
                    if let Some(l) = from_code(s) {
                        return Err(format!("from_code({s:?}) is {}", l.name()));
                    }
                }
                if !NAMES.iter().any(|(_, n)| n.eq_ignore_ascii_case(s)) {
                    if let Some(l) = from_name(s) {
                        return Err(format!("from_name({s:?}) is {}", l.name()));
                    }
                }
                Ok(())
            }),
        generated("texts", "a language by a route and a text of up to 8 words; non-trivial: two or more terms", 4000, 40_000,
            || light_code().prop_flat_map(|c| { let t = lang_text(&c, 8); (Just(c), 0u8..6, t) }).boxed(),
            |(c, k, t): &(String, u8, String), o| {
                o.nontrivial(reference(c).process(t).len() >= 2);
                let (l, how) = match k {
                    0 => (from_code(c), "from_code"),
                    1 => (from_code(&c.to_uppercase()), "from_code in capitals"),
                    2 => (from_name(name_of(c)), "from_name"),
                    3 => (Some(fresh(c)), "the constructor"),
                    4 => (Some(by_default(c)), "Default"),
                    _ => (Some(by_clone(c, t).map_or_else(|| fresh(c), |x| x.0)), "a clone"),
                };
                is(l.ok_or_else(|| format!("{how}: no language {c}"))?.as_ref(), c, t, how)
            }),
    ]
}

// ---------------------------------------------------------------- C24

const FEATPROBE: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/../featprobe");

/// Feature sets: none, every language alone, some pairs, all, sets that cover every way three
/// languages can be on and off together, and ones that meet conditions in the sources.
fn feature_sets() -> &'static Vec<String> {
    static V: OnceLock<Vec<String>> = OnceLock::new();
    V.get_or_init(|| {
        let langs: Vec<&str> = CODES.iter().filter(|c| **c != "en").copied().collect();
        let mut v = vec![String::new()];
        v.extend(langs.iter().map(|c| c.to_string()));
        v.extend(["ar,ko", "de,zh", "fi,ja", "ru,sv", "da,du,no", "languages"].map(String::from));
        v.extend(covering(langs.len()).into_iter().map(|m| langs.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect::<Vec<_>>().join(",")));
        let mut extra = vec![];
        for (on, off) in crate::dict::conditions() {
            let known = |l: &str| langs.contains(&l);
            let least: Vec<&str> = langs.iter().filter(|l| on.iter().any(|x| x == *l)).copied().collect();
            let most: Vec<&str> = langs.iter().filter(|l| !off.iter().any(|x| x == *l)).copied().collect();
            if on.iter().chain(&off).any(|x| known(x)) {
                extra.push(least.join(","));
                extra.push(most.join(","));
            }
        }
        extra.truncate(16);
        v.extend(extra);
        let mut seen = BTreeSet::new();
        v.retain(|s| seen.insert(s.clone()));
        v
    })
}

/// Subsets of `n` things such that for any three of them every combination of in and out occurs
/// (greedily chosen among pseudo-random ones, always the same).
fn covering(n: usize) -> Vec<u32> {
    let mut open: BTreeSet<(usize, usize, usize, u32)> = BTreeSet::new();
    for a in 0..n {
        for b in a + 1..n {
            for c in b + 1..n {
                open.extend((0..8).map(|k| (a, b, c, k)));
            }
        }
    }
    let mut out = vec![];
    let mut h = 7u64;
    while !open.is_empty() {
        let gain = |m: u32, open: &BTreeSet<(usize, usize, usize, u32)>| open.iter().filter(|(a, b, c, k)| (m >> a & 1) | (m >> b & 1) << 1 | (m >> c & 1) << 2 == *k).count();
        let best = (0..200).map(|_| { h = hash_of(&h); h as u32 & ((1 << n) - 1) }).max_by_key(|m| gain(*m, &open)).unwrap();
        open.retain(|(a, b, c, k)| (best >> a & 1) | (best >> b & 1) << 1 | (best >> c & 1) << 2 != *k);
        out.push(best);
    }
    out
}

fn enabled(set: &str) -> BTreeSet<String> {
    let mut s: BTreeSet<String> = ["en".to_string()].into_iter().collect();
    for f in set.split(',').filter(|f| !f.is_empty()) {
        if f == "languages" {
            s.extend(CODES.iter().map(|c| c.to_string()));
        } else {
            s.insert(f.into());
        }
    }
    s
}

fn die(why: String) -> ! {
    eprintln!("HARNESS-ERROR: {why}");
    std::process::exit(3)
}

/// Builds go on in four directories at a time: two for sets with Japanese (its dictionary takes a
/// gigabyte to build with), two for the others.
fn builders(set: &str) -> std::ops::Range<usize> {
    if enabled(set).contains("ja") { 0..2 } else { 2..4 }
}

/// The probe with these features, built when it is first asked for.
fn probe(set: &str) -> &'static Result<PathBuf, String> {
    type Cell = &'static OnceLock<Result<PathBuf, String>>;
    static P: Mutex<BTreeMap<String, Cell>> = Mutex::new(BTreeMap::new());
    static BUSY: [Mutex<()>; 4] = [const { Mutex::new(()) }; 4];
    let cell = *P.lock().unwrap().entry(set.to_string()).or_insert_with(|| Box::leak(Box::default()));
    cell.get_or_init(|| loop {
        for k in builders(set) {
            if let Ok(_busy) = BUSY[k].try_lock() {
                return build(set, k);
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    })
}

fn build(set: &str, k: usize) -> Result<PathBuf, String> {
    let dir = PathBuf::from(FEATPROBE);
    let out = dir.join("target/probes");
    std::fs::create_dir_all(&out).unwrap_or_else(|e| die(format!("{}: {e}", out.display())));
    let target = dir.join(format!("target/{k}"));
    let r = Command::new("cargo")
        .args(["build", "--offline", "--locked", "--quiet", "--manifest-path"])
        .arg(dir.join("Cargo.toml"))
        .args(["--features", set])
        .env("CARGO_TARGET_DIR", &target)
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| die(format!("cargo: {e}")));
    if r.status.success() {
        let to = out.join(format!("probe-{}", if set.is_empty() { "none".into() } else { set.replace(',', "-") }));
        // not a copy: a program this process has open for writing cannot be run
        let _ = std::fs::remove_file(&to);
        std::fs::hard_link(target.join("debug/featprobe"), &to).unwrap_or_else(|e| die(format!("keeping the probe: {e}")));
        return Ok(to);
    }
    let err = String::from_utf8_lossy(&r.stderr).to_string();
    // the same sources compile with every feature (that is how this program came to be), so the
    // compiler refusing them here is about the features
    if err.contains("elasticlunr") && err.contains("error") && err.contains("could not compile") {
        Err(format!("does not compile: {}", err.lines().filter(|l| l.starts_with("error")).take(3).collect::<Vec<_>>().join("; ")))
    } else {
        die(format!("building the probe with features {set:?}: {err}"))
    }
}

/// Builds what the check needs besides the crate itself (`elv probes`), so that it finds it.
pub fn warm() {
    let others = CODES.iter().filter(|c| !["en", "ja"].contains(*c)).copied().collect::<Vec<_>>().join(",");
    let v: Vec<_> = [("languages".to_string(), 0), (others, 2)]
        .into_iter()
        .map(|(set, k)| {
            std::thread::spawn(move || {
                let _ = build(&set, k);
                // what does not depend on the crate is the same in the other directory
                let dir = PathBuf::from(FEATPROBE).join("target");
                if !dir.join((k + 1).to_string()).exists() {
                    let _ = Command::new("cp").arg("-a").arg(dir.join(k.to_string())).arg(dir.join((k + 1).to_string())).status();
                }
            })
        })
        .collect();
    for t in v {
        let _ = t.join();
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Probe {
    features: String,
    texts: Vec<String>,
    names: Vec<String>,
}

fn ask(bin: &PathBuf, q: &Value) -> Result<Value, String> {
    let mut ch = Command::new(bin)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| die(format!("{}: {e}", bin.display())));
    let mut w = ch.stdin.take().unwrap();
    let text = q.to_string();
    let t = std::thread::spawn(move || {
        let _ = w.write_all(text.as_bytes());
    });
    let out = ch.wait_with_output().unwrap_or_else(|e| die(format!("probe: {e}")));
    t.join().unwrap();
    if !out.status.success() {
        return Err(format!("the probe fails: {}", String::from_utf8_lossy(&out.stderr).lines().next().unwrap_or("")));
    }
    serde_json::from_slice(&out.stdout).map_err(|e| format!("the probe answers {e}"))
}

/// White-space words, the language's tokens, and what its pipeline makes of them.
fn steps(code: &str, t: &str) -> Value {
    let l = builtin(code);
    let v = l.tokenize(t);
    json!([elasticlunr::lang::tokenize_whitespace(t), v, l.make_pipeline().run(v.clone())])
}

fn probe_check(p: &Probe, o: &mut Obs) -> Verdict {
    let bin = match untimed(|| probe(&p.features)) {
        Ok(b) => b,
        Err(e) => return Err(format!("features {:?}: {e}", p.features)),
    };
    let on = enabled(&p.features);
    o.nontrivial(p.texts.iter().any(|t| !t.trim().is_empty()));
    let codes: Vec<String> = CODES.iter().map(|c| c.to_string()).collect();
    let all_names: Vec<String> = NAMES.iter().map(|x| x.1.to_string()).chain(p.names.iter().cloned()).collect();
    let all_codes: Vec<String> = codes.iter().cloned().chain(codes.iter().map(|c| c.to_uppercase())).chain(p.names.iter().cloned()).collect();
    let a = ask(bin, &json!({"texts": p.texts, "bulk": [], "codes": all_codes, "names": all_names}))
        .map_err(|e| format!("features {:?}: {e}", p.features))?;
    let listed: BTreeSet<String> = a["languages"].as_array().unwrap().iter().map(|x| x[1].as_str().unwrap().to_string()).collect();
    ensure!(listed == on && a["languages"].as_array().unwrap().len() == on.len(), "features {:?}: languages() lists {}, expected {on:?}", p.features, a["languages"]);
    for (c, got) in all_codes.iter().zip(a["from_code"].as_array().unwrap()) {
        let want = on.get(&c.to_ascii_lowercase()).map(|c| name_of(c));
        ensure!(got.as_str() == want, "features {:?}: from_code({c:?}) is {got}, expected {want:?}", p.features);
    }
    for (n, got) in all_names.iter().zip(a["from_name"].as_array().unwrap()) {
        let want = NAMES.iter().find(|x| x.1 == n && on.contains(x.0)).map(|x| x.0);
        ensure!(got.as_str() == want, "features {:?}: from_name({n:?}) is {got}, expected {want:?}", p.features);
    }
    for c in &on {
        let names: Vec<String> = builtin(c).make_pipeline().queue.iter().map(|f| f.name()).collect();
        ensure!(a["pipelines"][c] == json!(names), "features {:?}: {c} has the pipeline {}, with all features {names:?}", p.features, a["pipelines"][c]);
        for (i, t) in p.texts.iter().enumerate() {
            let (got, full) = (&a["tokens"][c][i], steps(c, t));
            ensure!(*got == full, "features {:?}: {c} turns {t:?} into {got}, with all features into {full}", p.features);
            let mut ix = Index::with_language(builtin(c), ["body"]);
            ix.add_doc("1", [t]);
            let want = ix.to_json();
            ensure!(a["exports"][c][i].as_str() == Some(&want), "features {:?}: {c} indexes {t:?} as {}, with all features as {want}", p.features, a["exports"][c][i]);
        }
    }
    Ok(())
}

/// As the probe computes it.
fn fnv(tokens: &[String]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for t in tokens {
        for b in t.bytes().chain([0xff]) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    h
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bulk {
    features: String,
    /// Characters from `from` on, or words.
    chars: bool,
    from: usize,
    n: usize,
}

impl Bulk {
    fn texts(&self) -> Vec<String> {
        let to = self.from + self.n;
        if self.chars {
            // the feature's own script around the character, if it has one
            let k = crate::props::language::letter_of(self.features.split(',').next().unwrap());
            (self.from..to).filter_map(|u| char::from_u32(u as u32)).map(|c| format!("{c} {k}{c}{k} {k}{c} kk{c}")).collect()
        } else {
            let all = all_words();
            all[self.from.min(all.len())..to.min(all.len())].to_vec()
        }
    }
}

/// Every word the harness knows: corpora, and the literals of the sources (stop words among them).
fn all_words() -> &'static Vec<String> {
    static W: OnceLock<Vec<String>> = OnceLock::new();
    W.get_or_init(|| {
        let mut v: BTreeSet<String> = BTreeSet::new();
        for c in CODES {
            v.extend(corpus(c).iter().map(|w| w.to_string()));
        }
        v.extend(crate::dict::dict().all.iter().cloned());
        v.into_iter().filter(|w| w.chars().count() < 200).map(crate::gen_index::tame_arabic).collect()
    })
}

fn bulk_check(b: &Bulk, o: &mut Obs) -> Verdict {
    let bin = match untimed(|| probe(&b.features)) {
        Ok(b) => b,
        Err(e) => return Err(format!("features {:?}: {e}", b.features)),
    };
    let texts = b.texts();
    let a = ask(bin, &json!({"texts": [], "names": [], "codes": [], "bulk": texts})).map_err(|e| format!("features {:?}: {e}", b.features))?;
    for c in enabled(&b.features) {
        let l = builtin(&c);
        let p = l.make_pipeline();
        for (i, t) in texts.iter().enumerate() {
            let mut all = l.tokenize(t);
            let full = p.run(all.clone());
            o.nontrivial(!full.is_empty());
            all.extend(full);
            all.extend(elasticlunr::lang::tokenize_whitespace(t));
            if a["hashes"][&c][i].as_u64() != Some(fnv(&all)) {
                let got = ask(bin, &json!({"texts": [t], "names": [], "codes": [], "bulk": []}))?;
                return Err(format!("features {:?}: {c} turns {t:?} into {}, with all features into {}", b.features, got["tokens"][&c][0], steps(&c, t)));
            }
        }
    }
    Ok(())
}

fn bulk_cases(tier: Tier) -> Vec<Bulk> {
    let mut v = vec![];
    for features in feature_sets() {
        let features = features.clone();
        let ranges: &[(usize, usize)] = match tier {
            Tier::Quick => &[(0, 0x2600), (0x3000, 0x3400), (0x4e00, 0x5200), (0xac00, 0xb000), (0xf900, 0x10000), (0x1d400, 0x1d800)],
            Tier::Thorough => &[(0, 0x20000)],
        };
        for (from, to) in ranges {
            v.extend((*from..*to).step_by(1024).map(|at| Bulk { features: features.clone(), chars: true, from: at, n: 1024.min(to - at) }));
        }
        v.extend((0..all_words().len()).step_by(2000).map(|from| Bulk { features: features.clone(), chars: false, from, n: 2000 }));
    }
    v
}

fn c24() -> Vec<Section> {
    vec![
        enumerated("sets", "every feature set (none, each language alone, pairs, all, sets in which any three languages are on and off in every combination) on a fixed batch of texts in every language; non-trivial: all",
            |_| {
                let texts: Vec<String> = WORDS.iter().map(|(c, _)| {
                    let t = corpus(c).iter().take(12).map(|s| s.to_string()).collect::<Vec<_>>().join(" ");
                    crate::gen_index::tame_arabic(t)
                }).collect();
                feature_sets().iter().map(|features| Probe { features: features.clone(), texts: texts.clone(), names: vec!["".into(), "xx".into(), "nl".into(), "english".into()] }).collect()
            },
            probe_check),
        generated("texts", "a feature set, up to 20 texts of its languages and others, and strings near codes and names; non-trivial: a text that is not blank", 160, 3000,
            || {
                let text = code().prop_flat_map(|c| lang_text(&c, 8));
                (select(feature_sets().clone()), vec(text, 1..20), vec(any_text(3), 0..3)).prop_map(|(features, texts, names)| {
                    let names = names.into_iter().filter(|n| !NAMES.iter().any(|x| x.1.eq_ignore_ascii_case(n))).collect();
                    Probe { features, texts, names }
                }).boxed()
            },
            probe_check),
        enumerated("bulk", "every feature set on blocks of characters (alone, inside, and at the end of words; to U+25FF and six other ranges, in the thorough tier to U+1FFFF) and on every word of the corpora and literal of the sources; non-trivial: some yield tokens",
            bulk_cases, bulk_check),
    ]
}
