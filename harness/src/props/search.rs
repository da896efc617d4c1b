//! What a user does with an index in the end: C26 (searching the export as elasticlunr.js does),
//! and C27 (several indexes at once).

use super::Prop;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::gen_index::*;
use crate::json::{parse, J};
use crate::oracle::model::*;
use crate::sut::*;
use elasticlunr::config::{SearchBool, SearchOptions, SearchOptionsField};
use elasticlunr::Index;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::{select, Index as Pick};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C26", sections: c26, assumptions: &["elasticlunr.js 0.9.5's search, transcribed in harness/src/props/search.rs", "lookups walk one character at a time (terms outside the BMP: known finding utf16-lookup of C01)"] },
        Prop { id: "C27", sections: c27, assumptions: &[] },
    ]
}

// ---------------------------------------------------------------- C26

type Scores = BTreeMap<String, f64>;

struct FieldConfig {
    boost: f64,
    and: bool,
    expand: bool,
}

/// elasticlunr.Configuration: what its search makes of a configuration's text.
fn configuration(text: &str, fields: &[String]) -> Result<BTreeMap<String, FieldConfig>, String> {
    let c = parse(text)?;
    let is_and = |j: &J| -> Result<bool, String> {
        match j.str()? {
            "AND" => Ok(true),
            "OR" => Ok(false),
            s => Err(format!("a boolean model {s:?}")),
        }
    };
    let truth = |j: &J| match j {
        J::Bool(b) => Ok(*b),
        o => Err(format!("expand is {}", o.brief())),
    };
    let global_and = c.get("bool").map_or(Ok(false), is_and)?;
    let global_expand = c.get("expand").map_or(Ok(false), truth)?;
    let mut out = BTreeMap::new();
    match c.get("fields") {
        Some(f) => {
            for (k, v) in f.obj()? {
                if fields.contains(k) {
                    out.insert(
                        k.clone(),
                        FieldConfig {
                            boost: v.get("boost").map_or(Ok(1.0), |b| b.num())?,
                            and: v.get("bool").map_or(Ok(global_and), is_and)?,
                            expand: v.get("expand").map_or(Ok(global_expand), truth)?,
                        },
                    );
                }
            }
        }
        None => {
            for k in fields {
                out.insert(k.clone(), FieldConfig { boost: 1.0, and: global_and, expand: global_expand });
            }
        }
    }
    Ok(out)
}

/// elasticlunr.js's Index, over the export.
struct Searcher<'a> {
    root: &'a J,
}

impl<'a> Searcher<'a> {
    fn path(&self, p: &[&str]) -> Option<&'a J> {
        p.iter().try_fold(self.root, |j, k| j.get(k))
    }
    fn node(&self, field: &str, token: &str) -> Option<&'a J> {
        if token.is_empty() {
            return None;
        }
        let root = self.path(&["index", field, "root"])?;
        token.chars().try_fold(root, |n, c| n.get(c.encode_utf8(&mut [0; 4])))
    }
    fn expand(&self, token: &str, node: &'a J, memo: &mut Vec<String>) -> Result<(), String> {
        if node.need("df")?.num()? > 0.0 {
            memo.push(token.to_string());
        }
        for (k, v) in node.obj()? {
            if k != "docs" && k != "df" {
                self.expand(&format!("{token}{k}"), v, memo)?;
            }
        }
        Ok(())
    }
    fn idf(&self, field: &str, token: &str) -> Result<f64, String> {
        let df = self.node(field, token).map_or(Ok(0.0), |n| n.need("df")?.num())?;
        Ok(1.0 + (self.root.need("documentStore")?.need("length")?.num()? / (df + 1.0)).ln())
    }
    fn field_search(&self, tokens: &[String], field: &str, c: &FieldConfig) -> Result<Option<Scores>, String> {
        if c.boost == 0.0 {
            return Ok(None);
        }
        let mut scores: Option<Scores> = None;
        let mut doc_tokens: BTreeMap<String, usize> = BTreeMap::new();
        for token in tokens {
            let mut keys = vec![];
            if c.expand {
                if let Some(n) = self.node(field, token) {
                    self.expand(token, n, &mut keys)?;
                }
            } else {
                keys.push(token.clone());
            }
            let mut token_scores = Scores::new();
            for key in keys {
                let empty = J::Obj(vec![]);
                let docs = self.node(field, &key).map_or(Ok(&empty), |n| n.need("docs"))?;
                let idf = self.idf(field, &key)?;
                let hits: Vec<(&String, f64)> = docs
                    .obj()?
                    .iter()
                    .filter(|(d, _)| !c.and || scores.as_ref().map_or(true, |s| s.contains_key(d)))
                    .map(|(d, t)| Ok((d, t.need("tf")?.num()?)))
                    .collect::<Result<_, String>>()?;
                if key == *token {
                    for (d, _) in &hits {
                        *doc_tokens.entry(d.to_string()).or_default() += 1;
                    }
                }
                for (d, tf) in hits {
                    let len = self.path(&["documentStore", "docInfo", d, field]).map_or(Ok(0.0), |n| n.num())?;
                    let norm = if len != 0.0 { 1.0 / len.sqrt() } else { 1.0 };
                    let (a, b) = (key.encode_utf16().count() as f64, token.encode_utf16().count() as f64);
                    let penalty = if key == *token { 1.0 } else { (1.0 - (a - b) / a) * 0.15 };
                    *token_scores.entry(d.clone()).or_default() += tf * idf * norm * penalty;
                }
            }
            scores = Some(match scores.take() {
                None => token_scores,
                Some(acc) if c.and => token_scores.into_iter().filter_map(|(d, s)| acc.get(&d).map(|a| (d, a + s))).collect(),
                Some(mut acc) => {
                    for (d, s) in token_scores {
                        *acc.entry(d).or_default() += s;
                    }
                    acc
                }
            });
        }
        let mut scores = scores.unwrap_or_default();
        for (d, s) in scores.iter_mut() {
            if let Some(n) = doc_tokens.get(d) {
                *s *= *n as f64 / tokens.len() as f64;
            }
        }
        Ok(Some(scores))
    }
    fn search(&self, tokens: &[String], config: &str) -> Result<Scores, String> {
        let fields = self.root.need("fields")?.strings()?;
        let mut out = Scores::new();
        for (f, c) in configuration(config, &fields)? {
            for (d, s) in self.field_search(tokens, &f, &c)?.unwrap_or_default() {
                *out.entry(d).or_default() += s * c.boost;
            }
        }
        Ok(out)
    }
}

/// The same, document by document from the documents themselves.
fn brute(m: &Model, tokens: &[String], s: &SearchOptions) -> Scores {
    let n = m.docs.len() as f64;
    let mut out = Scores::new();
    for d in m.docs.keys() {
        let mut found = false;
        let mut total = 0.0;
        for (f, o) in &s.fields {
            let Some(p) = m.postings.get(f) else { continue };
            let boost = o.boost.unwrap_or(1) as f64;
            if boost == 0.0 || tokens.is_empty() {
                continue;
            }
            let and = o.bool.unwrap_or(s.bool) == SearchBool::And;
            let expand = o.expand.unwrap_or(s.expand);
            let len = m.info.get(d).and_then(|i| i.get(f)).copied().unwrap_or(0) as f64;
            let (mut matched, mut exact, mut sum) = (0, 0, 0.0);
            for t in tokens {
                let mut hit = false;
                for (term, docs) in p {
                    let usable = !t.is_empty() && (term == t || expand && term.starts_with(t.as_str()));
                    let Some(count) = docs.get(d).filter(|_| usable) else { continue };
                    hit = true;
                    let idf = 1.0 + (n / (docs.len() as f64 + 1.0)).ln();
                    let norm = if len > 0.0 { len.sqrt().recip() } else { 1.0 };
                    let mut w = (*count as f64).sqrt() * idf * norm;
                    if term == t {
                        exact += 1;
                    } else {
                        w *= 0.15 * t.encode_utf16().count() as f64 / term.encode_utf16().count() as f64;
                    }
                    sum += w;
                }
                matched += hit as usize;
            }
            if matched == 0 || and && matched < tokens.len() {
                continue;
            }
            if exact > 0 {
                sum *= exact as f64 / tokens.len() as f64;
            }
            found = true;
            total += sum * boost;
        }
        if found {
            out.insert(d.clone(), total);
        }
    }
    out
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Query {
    case: IndexCase,
    and: bool,
    expand: bool,
    /// for each field in turn: searched, boost, AND, expand
    options: Vec<(bool, Option<u8>, Option<bool>, Option<bool>)>,
    /// words of the query: a term of the index (cut short by so many characters), or another
    words: Vec<(u16, u8, Option<String>)>,
}

impl Query {
    fn options(&self) -> SearchOptions {
        let b = |x| if x { SearchBool::And } else { SearchBool::Or };
        let fields = self.case.fields.iter().zip(self.options.iter().cycle()).filter(|(_, o)| o.0);
        SearchOptions {
            bool: b(self.and),
            expand: self.expand,
            fields: fields.map(|(f, o)| (f.name.clone(), SearchOptionsField { boost: o.1, bool: o.2.map(b), expand: o.3 })).collect(),
        }
    }
    fn tokens(&self, m: &Model) -> Vec<String> {
        let all: Vec<&String> = m.postings.values().flat_map(|p| p.keys()).collect();
        self.words
            .iter()
            .filter_map(|(i, cut, other)| match other {
                Some(w) => self.case.lang.tokenize(w).iter().find_map(|t| self.case.lang.run(t)),
                None if all.is_empty() => None,
                None => {
                    let t = all[*i as usize % all.len()];
                    let n = t.chars().count();
                    Some(t.chars().take(n.saturating_sub(*cut as usize).max(1)).collect())
                }
            })
            .collect()
    }
}

fn same_scores(what: &str, got: &Scores, want: &Scores) -> Verdict {
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()));
    for (d, w) in want {
        match got.get(d) {
            None => return Err(format!("{what}: document {d:?} is not found (expected score {w})")),
            Some(g) if !near(*g, *w) => return Err(format!("{what}: document {d:?} scores {g}, expected {w}")),
            _ => {}
        }
    }
    match got.keys().find(|d| !want.contains_key(*d)) {
        Some(d) => Err(format!("{what}: document {d:?} is found and does not match")),
        None => Ok(()),
    }
}

fn search_check(q: &Query, o: &mut Obs) -> Verdict {
    let m = Model::of(&q.case);
    let tokens = q.tokens(&m);
    let opt = q.options();
    let j = parse(&q.case.sut().to_json())?;
    let config = serde_json::to_string(&opt).map_err(|e| e.to_string())?;
    let s = Searcher { root: &j };
    let got = s.search(&tokens, &config)?;
    let want = brute(&m, &tokens, &opt);
    o.nontrivial(want.len() >= 2);
    o.label_if(want.is_empty(), "nothing found");
    o.label_if(tokens.len() >= 2, "several words");
    o.label_if(opt.fields.values().any(|f| f.expand.unwrap_or(q.expand)), "expanding");
    o.label_if(opt.fields.values().any(|f| f.bool.map_or(q.and, |b| b == SearchBool::And)), "AND");
    same_scores(&format!("searching {tokens:?} by {config}"), &got, &want)?;
    // what a search hands out with each result
    for d in want.keys() {
        let doc = j.need("documentStore")?.need("docs")?.need(d)?.obj()?;
        let got: BTreeMap<String, String> = doc.iter().map(|(k, v)| Ok((k.clone(), v.str()?.to_string()))).collect::<Result<_, String>>()?;
        ensure!(got == m.docs[d], "the result for {d:?} holds {got:?}, expected {:?}", m.docs[d]);
    }
    Ok(())
}

fn query(case: S<IndexCase>) -> S<Query> {
    case.prop_flat_map(|case| {
        let c = text_code(&case.lang);
        let word = (any::<u16>(), prop_oneof![3 => Just(0u8), 2 => 1u8..5], option::weighted(0.15, lang_text(&c, 1)));
        let opt = (prop::bool::weighted(0.8), option::of(prop_oneof![2 => 0u8..4, 1 => any::<u8>()]), option::of(any::<bool>()), option::of(any::<bool>()));
        (Just(case), any::<bool>(), any::<bool>(), vec(opt, 1..6), vec(word, 0..4))
    })
    .prop_map(|(case, and, expand, options, words)| Query { case, and, expand, options, words })
    .boxed()
}

/// Queries of the indexes with one dimension beyond 2^16.
fn huge_search(h: &Huge, o: &mut Obs) -> Verdict {
    let case = h.case();
    o.nontrivial(true);
    let m = Model::of(&case);
    let j = parse(&case.sut().to_json())?;
    let s = Searcher { root: &j };
    let any = |and: bool, boost: u8, expand: bool| {
        let b = if and { SearchBool::And } else { SearchBool::Or };
        let fields = case.fields.iter().enumerate().take(3);
        SearchOptions { bool: b, expand, fields: fields.map(|(i, f)| (f.name.clone(), SearchOptionsField { boost: (i == 0).then_some(boost), bool: None, expand: None })).collect() }
    };
    for (words, opt) in [
        (vec!["appl", "banana"], any(false, 1, false)),
        (vec!["t5", "w3"], any(false, 3, true)),
        (vec!["apple", "banana", "t77"], any(false, 255, false)),
        (vec!["ap", "x"], any(true, 2, true)),
    ] {
        // as the index has them
        let tokens: Vec<String> = words.iter().flat_map(|w| [Some(w.to_string()), case.lang.run(w)]).flatten().collect::<BTreeSet<_>>().into_iter().collect();
        let config = serde_json::to_string(&opt).map_err(|e| e.to_string())?;
        same_scores(&format!("searching {tokens:?} by {config}"), &s.search(&tokens, &config)?, &brute(&m, &tokens, &opt))?;
    }
    Ok(())
}

fn c26() -> Vec<Section> {
    // few different words, so that documents share them
    let dense = || {
        (index_case(Shape { docs: 6, words: 4, ..GENERAL }), vec(any::<u8>(), 40), select(vec![2usize, 4, 8]))
            .prop_map(|(mut c, pick, n)| {
                let words: Vec<String> = c.docs.iter().flat_map(|d| d.data.iter().flat_map(|t| t.split_whitespace().map(String::from))).take(n).collect();
                if !words.is_empty() {
                    let mut at = 0;
                    for d in &mut c.docs {
                        for t in &mut d.data {
                            let k = pick[at % pick.len()] as usize % 7;
                            let v: Vec<&str> = (0..k).map(|i| words[(pick[(at + i + 1) % pick.len()] as usize) % words.len()].as_str()).collect();
                            at += k + 1;
                            *t = v.join(" ");
                        }
                    }
                    c.normalise();
                }
                c
            })
            .boxed()
    };
    vec![
        generated("search", "an index whose documents share words, a configuration (boosts, AND/OR, expansion, per field and global) written by the crate, and a query of up to 3 terms, prefixes of terms and other words; elasticlunr.js's search of the export against scoring each document; non-trivial: two or more documents are found", 16_000, 240_000,
            move || query(dense()), search_check),
        generated("texts", "the same on indexes of unrelated texts; non-trivial: as above", 8000, 100_000,
            || query(index_case(GENERAL)), search_check),
        generated("scale", "the same on large regular indexes; non-trivial: as above", 240, 3000,
            || query(scale().prop_map(|s| s.case()).boxed()), search_check),
        generated("terms", "the same on small indexes with a text of 1000 to 9000 different words among short ones; non-trivial: as above", 60, 900,
            || query((1000usize..9000, index_case(Shape { docs: 4, words: 4, ..GENERAL })).prop_map(|(n, mut c)| {
                if let Some(t) = c.docs.last_mut().and_then(|d| d.data.first_mut()) {
                    for i in 0..n { t.push_str(&format!(" q{i}")) }
                }
                c.normalise();
                c
            }).boxed()), search_check),
        enumerated("huge", "indexes with one dimension beyond 2^16, searched by four queries each; non-trivial: every case",
            |_| Huge::list(&["documents", "tokens", "terms", "children", "again"]), huge_search),
    ]
}

// ---------------------------------------------------------------- C27

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Several {
    cases: Vec<IndexCase>,
    /// which index gets its next document, and whether one is exported or dropped
    steps: Vec<(u8, u8)>,
    threads: bool,
}

/// Words are short here, so threads need not have the stack the cases have.
const THREAD: usize = 48 << 20;

/// The index grown alone, in a thread of its own.
fn alone(c: &IndexCase) -> Result<String, String> {
    let c = c.clone();
    std::thread::Builder::new()
        .stack_size(THREAD)
        .spawn(move || guarded(|| c.sut().to_json()))
        .expect("a thread")
        .join()
        .map_err(|_| "the thread failed".to_string())?
}

fn several_check(s: &Several, o: &mut Obs) -> Verdict {
    let with_docs = s.cases.iter().filter(|c| c.docs.iter().any(|d| d.data.iter().any(|t| !t.trim().is_empty()))).count();
    o.nontrivial(with_docs >= 2);
    o.label_if(s.threads, "in threads");
    // zh and ja dictionaries are loaded once per thread: these stay in this one
    let heavy = |c: &IndexCase| matches!(&c.lang, LangSpec::Builtin(l) if l == "zh" || l == "ja");
    let want: Vec<String> = s.cases.iter().map(|c| if heavy(c) { Ok(c.sut().to_json()) } else { alone(c) }).collect::<Result<_, _>>()?;
    if s.threads && !s.cases.iter().any(heavy) {
        let gate = std::sync::Arc::new(std::sync::Barrier::new(s.cases.len()));
        let ts: Vec<_> = s
            .cases
            .iter()
            .map(|c| {
                let (c, gate) = (c.clone(), gate.clone());
                let run = move || {
                    gate.wait();
                    guarded(|| c.sut().to_json())
                };
                std::thread::Builder::new().stack_size(THREAD).spawn(run).expect("a thread")
            })
            .collect();
        for ((t, w), c) in ts.into_iter().zip(&want).zip(&s.cases) {
            let g = t.join().map_err(|_| "the thread failed".to_string())??;
            ensure!(g == *w, "built while others are built in other threads, the index of {} is another: {}", c.lang.name(), difference(&g, w));
        }
        return Ok(());
    }
    let mut open: Vec<Option<(Index, usize)>> = s.cases.iter().map(|c| Some((c.empty_sut(), 0))).collect();
    let mut steps: Vec<(usize, u8)> = s.steps.iter().map(|(i, k)| (*i as usize % s.cases.len(), *k)).collect();
    // then whatever is left
    steps.extend((0..s.cases.len()).flat_map(|i| std::iter::repeat((i, 9)).take(s.cases[i].docs.len())));
    for (i, k) in steps {
        if let Some((index, next)) = &mut open[i] {
            if let Some(d) = s.cases[i].docs.get(*next) {
                index.add_doc(&d.r, &d.data);
                *next += 1;
            }
            if k == 0 {
                let _ = index.to_json();
            }
            if k == 1 && s.cases.len() > 2 && i == 0 {
                open[i] = None;
            }
        }
    }
    for ((x, w), c) in open.iter().zip(&want).zip(&s.cases) {
        if let Some((index, _)) = x {
            let g = index.to_json();
            ensure!(g == *w, "grown by turns with other indexes, the index of {} is another: {}", c.lang.name(), difference(&g, w));
        }
    }
    Ok(())
}

/// One index among many that exist at once.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    /// the first is watched, the others are what the crowd consists of
    cases: Vec<IndexCase>,
    /// how many other indexes there are
    n: usize,
    /// how many of them are made before the watched one is made, before it gets its documents, and
    /// how many are dropped by then, in percent
    before: u8,
    dropped: u8,
}

fn crowd_check(s: &Crowd, o: &mut Obs) -> Verdict {
    let c = &s.cases[0];
    let others = &s.cases[1..];
    o.nontrivial(s.n > 4 && c.docs.iter().any(|d| d.data.iter().any(|t| !t.trim().is_empty())));
    o.label_if(s.n >= 64, "64 other indexes or more");
    let want: Vec<String> = s.cases.iter().map(alone).collect::<Result<_, _>>()?;
    let made = s.n * s.before as usize / 100;
    let mut crowd: Vec<Option<Index>> = (0..made).map(|k| Some(others[k % others.len()].sut())).collect();
    let mut index = c.empty_sut();
    crowd.extend((made..s.n).map(|k| Some(others[k % others.len()].sut())));
    let half = c.docs.len() / 2;
    for d in &c.docs[..half] {
        index.add_doc(&d.r, &d.data);
    }
    for k in 0..s.n * s.dropped as usize / 100 {
        crowd[k] = None;
    }
    for d in &c.docs[half..] {
        index.add_doc(&d.r, &d.data);
    }
    let g = index.to_json();
    ensure!(g == want[0], "among {} other indexes, the index of {} is another: {}", s.n, c.lang.name(), difference(&g, &want[0]));
    // the first and the last of those left, and one made and filled now
    let left = crowd.iter().enumerate().filter_map(|(k, i)| i.as_ref().map(|i| (k, i)));
    let ends: Vec<_> = left.clone().take(2).chain(left.skip(2).last()).collect();
    for (k, i) in ends {
        let (g, c, w) = (i.to_json(), &others[k % others.len()], &want[1 + k % others.len()]);
        ensure!(g == *w, "number {k} of {} indexes, that of {}, is another: {}", s.n, c.lang.name(), difference(&g, w));
    }
    let g = c.sut().to_json();
    ensure!(g == want[0], "after {} other indexes, the index of {} is another: {}", s.n, c.lang.name(), difference(&g, &want[0]));
    Ok(())
}

fn difference(got: &str, want: &str) -> String {
    let at = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| {
        let b = s.as_bytes();
        String::from_utf8_lossy(&b[at.saturating_sub(40).min(b.len())..(at + 60).min(b.len())]).to_string()
    };
    format!("…{}… where it is …{}… by itself", cut(got), cut(want))
}

fn c27() -> Vec<Section> {
    let light = Shape { docs: 4, ..GENERAL };
    // the same documents under other languages, tokenizers, settings and keys
    let variants = move || {
        (index_case(light), vec((0u8..7, code(), tok_spec(), any::<Pick>()), 1..4))
            .prop_map(|(base, v)| {
                let mut cases = vec![base.clone()];
                for (k, code, tok, p) in v {
                    let mut c = base.clone();
                    match k {
                        0 | 1 => c.lang = LangSpec::Builtin(code.clone()),
                        2 => { let i = p.index(c.fields.len()); c.fields[i].tok = Some(tok) }
                        3 => c.save = Some(c.save == Some(false)),
                        4 => c.docs.reverse(),
                        5 => c.fields.reverse(),
                        _ => for d in &mut c.docs { d.data.iter_mut().for_each(|t| *t = t.to_uppercase()) },
                    }
                    if c.lang == LangSpec::Builtin("ar".into()) {
                        for d in &mut c.docs { d.data.iter_mut().for_each(|t| *t = tame_arabic(std::mem::take(t))) }
                    }
                    c.normalise();
                    cases.push(c);
                }
                cases
            })
            .boxed()
    };
    let build = |cases: S<Vec<IndexCase>>| (cases, vec((any::<u8>(), 0u8..6), 0..14), any::<bool>()).prop_map(|(cases, steps, threads)| Several { cases, steps, threads }).boxed();
    vec![
        generated("variants", "2 to 4 indexes over the same documents, differing in language, a tokenizer, settings, or the order of documents or fields, grown by turns (exported or dropped in between) or at once in threads, against each grown alone in a new thread; non-trivial: two have text", 4000, 60_000,
            move || build(variants()), several_check),
        generated("crowd", "an index and its twin among up to 300 others that exist at once, some of them dropped before it is complete, against each alone in a new thread; non-trivial: more than four others", 1200, 18_000,
            move || (vec(index_case(Shape { docs: 3, ..light }), 2..5), prop_oneof![4 => 0usize..20, 2 => select(vec![31usize, 32, 33, 63, 64, 65, 66, 99, 100, 101]), 1 => select(vec![127usize, 128, 129, 255, 256, 257, 258, 300])], select(vec![0u8, 0, 50, 90, 100]), select(vec![0u8, 0, 10, 60, 100]))
                .prop_map(|(mut cases, n, before, dropped)| {
                    for c in &mut cases {
                        // a dictionary in each would not fit
                        if matches!(&c.lang, LangSpec::Builtin(l) if l == "zh" || l == "ja") || n > 66 {
                            c.lang = LangSpec::Builtin("en".into());
                            c.normalise();
                        }
                    }
                    Crowd { cases, n, before, dropped }
                }).boxed(), crowd_check),
        generated("unrelated", "the same for 2 to 4 unrelated indexes; non-trivial: as above", 2000, 30_000,
            move || build(vec(index_case(light), 2..5).boxed()), several_check),
    ]
}
