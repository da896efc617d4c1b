//! Histories of the public building blocks: C18 (inverted index), C19 (document store), and
//! C23 (search configuration).

use super::Prop;
use crate::ensure;
use crate::engine::*;
use crate::gen::*;
use crate::gen_index::refs;
use crate::json::{parse, J};
use elasticlunr::config::{SearchBool, SearchOptions, SearchOptionsField};
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::{select, Index as Pick};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C18", sections: c18, assumptions: &["has_token(\"\") is not judged"] },
        Prop { id: "C19", sections: c19, assumptions: &["the field lengths of a document that was removed without having been added are not judged"] },
        Prop { id: "C23", sections: c23, assumptions: &[] },
    ]
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add(String, String, #[serde(with = "weight")] f64),
    Remove(String, String),
    Ask(String, String),
}

/// JSON has no infinities.
mod weight {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};

    #[derive(Serialize, Deserialize)]
    #[serde(untagged)]
    enum Weight {
        Number(f64),
        Text(String),
    }

    pub fn serialize<S: Serializer>(w: &f64, s: S) -> Result<S::Ok, S::Error> {
        if w.is_finite() { Weight::Number(*w) } else { Weight::Text(w.to_string()) }.serialize(s)
    }

    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
        match Weight::deserialize(d)? {
            Weight::Number(w) => Ok(w),
            Weight::Text(t) => t.parse().map_err(serde::de::Error::custom),
        }
    }
}

#[derive(Default, Clone)]
struct Model {
    /// every prefix of every token ever added, with the documents at it
    nodes: BTreeMap<String, BTreeMap<String, f64>>,
}

impl Model {
    fn add(&mut self, r: &str, t: &str, tf: f64) {
        let mut p = String::new();
        for c in t.chars() {
            p.push(c);
            self.nodes.entry(p.clone()).or_default();
        }
        if !t.is_empty() {
            self.nodes.get_mut(t).unwrap().insert(r.into(), tf);
        }
    }
    fn remove(&mut self, r: &str, t: &str) {
        if let Some(n) = self.nodes.get_mut(t) {
            n.remove(r);
        }
    }
}

fn ask(i: &InvertedIndex, m: &Model, r: &str, t: &str) -> Verdict {
    if t.is_empty() {
        return Ok(());
    }
    let node = m.nodes.get(t);
    ensure!(i.has_token(t) == node.is_some(), "has_token({t:?}) is {}", i.has_token(t));
    ensure!(i.get_docs(t).as_ref() == node, "get_docs({t:?}) is {:?}, expected {node:?}", i.get_docs(t));
    let df = node.map_or(0, |n| n.len() as i64);
    ensure!(i.get_doc_frequency(t) == df, "get_doc_frequency({t:?}) is {}, expected {df}", i.get_doc_frequency(t));
    let tf = node.and_then(|n| n.get(r)).copied().unwrap_or(0.0);
    ensure!(i.get_term_frequency(r, t) == tf, "get_term_frequency({r:?}, {t:?}) is {}, expected {tf}", i.get_term_frequency(r, t));
    Ok(())
}

fn flat(n: &J, p: &mut String, out: &mut BTreeMap<String, BTreeMap<String, f64>>) -> Verdict {
    for (k, v) in n.obj()? {
        match k.as_str() {
            "df" => ensure!(v.num()? == n.need("docs")?.obj()?.len() as f64, "node {p:?} has df {} and documents {}", v.num()?, n.need("docs")?.brief()),
            "docs" => {
                let d = v.obj()?.iter().map(|(r, t)| {
                    let tf = t.need("tf")?;
                    Ok((r.clone(), if *tf == J::Null { f64::INFINITY } else { tf.num()? }))
                }).collect::<Result<_, String>>()?;
                out.insert(p.clone(), d);
            }
            _ => {
                ensure!(k.chars().count() == 1, "node {p:?} has a member {k:?}");
                p.push_str(k);
                flat(v, p, out)?;
                p.pop();
            }
        }
    }
    Ok(())
}

fn c18_run(ops: &[Op], each: bool, o: &mut Obs) -> Verdict {
    let mut i = InvertedIndex::new();
    let mut m = Model::default();
    let mut seen: BTreeSet<(String, String)> = BTreeSet::new();
    let (mut removed, mut added_after) = (false, false);
    for op in ops {
        let (r, t) = match op {
            Op::Add(r, t, tf) => {
                i.add_token(r, t, *tf);
                m.add(r, t, *tf);
                added_after |= removed;
                (r, t)
            }
            Op::Remove(r, t) => {
                removed |= m.nodes.get(t).map_or(false, |n| n.contains_key(r));
                i.remove_token(r, t);
                m.remove(r, t);
                (r, t)
            }
            Op::Ask(r, t) => (r, t),
        };
        seen.insert((r.clone(), t.clone()));
        ask(&i, &m, r, t).map_err(|e| format!("{e}, after {op:?}"))?;
        if each {
            for (r, t) in &seen {
                ask(&i, &m, r, t).map_err(|e| format!("{e}, after {op:?}"))?;
            }
        }
    }
    o.nontrivial(removed);
    o.label_if(added_after, "an addition after a removal");
    for t in m.nodes.keys() {
        for (r, _) in &seen {
            ask(&i, &m, r, t)?;
        }
    }
    let mut got = BTreeMap::new();
    let j = parse(&serde_json::to_string(&i).map_err(|e| e.to_string())?)?;
    flat(j.need("root")?, &mut String::new(), &mut got)?;
    let root = got.remove("");
    ensure!(root.map_or(false, |r| r.is_empty()), "the root holds documents");
    // JSON has no infinities
    for tf in m.nodes.values_mut().flat_map(|d| d.values_mut()) {
        if tf.is_infinite() { *tf = f64::INFINITY }
    }
    ensure!(got == m.nodes, "the exported tree is {got:?}, expected {:?}", m.nodes);
    Ok(())
}

/// Two indexes are equal exactly if they answer all questions the same.
fn c18_equal(a: &[Op], b: &[Op], o: &mut Obs) -> Verdict {
    let run = |ops: &[Op]| {
        let (mut i, mut m) = (InvertedIndex::default(), Model::default());
        for op in ops {
            match op {
                Op::Add(r, t, tf) => {
                    i.add_token(r, t, *tf);
                    m.add(r, t, *tf);
                }
                Op::Remove(r, t) => {
                    i.remove_token(r, t);
                    m.remove(r, t);
                }
                Op::Ask(..) => (),
            }
        }
        (i, m)
    };
    let ((i, m), (j, n)) = (run(a), run(b));
    let want = m.nodes == n.nodes;
    o.nontrivial(!m.nodes.is_empty() && !n.nodes.is_empty());
    o.label(if want { "equal" } else { "different" });
    ensure!((i == j) == want && (j == i) == want && (i != j) != want, "indexes that hold {:?} and {:?} compare as {}", m.nodes, n.nodes, if i == j { "equal" } else { "different" });
    let (i2, _) = run(a);
    ensure!(i == i2, "an index is not equal to another with the same history");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    kind: String,
    n: usize,
}

/// Sizes around 2^16 and large numbers that are new in the sources.
fn bigs(kinds: &[&str]) -> Vec<Big> {
    crate::gen_index::Huge::list(kinds).into_iter().map(|h| Big { kind: h.kind, n: h.n }).collect()
}

fn c18_big(b: &Big) -> Verdict {
    let n = b.n;
    let mut i = InvertedIndex::new();
    let mut m = Model::default();
    i.add_token("x", "word", 2.5);
    m.add("x", "word", 2.5);
    let key = |k: usize| format!("d{k}");
    let mut asked: Vec<(String, String)> = vec![("x".into(), "word".into()), ("y".into(), "wor".into())];
    let near = [0, 1, n / 2, n - 2, n - 1, 255, 256, 65_534, 65_535, 65_536];
    match b.kind.as_str() {
        // many documents at one token, every third removed again
        "documents" => {
            for k in 0..n {
                i.add_token(&key(k), "word", 1.0 + k as f64);
                m.add(&key(k), "word", 1.0 + k as f64);
            }
            asked.extend(near.iter().map(|k| (key(*k), "word".into())));
            for (r, t) in &asked {
                ask(&i, &m, r, t)?;
            }
            for k in (0..n).step_by(3) {
                i.remove_token(&key(k), "word");
                m.remove(&key(k), "word");
            }
        }
        // many tokens that share a prefix
        "tokens" => {
            for k in 0..n {
                let t = format!("w{k}");
                i.add_token("x", &t, k as f64);
                m.add("x", &t, k as f64);
                if k % 5 == 0 {
                    i.remove_token("x", &t);
                    m.remove("x", &t);
                }
            }
            asked.extend(near.iter().map(|k| ("x".into(), format!("w{k}"))));
        }
        // many children of one node
        "children" => {
            let cs: Vec<char> = (0x100u32..).filter_map(char::from_u32).take(n).collect();
            for (k, c) in cs.iter().enumerate() {
                i.add_token("x", &format!("w{c}"), k as f64);
                m.add("x", &format!("w{c}"), k as f64);
            }
            asked.extend(near.iter().filter(|k| **k < n).map(|k| ("x".into(), format!("w{}", cs[*k]))));
        }
        // additions and removals by turns
        "cycles" => {
            for k in 0..n {
                i.add_token("y", "wor", k as f64);
                i.remove_token("y", "wor");
                i.add_token("x", "word", k as f64);
                if k % 1000 == 0 || k + 1 == n {
                    m.add("y", "wor", k as f64);
                    m.remove("y", "wor");
                    m.add("x", "word", k as f64);
                    ask(&i, &m, "x", "word")?;
                    ask(&i, &m, "y", "wor")?;
                }
            }
        }
        // a long key
        _ => {
            let r = "k".repeat(n);
            i.add_token(&r, "word", 7.0);
            m.add(&r, "word", 7.0);
            asked.push((r, "word".into()));
            asked.push(("k".repeat(n - 1), "word".into()));
        }
    }
    for (r, t) in &asked {
        ask(&i, &m, r, t)?;
    }
    let mut got = BTreeMap::new();
    flat(parse(&serde_json::to_string(&i).map_err(|e| e.to_string())?)?.need("root")?, &mut String::new(), &mut got)?;
    got.remove("");
    ensure!(got == m.nodes, "the exported tree has {} nodes, expected {}, or its documents differ", got.len(), m.nodes.len());
    Ok(())
}

fn c19_big(b: &Big) -> Verdict {
    let (n, save) = (b.n, b.kind != "not-saving");
    let mut s = DocumentStore::new(save);
    let doc = |k: usize| Doc::from([("body".to_string(), format!("text {k}"))]);
    let (mut key, mut text) = (format!("d{}", 0), "t".to_string());
    match b.kind.as_str() {
        "long-key" => key = "k".repeat(n),
        "long-text" => text = "é".repeat(n),
        _ => {}
    }
    match b.kind.as_str() {
        "long-key" | "long-text" => {
            let d = Doc::from([("body".to_string(), text.clone()), (key.clone(), "x".into())]);
            s.add_doc(&key, d.clone());
            s.add_field_length(&key, &key, n);
            ensure!(s.get_doc(&key).as_ref() == Some(&d) && s.len() == 1, "a document is not stored as it was given");
            ensure!(s.get_field_length(&key, &key) == n, "get_field_length is {}, expected {n}", s.get_field_length(&key, &key));
            ensure!(!s.has_doc(&key[1..]), "a part of a key is a key");
        }
        // the same key again and again
        "again" => {
            for k in 0..n {
                s.add_doc("d0", doc(k));
                s.add_field_length("d0", "body", k);
                ensure!(s.len() == 1 && s.length == 1, "{} documents after adding one key {} times", s.len(), k + 1);
                if k % 3 == 0 {
                    s.remove_doc("d0");
                    ensure!(s.is_empty(), "{} documents after removing the only one", s.len());
                    s.add_doc("d0", doc(k));
                    ensure!(s.get_field_length("d0", "body") == 0, "the field lengths of a removed document are back");
                    s.add_field_length("d0", "body", k);
                }
                ensure!(s.get_field_length("d0", "body") == k, "get_field_length is {}, expected {k}", s.get_field_length("d0", "body"));
            }
            ensure!(s.get_doc("d0") == Some(doc(n - 1)), "the last document is not the stored one");
        }
        _ => {
            for k in 0..n {
                let r = format!("d{k}");
                s.add_doc(&r, doc(k));
                s.add_field_length(&r, "body", k + 1);
                ensure!(s.len() == k + 1 && s.length == k + 1, "{} documents after adding {}", s.len(), k + 1);
            }
            let stored = |k: usize| if save { doc(k) } else { Doc::new() };
            for k in 0..n {
                let r = format!("d{k}");
                ensure!(s.get_doc(&r) == Some(stored(k)), "get_doc({r:?}) is {:?}", s.get_doc(&r));
                ensure!(s.get_field_length(&r, "body") == k + 1, "get_field_length({r:?}) is {}", s.get_field_length(&r, "body"));
            }
            let j = parse(&serde_json::to_string(&s).map_err(|e| e.to_string())?)?;
            ensure!(j.need("length")?.num()? == n as f64 && j.need("docs")?.obj()?.len() == n && j.need("docInfo")?.obj()?.len() == n, "the export has another number of documents than {n}");
            for k in (0..n).step_by(2) {
                s.remove_doc(&format!("d{k}"));
            }
            ensure!(s.len() == n / 2 && s.length == n / 2, "{} documents are left of {n} after removing every other", s.len());
            for k in 0..n {
                let r = format!("d{k}");
                ensure!(s.has_doc(&r) == (k % 2 == 1) && s.get_doc(&r) == (k % 2 == 1).then(|| stored(k)), "{r:?} after every other document was removed: {:?}", s.get_doc(&r));
                let l = if k % 2 == 1 { k + 1 } else { 0 };
                ensure!(s.get_field_length(&r, "body") == l, "get_field_length({r:?}) is {}, expected {l}", s.get_field_length(&r, "body"));
            }
        }
    }
    Ok(())
}

fn ops(n: usize) -> S<Vec<Op>> {
    let toks = vec(
        prop_oneof![4 => letters("en", 4), 2 => select(vec!["a", "ab", "abc", "abd", "b", "docs", "df", "d", "foo", "fo", "é", "e\u{301}", "日本", "日", "😀", "😀a"]).prop_map(String::from), 1 => any_text(5), 1 => word("en"), 1 => long_word("en", 80)],
        1..6,
    );
    (relatives(toks.boxed()), relatives(vec(refs(), 1..5).boxed()))
        .prop_flat_map(move |(t, r)| {
            let w = prop_oneof![4 => (1u32..50).prop_map(|n| (n as f64).sqrt()), 1 => Just(0.0), 1 => Just(1.0), 1 => -1e6f64..1e6,
                1 => select(vec![f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, 9007199254740993.0, 4294967296.0])];
            let op = (any::<Pick>(), any::<Pick>(), 0u8..10, 0usize..5, w, 0u8..14);
            vec(op, 0..n).prop_map(move |v| {
                let mut last = 1.0f64;
                v.into_iter()
                    .map(|(a, b, k, cut, tf, like)| {
                        // many weights are close to the one before
                        let tf = match like {
                            0 => last,
                            1 => -last,
                            2 => f64::from_bits(last.to_bits().wrapping_add(1)),
                            3 => last + 1.0,
                            4 => last.trunc(),
                            5 => last as f32 as f64,
                            6 => last / 2.0,
                            _ => tf,
                        };
                        let tf = if tf.is_nan() { 1.0 } else { tf };
                        last = tf;
                        let mut t = a.get(&t).clone();
                        let r = b.get(&r).clone();
                        match k {
                            0..=4 => Op::Add(r, t, tf),
                            5..=7 => Op::Remove(r, t),
                            // ask for, or remove at, a prefix or an extension
                            k => {
                                let n = t.chars().count();
                                if cut < n {
                                    t = t.chars().take(n - cut).collect();
                                } else {
                                    t.push('z');
                                }
                                if k == 8 { Op::Ask(r, t) } else { Op::Remove(r, t) }
                            }
                        }
                    })
                    .collect()
            })
        })
        .boxed()
}

fn c18() -> Vec<Section> {
    vec![
        generated("history", "up to 25 additions, removals and questions on up to 5 tokens sharing prefixes and 4 documents, all answers after every step; non-trivial: a removal that takes something out", 40_000, 600_000, || ops(25), |v: &Vec<Op>, o| c18_run(v, true, o)),
        generated("long-history", "up to 400 operations; non-trivial: as above", 1600, 20_000, || ops(400), |v: &Vec<Op>, o| c18_run(v, false, o)),
        generated("many-documents", "up to 2000 documents at one token, some of them removed; non-trivial: 100 or more", 400, 4000,
            || (size(2000), letters("en", 4), 1usize..9).boxed(),
            |(n, t, step): &(usize, String, usize), o| {
                let mut ops: Vec<Op> = (0..*n).map(|k| Op::Add(format!("d{k}"), t.clone(), 1.0 + k as f64)).collect();
                ops.extend((0..*n).step_by(*step).map(|k| Op::Remove(format!("d{k}"), t.clone())));
                ops.push(Op::Add("new".into(), t.clone(), 3.0));
                let mut sub = Obs::default();
                o.nontrivial(*n >= 100);
                c18_run(&ops, false, &mut sub)
            }),
        generated("equality", "two histories of up to 12 operations, the same but for one that is left out, moved, added or has another weight, or unrelated: the indexes are equal (by ==) exactly if they hold the same; non-trivial: both hold tokens", 60_000, 800_000,
            || (ops(12), ops(12), 0u8..8, any::<u16>(), any::<u16>()).prop_map(|(a, c, how, x, y)| {
                let mut b = a.clone();
                if !a.is_empty() {
                    let (x, y) = (x as usize % a.len(), y as usize % a.len());
                    match how {
                        0 => { b.remove(x); }
                        1 => b.swap(x, y),
                        2 => if let Op::Add(_, _, tf) = &mut b[x] { *tf = f64::from_bits(tf.to_bits() ^ 1) },
                        3 => if let Op::Add(_, _, tf) = &mut b[x] { *tf = -*tf },
                        4 => b.extend(c.into_iter().take(1)),
                        5 => if let Op::Add(r, t, _) = a[x].clone() { b.push(Op::Remove(r, t)) },
                        6 => b.push(a[x].clone()),
                        _ => b = c,
                    }
                }
                (a, b)
            }).boxed(),
            |(a, b): &(Vec<Op>, Vec<Op>), o| c18_equal(a, b, o)),
        enumerated("huge", "2^16-1, 2^16, 2^16+1 and 70000 (and large numbers new in the sources) documents at a token, tokens, children of a node, additions and removals by turns, characters of a key; non-trivial: all",
            |_| bigs(&["documents", "tokens", "children", "cycles", "key"]),
            |b: &Big, o| { o.nontrivial(true); c18_big(b) }),
        generated("order", "up to 20 additions of distinct pairs in two orders give equal indexes, and unequal ones when one differs; non-trivial: 5 or more", 20_000, 200_000,
            || vec((letters("en", 3), refs(), 1u8..9), 0..20).boxed(),
            |v: &Vec<(String, String, u8)>, o| {
                let mut seen = BTreeSet::new();
                let v: Vec<_> = v.iter().filter(|x| seen.insert((x.0.clone(), x.1.clone()))).collect();
                o.nontrivial(v.len() >= 5);
                let (mut a, mut b) = (InvertedIndex::new(), InvertedIndex::default());
                for (t, r, n) in &v { a.add_token(r, t, *n as f64); }
                for (t, r, n) in v.iter().rev() { b.add_token(r, t, *n as f64); }
                ensure!(a == b, "the order of additions changes the index");
                let (x, y) = (serde_json::to_string(&a), serde_json::to_string(&b));
                ensure!(x.map_err(|e| e.to_string())? == y.map_err(|e| e.to_string())?, "the order of additions changes the exported index");
                if let Some((t, r, n)) = v.first() {
                    b.add_token(r, t, *n as f64 + 0.5);
                    ensure!(a != b, "indexes that differ in a term frequency are equal");
                }
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C19

type Doc = BTreeMap<String, String>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum StoreOp {
    Add(String, Doc),
    Remove(String),
    Length(String, String, usize),
    Ask(String, String),
}

fn c19_run(save: bool, ops: &[StoreOp], o: &mut Obs) -> Verdict {
    let mut s = DocumentStore::new(save);
    let mut docs: BTreeMap<String, Doc> = BTreeMap::new();
    let mut info: BTreeMap<String, BTreeMap<String, usize>> = BTreeMap::new();
    let mut vague: BTreeSet<String> = BTreeSet::new();
    let mut asked: BTreeSet<(String, String)> = BTreeSet::new();
    let (mut removed, mut back) = (false, false);
    // every key is asked about in every field that is mentioned, where these are few
    if ops.len() <= 25 {
        let keys: BTreeSet<&String> = ops.iter().map(|op| match op { StoreOp::Add(r, _) | StoreOp::Remove(r) | StoreOp::Length(r, ..) | StoreOp::Ask(r, _) => r }).collect();
        let fields: BTreeSet<&String> = ops.iter().filter_map(|op| match op { StoreOp::Length(_, f, _) | StoreOp::Ask(_, f) => Some(f), _ => None }).collect();
        asked = keys.iter().flat_map(|r| fields.iter().map(move |f| (r.to_string(), f.to_string()))).collect();
    }
    for op in ops {
        match op {
            StoreOp::Add(r, d) => {
                back |= removed && !docs.contains_key(r);
                s.add_doc(r, d.clone());
                docs.insert(r.clone(), if save { d.clone() } else { Doc::new() });
                asked.insert((r.clone(), "body".into()));
            }
            StoreOp::Remove(r) => {
                s.remove_doc(r);
                if docs.remove(r).is_some() {
                    removed = true;
                    info.remove(r);
                } else if info.contains_key(r) {
                    vague.insert(r.clone());
                }
                asked.insert((r.clone(), "body".into()));
            }
            StoreOp::Length(r, f, n) => {
                s.add_field_length(r, f, *n);
                info.entry(r.clone()).or_default().insert(f.clone(), *n);
                asked.insert((r.clone(), f.clone()));
            }
            StoreOp::Ask(r, f) => {
                asked.insert((r.clone(), f.clone()));
            }
        }
        let after = |e: String| -> Verdict { Err(format!("{e}, after {op:?}")) };
        if s.len() != docs.len() || s.length != docs.len() || s.is_empty() != docs.is_empty() || s.docs.len() != docs.len() {
            return after(format!("len() {}, length {}, is_empty() {}, {} entries with {} documents", s.len(), s.length, s.is_empty(), s.docs.len(), docs.len()));
        }
        if s.is_stored() != save || s.save != save {
            return after(format!("is_stored() is {}", s.is_stored()));
        }
        for (r, f) in &asked {
            if s.has_doc(r) != docs.contains_key(r) {
                return after(format!("has_doc({r:?}) is {}", s.has_doc(r)));
            }
            if s.get_doc(r).as_ref() != docs.get(r) {
                return after(format!("get_doc({r:?}) is {:?}, expected {:?}", s.get_doc(r), docs.get(r)));
            }
            if vague.contains(r) {
                continue;
            }
            let n = if docs.contains_key(r) { info.get(r).and_then(|i| i.get(f)).copied().unwrap_or(0) } else { 0 };
            if s.get_field_length(r, f) != n {
                return after(format!("get_field_length({r:?}, {f:?}) is {}, expected {n}", s.get_field_length(r, f)));
            }
        }
    }
    o.nontrivial(removed);
    o.label_if(back, "a document added again after a removal");
    o.label_if(!save, "not saving");
    let j = parse(&serde_json::to_string(&s).map_err(|e| e.to_string())?)?;
    ensure!(j.need("save")? == &J::Bool(save) && j.need("length")?.num()? == docs.len() as f64, "exported as {}", j.brief());
    let want = |m: &BTreeMap<String, Doc>| J::Obj(m.iter().map(|(k, d)| (k.clone(), J::Obj(d.iter().map(|(a, b)| (a.clone(), J::Str(b.clone()))).collect()))).collect());
    ensure!(j.need("docs")?.same(&want(&docs), 0.0), "documents exported as {}", j.need("docs")?.brief());
    if vague.is_empty() {
        let want = J::Obj(info.iter().map(|(k, d)| (k.clone(), J::Obj(d.iter().map(|(a, b)| (a.clone(), J::Num(*b as f64))).collect()))).collect());
        ensure!(j.need("docInfo")?.same(&want, 0.0), "field lengths exported as {}, expected {}", j.need("docInfo")?.brief(), want.brief());
    }
    // a clone is a store of its own
    let mut c = s.clone();
    for r in docs.keys() {
        c.remove_doc(r);
    }
    ensure!(c.is_empty() && c.length == 0 && s.len() == docs.len(), "emptying a clone: {} left in it, {} in the original", c.length, s.len());
    Ok(())
}

fn store_ops(n: usize) -> S<Vec<StoreOp>> {
    (relatives(vec(refs(), 1..6).boxed()), relatives(vec(field(), 1..4).boxed()))
        .prop_flat_map(move |(r, f)| {
            let d = proptest::collection::btree_map(prop_oneof![select(f.clone()), field()], any_text(8), 0..3);
            let op = (any::<Pick>(), any::<Pick>(), 0u8..10, d, prop_oneof![4 => 0usize..20, 1 => size(2000), 1 => Just(usize::MAX >> 11)], 0u8..20);
            vec(op, 0..n).prop_map(move |v| {
                let mut last: BTreeMap<String, Doc> = BTreeMap::new();
                v.into_iter()
                    .map(|(a, b, k, d, n, how)| {
                        let r = a.get(&r).clone();
                        match k {
                            0..=3 => {
                                // the last document under the key with little changed, now and then
                                let d = match last.get(&r) {
                                    Some(old) if how < 8 => old.iter().map(|(f, t)| (f.clone(), variant(t, how))).collect(),
                                    _ => d,
                                };
                                last.insert(r.clone(), d.clone());
                                StoreOp::Add(r, d)
                            }
                            4..=5 => StoreOp::Remove(r),
                            6..=8 => StoreOp::Length(r, b.get(&f).clone(), n),
                            _ => StoreOp::Ask(r, b.get(&f).clone()),
                        }
                    })
                    .collect()
            })
        })
        .boxed()
}

fn c19() -> Vec<Section> {
    vec![
        generated("history", "up to 25 additions, removals, field lengths and questions on up to 5 keys, saving or not, all answers after every step; non-trivial: a removal of a stored document", 40_000, 600_000,
            || (any::<bool>(), store_ops(25)).boxed(), |(save, v): &(bool, Vec<StoreOp>), o| c19_run(*save, v, o)),
        generated("long-history", "up to 200 operations; non-trivial: as above", 1600, 20_000, || (any::<bool>(), store_ops(200)).boxed(), |(save, v): &(bool, Vec<StoreOp>), o| c19_run(*save, v, o)),
        generated("many-documents", "up to 400 documents, some of them removed, others added again; non-trivial: 60 or more", 240, 2400,
            || (size(400), any::<bool>(), 1usize..9).boxed(),
            |(n, save, step): &(usize, bool, usize), o| {
                let d = |k: usize| [("body".to_string(), format!("text {k}"))].into_iter().collect::<Doc>();
                let mut ops: Vec<StoreOp> = (0..*n).flat_map(|k| [StoreOp::Length(format!("d{k}"), "body".into(), k), StoreOp::Add(format!("d{k}"), d(k))]).collect();
                ops.extend((0..*n).step_by(*step).map(|k| StoreOp::Remove(format!("d{k}"))));
                ops.extend((0..*n).step_by(step + 1).map(|k| StoreOp::Add(format!("d{k}"), d(k + 1))));
                let mut sub = Obs::default();
                o.nontrivial(*n >= 60);
                c19_run(*save, &ops, &mut sub)
            }),
        enumerated("huge", "2^16-1, 2^16, 2^16+1 and 70000 (and large numbers new in the sources) documents, saved or not, additions of one key, characters of a key, of a text; non-trivial: all",
            |_| bigs(&["saving", "not-saving", "again", "long-key", "long-text"]),
            |b: &Big, o| { o.nontrivial(true); c19_big(b) }),
    ]
}

// ---------------------------------------------------------------- C23

type FieldOpt = (Option<u8>, Option<bool>, Option<bool>);

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Config {
    and: bool,
    expand: bool,
    /// field → (boost, bool is AND, expand)
    fields: BTreeMap<String, FieldOpt>,
}

fn bool_of(and: bool) -> SearchBool {
    if and { SearchBool::And } else { SearchBool::Or }
}
fn text_of(and: bool) -> J {
    J::Str(if and { "AND" } else { "OR" }.into())
}

impl Config {
    fn sut(&self) -> SearchOptions {
        SearchOptions {
            bool: bool_of(self.and),
            expand: self.expand,
            fields: self.fields.iter().map(|(k, (boost, and, expand))| (k.clone(), SearchOptionsField { boost: *boost, bool: and.map(bool_of), expand: *expand })).collect(),
        }
    }
    fn want(&self) -> J {
        let f = self.fields.iter().map(|(k, (boost, and, expand))| {
            let mut m = vec![];
            boost.map(|b| m.push(("boost".to_string(), J::Num(b as f64))));
            and.map(|a| m.push(("bool".to_string(), text_of(a))));
            expand.map(|e| m.push(("expand".to_string(), J::Bool(e))));
            (k.clone(), J::Obj(m))
        });
        J::Obj(vec![("bool".into(), text_of(self.and)), ("expand".into(), J::Bool(self.expand)), ("fields".into(), J::Obj(f.collect()))])
    }
}

fn field_opt() -> impl Strategy<Value = FieldOpt> {
    (option::of(prop_oneof![1 => any::<u8>(), 1 => select(vec![0u8, 1, 2, 127, 128, 254, 255])]), option::of(any::<bool>()), option::of(any::<bool>()))
}

/// What a text is read as in each of the ways serde_json offers.
pub fn all_forms<T: serde::de::DeserializeOwned>(t: &str) -> Vec<(&'static str, Result<T, serde_json::Error>)> {
    vec![
        ("from a string", serde_json::from_str(t)),
        ("from bytes", serde_json::from_slice(t.as_bytes())),
        ("from a reader", serde_json::from_reader(t.as_bytes())),
        ("from a value", serde_json::from_str::<serde_json::Value>(t).and_then(serde_json::from_value)),
    ]
}

fn c23() -> Vec<Section> {
    vec![
        generated("round-trip", "a search configuration with up to 8 fields (any subset of boost, bool, expand in each); written, compared with the documented form, read back; non-trivial: a field with some of its options", 60_000, 800_000,
            || (any::<bool>(), any::<bool>(), proptest::collection::btree_map(field(), field_opt(), 0..8)).prop_map(|(and, expand, fields)| Config { and, expand, fields }).boxed(),
            |c: &Config, o| {
                o.nontrivial(c.fields.values().any(|f| f.0.is_some() || f.1.is_some() || f.2.is_some()));
                let s = c.sut();
                let text = serde_json::to_string(&s).map_err(|e| e.to_string())?;
                let (got, want) = (parse(&text)?, c.want());
                ensure!(got.same(&want, 0.0), "the configuration is written as {text}, expected {}", want.brief());
                let pretty = serde_json::to_string_pretty(&s).map_err(|e| e.to_string())?;
                ensure!(parse(&pretty)?.same(&want, 0.0), "the configuration is pretty-printed as {pretty}");
                for t in [&text, &pretty] {
                    for (how, back) in all_forms::<SearchOptions>(t) {
                        let back = back.map_err(|e| format!("{t} is refused {how}: {e}"))?;
                        ensure!(back == s, "{t} is read back {how} as {back:?}");
                    }
                }
                let v = serde_json::to_value(&s).map_err(|e| e.to_string())?;
                ensure!(parse(&v.to_string())?.same(&want, 0.0), "the configuration is written as the value {v}");
                ensure!(s.clone() == s, "a clone differs");
                Ok(())
            }),
        generated("equality", "a configuration and another that differs in at most one option, field or name; they are equal exactly if nothing differs, and so are what they are read back as; non-trivial: something differs", 30_000, 400_000,
            || (any::<bool>(), any::<bool>(), proptest::collection::btree_map(field(), field_opt(), 0..5), 0u8..6, any::<u16>(), field_opt(), field())
                .prop_map(|(and, expand, fields, how, at, opt, name)| {
                    let a = Config { and, expand, fields };
                    let mut b = a.clone();
                    let key = a.fields.keys().nth(at as usize % a.fields.len().max(1)).cloned();
                    match (how, key) {
                        (0, _) => b.and = !and,
                        (1, _) => b.expand = !expand,
                        (2, Some(k)) => { b.fields.insert(k, opt); }
                        (3, Some(k)) => { b.fields.remove(&k); }
                        (4, Some(k)) => { let v = b.fields.remove(&k).unwrap(); b.fields.insert(name, v); }
                        (5, _) => { b.fields.insert(name, opt); }
                        _ => {}
                    }
                    (a, b)
                }).boxed(),
            |(a, b): &(Config, Config), o| {
                let same = a.and == b.and && a.expand == b.expand && a.fields == b.fields;
                o.nontrivial(!same);
                let (x, y) = (a.sut(), b.sut());
                ensure!((x == y) == same && (y == x) == same, "{x:?} and {y:?} compare as {}", if same { "different" } else { "equal" });
                let (s, t) = (serde_json::to_string(&x).map_err(|e| e.to_string())?, serde_json::to_string(&y).map_err(|e| e.to_string())?);
                ensure!((s == t) == same, "{x:?} and {y:?} are written as {s} and {t}");
                Ok(())
            }),
        generated("many-fields", "a configuration with up to 2000 fields; written, compared with the documented form, read back; non-trivial: 60 or more", 300, 4000,
            || (size(2000), vec(field_opt(), 1..7), field(), any::<bool>()).prop_map(|(n, opts, name, and)| Config {
                and, expand: !and,
                fields: (0..n).map(|i| (format!("{name}{i}"), opts[i % opts.len()])).collect(),
            }).boxed(),
            |c: &Config, o| {
                o.nontrivial(c.fields.len() >= 60);
                let s = c.sut();
                let text = serde_json::to_string(&s).map_err(|e| e.to_string())?;
                ensure!(parse(&text)?.same(&c.want(), 0.0), "the configuration is written as {text}");
                let back: SearchOptions = serde_json::from_str(&text).map_err(|e| format!("{text} is refused: {e}"))?;
                ensure!(back == s, "{text} is read back as {back:?}");
                Ok(())
            }),
        enumerated("one-field", "every combination of the options of one field and every boost, and the defaults; non-trivial: some option is set",
            |_| {
                let b = [None, Some(false), Some(true)];
                let mut v = vec![];
                for boost in std::iter::once(None).chain((0..=255u8).map(Some)) {
                    for x in b { for y in b { v.push((boost, x, y)); } }
                }
                v
            },
            |f: &FieldOpt, o| {
                o.nontrivial(f.0.is_some() || f.1.is_some() || f.2.is_some());
                let d = SearchOptions::default();
                ensure!(d.bool == SearchBool::Or && !d.expand && d.fields.is_empty() && SearchBool::default() == SearchBool::Or, "the default configuration is {d:?}");
                let df = SearchOptionsField::default();
                ensure!(df.boost.is_none() && df.bool.is_none() && df.expand.is_none(), "the default options of a field are {df:?}");
                for and in [false, true] {
                    let c = Config { and, expand: !and, fields: [("body".to_string(), *f)].into_iter().collect() };
                    let s = c.sut();
                    let text = serde_json::to_string(&s).map_err(|e| e.to_string())?;
                    ensure!(parse(&text)?.same(&c.want(), 0.0), "written as {text}");
                    let back: SearchOptions = serde_json::from_str(&text).map_err(|e| format!("{text} is refused: {e}"))?;
                    ensure!(back == s, "{text} is read back as {back:?}");
                    // members in another order, white space, and null for an absent option
                    let j = format!("{{ \"fields\" : {{\"body\":{{\"expand\":{},\"boost\":{},\"bool\":{}}}}}, \"expand\":{}, \"bool\":\"{}\" }}",
                        f.2.map_or("null".into(), |x| x.to_string()), f.0.map_or("null".into(), |x| x.to_string()),
                        f.1.map_or("null", |x| if x { "\"AND\"" } else { "\"OR\"" }), !and, if and { "AND" } else { "OR" });
                    let back: SearchOptions = serde_json::from_str(&j).map_err(|e| format!("{j} is refused: {e}"))?;
                    ensure!(back == s, "{j} is read as {back:?}");
                }
                Ok(())
            }),
        enumerated("refused", "values elasticlunr.js does not know; non-trivial: all",
            |_| ["or", "and", "Or", "And", "NOT", "XOR", "", "OR ", "null"].iter().map(|s| format!("\"{s}\"")).chain(["null".into(), "true".into(), "1".into()]).collect::<Vec<String>>(),
            |v: &String, o| {
                o.nontrivial(true);
                let t = format!("{{\"bool\":{v},\"expand\":false,\"fields\":{{}}}}");
                ensure!(serde_json::from_str::<SearchOptions>(&t).is_err(), "{t} is accepted");
                ensure!(serde_json::from_str::<SearchBool>(v).is_err(), "{v} is accepted as a boolean model");
                for b in ["256", "-1", "1.5", "\"1\""] {
                    let t = format!("{{\"boost\":{b}}}");
                    ensure!(serde_json::from_str::<SearchOptionsField>(&t).is_err(), "{t} is accepted");
                }
                Ok(())
            }),
    ]
}
