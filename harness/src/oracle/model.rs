//! The reference index: postings, stored documents and field lengths as plain maps; and the
//! reading of an exported index into the same shape.

use crate::json::{parse, J};
use crate::sut::IndexCase;
use std::collections::{BTreeMap, BTreeSet};

pub type Postings = BTreeMap<String, BTreeMap<String, u64>>;

#[derive(Debug, Clone, PartialEq)]
pub struct Model {
    pub fields: Vec<String>,
    pub ref_field: String,
    pub save: bool,
    pub lang: String,
    pub pipeline: Vec<String>,
    /// field → term → document → occurrences
    pub postings: BTreeMap<String, Postings>,
    pub docs: BTreeMap<String, BTreeMap<String, String>>,
    pub info: BTreeMap<String, BTreeMap<String, usize>>,
}

impl Model {
    pub fn of(case: &IndexCase) -> Model {
        let mut m = Model {
            fields: case.fields.iter().map(|f| f.name.clone()).collect(),
            ref_field: case.ref_name(),
            save: case.save.unwrap_or(true),
            lang: case.lang.name(),
            pipeline: case.lang.pipeline(),
            postings: case.fields.iter().map(|f| (f.name.clone(), Postings::new())).collect(),
            docs: BTreeMap::new(),
            info: BTreeMap::new(),
        };
        for d in &case.docs {
            let mut stored = BTreeMap::new();
            stored.insert(m.ref_field.clone(), d.r.clone());
            for (f, value) in case.fields.iter().zip(&d.data) {
                stored.insert(f.name.clone(), value.clone());
                if f.name == m.ref_field {
                    continue;
                }
                let raw = match &f.tok {
                    Some(t) => t.model(value),
                    None => case.lang.tokenize(value),
                };
                let terms: Vec<String> = raw.iter().filter_map(|t| case.lang.run(t)).collect();
                m.info.entry(d.r.clone()).or_default().insert(f.name.clone(), terms.len());
                let mut counts: BTreeMap<String, u64> = BTreeMap::new();
                for t in terms {
                    *counts.entry(t).or_default() += 1;
                }
                let p = m.postings.get_mut(&f.name).unwrap();
                for (t, n) in counts {
                    // as in elasticlunr.js, indexing a document again overlays it
                    p.entry(t).or_default().insert(d.r.clone(), n);
                }
            }
            m.docs.insert(d.r.clone(), if m.save { stored } else { BTreeMap::new() });
        }
        m
    }
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Node {
    pub df: f64,
    pub docs: BTreeMap<String, f64>,
}

#[derive(Debug, Clone)]
pub struct Export {
    pub raw: J,
    pub fields: Vec<String>,
    pub pipeline: Vec<String>,
    pub ref_field: String,
    pub version: String,
    pub lang: String,
    /// field → term → node; only nodes with documents
    pub terms: BTreeMap<String, BTreeMap<String, Node>>,
    /// leaves without documents (the root apart)
    pub dead: usize,
    pub save: bool,
    pub length: f64,
    pub docs: BTreeMap<String, BTreeMap<String, String>>,
    pub info: BTreeMap<String, BTreeMap<String, f64>>,
}

fn exactly(o: &J, names: &[&str], what: &str) -> Result<(), String> {
    let have: BTreeSet<&str> = o.obj()?.iter().map(|(k, _)| k.as_str()).collect();
    let want: BTreeSet<&str> = names.iter().copied().collect();
    if have != want {
        return Err(format!("{what}: members {have:?}, expected {want:?}"));
    }
    Ok(())
}

fn walk(n: &J, prefix: &mut String, root: bool, out: &mut BTreeMap<String, Node>, dead: &mut usize) -> Result<(), String> {
    let mut node = Node::default();
    let (mut df, mut docs) = (false, false);
    let mut children = 0;
    for (k, v) in n.obj()? {
        match k.as_str() {
            "df" => {
                df = true;
                node.df = v.num()?;
            }
            "docs" => {
                docs = true;
                for (r, t) in v.obj()? {
                    exactly(t, &["tf"], "a posting")?;
                    node.docs.insert(r.clone(), t.need("tf")?.num()?);
                }
            }
            _ => {
                let mut it = k.chars();
                match (it.next(), it.next()) {
                    (Some(c), None) => {
                        children += 1;
                        prefix.push(c);
                        walk(v, prefix, false, out, dead)?;
                        prefix.pop();
                    }
                    _ => return Err(format!("index node {prefix:?} has a member {k:?}, which is neither docs, df nor one character")),
                }
            }
        }
    }
    if !df || !docs {
        return Err(format!("index node {prefix:?} lacks docs or df"));
    }
    if node.docs.is_empty() {
        if node.df != 0.0 {
            return Err(format!("index node {prefix:?} has no documents but df {}", node.df));
        }
        if children == 0 && !root {
            *dead += 1;
        }
    } else {
        out.insert(prefix.clone(), node);
    }
    Ok(())
}

impl Export {
    pub fn read(text: &str) -> Result<Export, String> {
        let j = parse(text)?;
        exactly(&j, &["fields", "pipeline", "ref", "version", "index", "documentStore", "lang"], "the index")?;
        let mut terms = BTreeMap::new();
        let mut dead = 0;
        for (f, v) in j.need("index")?.obj()? {
            exactly(v, &["root"], "an inverted index")?;
            let mut m = BTreeMap::new();
            walk(v.need("root")?, &mut String::new(), true, &mut m, &mut dead)?;
            terms.insert(f.clone(), m);
        }
        let s = j.need("documentStore")?;
        exactly(s, &["save", "docs", "docInfo", "length"], "the document store")?;
        let save = match s.need("save")? {
            J::Bool(b) => *b,
            o => return Err(format!("save is {}", o.brief())),
        };
        let mut docs = BTreeMap::new();
        for (r, d) in s.need("docs")?.obj()? {
            let mut m = BTreeMap::new();
            for (k, v) in d.obj()? {
                m.insert(k.clone(), v.str()?.to_string());
            }
            docs.insert(r.clone(), m);
        }
        let mut info = BTreeMap::new();
        for (r, d) in s.need("docInfo")?.obj()? {
            let mut m = BTreeMap::new();
            for (k, v) in d.obj()? {
                m.insert(k.clone(), v.num()?);
            }
            info.insert(r.clone(), m);
        }
        Ok(Export {
            fields: j.need("fields")?.strings()?,
            pipeline: j.need("pipeline")?.strings()?,
            ref_field: j.need("ref")?.str()?.into(),
            version: j.need("version")?.str()?.into(),
            lang: j.need("lang")?.str()?.into(),
            terms,
            dead,
            save,
            length: s.need("length")?.num()?,
            docs,
            info,
            raw: j,
        })
    }
}

fn short<T: std::fmt::Debug>(v: &T) -> String {
    let s = format!("{v:?}");
    if s.chars().count() > 160 {
        s.chars().take(160).collect::<String>() + "…"
    } else {
        s
    }
}

pub fn first_diff<V: PartialEq + std::fmt::Debug>(what: &str, got: &BTreeMap<String, V>, want: &BTreeMap<String, V>) -> Result<(), String> {
    for (k, w) in want {
        match got.get(k) {
            None => return Err(format!("{what}: {} is missing (expected {})", short(k), short(w))),
            Some(g) if g != w => return Err(format!("{what}: {} is {}, expected {}", short(k), short(g), short(w))),
            _ => {}
        }
    }
    for (k, g) in got {
        if !want.contains_key(k) {
            return Err(format!("{what}: unexpected {} ({})", short(k), short(g)));
        }
    }
    Ok(())
}

/// Which documents each term of each field leads to.
pub fn same_matches(e: &Export, m: &Model) -> Result<(), String> {
    let got_fields: BTreeSet<&String> = e.terms.keys().collect();
    let want_fields: BTreeSet<&String> = m.postings.keys().collect();
    if got_fields != want_fields {
        return Err(format!("indexed fields {got_fields:?}, expected {want_fields:?}"));
    }
    for (f, want) in &m.postings {
        let w: BTreeMap<String, BTreeSet<&String>> = want.iter().map(|(t, d)| (t.clone(), d.keys().collect())).collect();
        let g: BTreeMap<String, BTreeSet<&String>> = e.terms[f].iter().map(|(t, n)| (t.clone(), n.docs.keys().collect())).collect();
        first_diff(&format!("documents by term in field {f:?}"), &g, &w)?;
    }
    Ok(())
}

pub fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
}

/// Term frequencies and document frequencies of the postings both have.
pub fn same_weights(e: &Export, m: &Model) -> Result<(), String> {
    same_matches(e, m)?;
    for (f, want) in &m.postings {
        for (t, docs) in want {
            let n = &e.terms[f][t];
            if n.df != docs.len() as f64 {
                return Err(format!("field {f:?}, term {}: df {}, but {} documents contain it", short(t), n.df, docs.len()));
            }
            for (d, c) in docs {
                let want = (*c as f64).sqrt();
                if !close(n.docs[d], want) {
                    return Err(format!("field {f:?}, term {}, document {}: tf {}, expected sqrt({c}) = {want}", short(t), short(d), n.docs[d]));
                }
            }
        }
    }
    Ok(())
}

pub fn same_store(e: &Export, m: &Model) -> Result<(), String> {
    if e.save != m.save {
        return Err(format!("documentStore.save is {}, expected {}", e.save, m.save));
    }
    first_diff("stored documents", &e.docs, &m.docs)?;
    let want: BTreeMap<String, BTreeMap<String, f64>> =
        m.info.iter().map(|(r, i)| (r.clone(), i.iter().map(|(f, n)| (f.clone(), *n as f64)).collect())).collect();
    first_diff("field lengths", &e.info, &want)?;
    if e.length != m.docs.len() as f64 {
        return Err(format!("documentStore.length is {}, but {} documents were added", e.length, m.docs.len()));
    }
    Ok(())
}

pub fn same_header(e: &Export, m: &Model) -> Result<(), String> {
    for (what, g, w) in [
        ("ref", &e.ref_field, &m.ref_field),
        ("lang", &e.lang, &m.lang),
        ("version", &e.version, &"0.9.5".to_string()),
    ] {
        if g != w {
            return Err(format!("{what} is {g:?}, expected {w:?}"));
        }
    }
    if e.fields != m.fields {
        return Err(format!("fields are {:?}, expected {:?}", e.fields, m.fields));
    }
    if e.pipeline != m.pipeline {
        return Err(format!("pipeline is {:?}, expected {:?}", e.pipeline, m.pipeline));
    }
    Ok(())
}

pub fn same_all(e: &Export, m: &Model) -> Result<(), String> {
    same_header(e, m)?;
    same_store(e, m)?;
    same_weights(e, m)?;
    if e.dead > 0 {
        return Err(format!("the index has {} branches that lead to no document", e.dead));
    }
    Ok(())
}
