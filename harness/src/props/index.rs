//! Properties of a whole index, judged on its JSON export: C01–C08, C21, C22.

use super::structures::all_forms;
use super::Prop;
use crate::ensure;
use crate::engine::*;
use crate::gen::*;
use crate::gen_index::*;
use crate::json::{parse, J};
use crate::oracle::model::*;
use crate::sut::*;
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use elasticlunr::{Index, IndexBuilder};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::{select, Index as Pick};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", sections: c01, assumptions: &[ORACLE, WALK] },
        Prop { id: "C02", sections: c02, assumptions: &[ORACLE] },
        Prop { id: "C03", sections: c03, assumptions: &[ORACLE] },
        Prop { id: "C04", sections: c04, assumptions: &[ORACLE] },
        Prop { id: "C05", sections: c05, assumptions: &[] },
        Prop { id: "C06", sections: c06, assumptions: &[] },
        Prop { id: "C07", sections: c07, assumptions: &[] },
        Prop { id: "C08", sections: c08, assumptions: &["the export is read by the harness's own strict RFC 8259 reader"] },
        Prop { id: "C21", sections: c21, assumptions: &[ORACLE] },
        Prop { id: "C22", sections: c22, assumptions: &["numbers are compared with a relative tolerance of 1e-12, because serde_json reads floating point within one ulp", "words of at most about 100 characters: serde_json reads at most 128 nested levels"] },
    ]
}

pub const ORACLE: &str = "the reference text processing in harness/src/oracle (its Snowball stemmers, jieba and lindera are the published crates, trusted; its stop lists are data of the harness)";
const WALK: &str = "lookups walk one character at a time; terms with characters outside the BMP, which elasticlunr.js walks by UTF-16 unit, are the known finding utf16-lookup";

fn export(i: &Index) -> Result<Export, String> {
    Export::read(&i.to_json())
}

fn classify(c: &IndexCase, m: &Model, o: &mut Obs) {
    let terms: usize = m.postings.values().map(|p| p.len()).sum();
    let refs: HashSet<&str> = c.docs.iter().map(|d| d.r.as_str()).collect();
    o.label_if(terms == 0, "no terms");
    o.label_if(c.docs.len() >= 2, "several documents");
    o.label_if(refs.len() < c.docs.len(), "a document indexed again");
    o.label_if(c.fields.len() >= 2, "several fields");
    o.label_if(c.fields.iter().any(|f| f.tok.is_some()), "custom tokenizer");
    o.label_if(matches!(c.lang, LangSpec::Custom { .. }), "custom language");
    o.label_if(matches!(&c.lang, LangSpec::Builtin(l) if l != "en"), "language other than English");
    o.label_if(m.postings.values().any(|p| p.values().any(|d| d.len() >= 2)), "a term in several documents");
    o.label_if(m.postings.values().any(|p| p.values().any(|d| d.values().any(|n| *n >= 2))), "a term repeated in a field");
    o.label_if(c.ref_field.is_some(), "custom reference field");
    o.label_if(!m.save, "documents not saved");
}

const HUGES: &str = "indexes with 2^16-1, 2^16, 2^16+1 and 70000 (and large numbers from the sources) documents, tokens, terms, children of a node, characters of a text, key or field name, additions of one key, and a tenth of that many fields; non-trivial: all";

fn huge_section(kinds: &'static [&'static str], check: fn(&IndexCase, &mut Obs) -> Verdict) -> Section {
    enumerated("huge", HUGES, move |_| Huge::list(kinds), move |h: &Huge, o| {
        o.nontrivial(true);
        check(&h.case(), o)
    })
}

const CASE: &str = "an index (built-in or custom language, 1-5 or up to 40 fields, 0-6 documents with words from corpora, stop lists, scripts, punctuation, arbitrary Unicode and literals of the sources); non-trivial: ";
const SCALE: &str = "a regular index with sizes around 2^n, 10^n and numbers from the sources (up to 2000 documents, 300 fields, 11000 tokens in a field, words of 300 characters); non-trivial: it has postings";

fn with_model(case: &IndexCase, o: &mut Obs, cmp: fn(&Export, &Model) -> Result<(), String>) -> Verdict {
    let m = Model::of(case);
    classify(case, &m, o);
    let e = export(&case.sut())?;
    cmp(&e, &m)
}

fn scaled(s: &Scale, o: &mut Obs, cmp: fn(&Export, &Model) -> Result<(), String>) -> Verdict {
    let case = s.case();
    o.nontrivial(s.vocab.iter().any(|w| !w.is_empty()));
    o.label_if(s.docs >= 100, "100 or more documents");
    o.label_if(s.fields >= 50, "50 or more fields");
    o.label_if(s.tokens >= 100, "100 or more tokens in a field");
    o.label_if(s.vocab.iter().any(|w| w.chars().count() >= 50), "a word of 50 or more characters");
    with_model(&case, o, cmp)
}

// ---------------------------------------------------------------- C01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Listed {
    lang: String,
    text: String,
}

/// Walks the exported index as elasticlunr.js does: one UTF-16 unit at a time.
fn walk_units(root: &J, term: &str) -> bool {
    let mut n = root;
    for u in term.encode_utf16() {
        match char::from_u32(u as u32).and_then(|c| n.get(&c.to_string())) {
            Some(x) => n = x,
            None => return false,
        }
    }
    true
}

fn c01() -> Vec<Section> {
    let nt = "at least one term is indexed and some text holds a word that is not";
    let rule: &'static str = Box::leak(format!("{CASE}{nt}").into_boxed_str());
    vec![
        generated("lookup", rule, 16_000, 240_000, || index_case(GENERAL), |c: &IndexCase, o| {
            let m = Model::of(c);
            let n: usize = m.postings.values().map(|p| p.len()).sum();
            let len: usize = c.docs.iter().map(|d| d.data.iter().map(|t| t.split_whitespace().count()).sum::<usize>()).sum();
            o.nontrivial(n > 0 && len > n);
            with_model(c, o, same_matches)
        }),
        generated("api-agrees", "a language and a text of up to 12 words, as the only field of one document; its terms by the language's own tokenizer and pipeline against the terms in the export; non-trivial: two or more terms", 12_000, 160_000,
            || code().prop_flat_map(|c| { let t = lang_text(&c, 12); (Just(c), t) }).boxed(),
            |(code, text): &(String, String), o| {
                let want: BTreeSet<String> = crate_process(code, text).into_iter().filter(|t| !t.is_empty()).collect();
                o.nontrivial(want.len() >= 2);
                let mut i = Index::with_language(builtin(code), ["body"]);
                i.add_doc("d", [text]);
                let e = export(&i)?;
                let got: BTreeSet<String> = e.terms.get("body").ok_or("the field is not in the index")?.keys().cloned().collect();
                ensure!(got == want, "{code}: terms {got:?} in the index, {want:?} from the language");
                Ok(())
            }),
        generated("scale", SCALE, 320, 4000, scale, |s: &Scale, o| scaled(s, o, same_matches)),
        generated("long-words", "one document with two words of up to 2000 characters sharing a prefix; non-trivial: one has 100 or more", 600, 6000,
            || (light_code().prop_flat_map(|c| { let a = long_word(&c, 2000); (Just(c), a) }), letters("en", 3)).prop_map(|((c, w), x)| IndexCase {
                lang: LangSpec::Builtin(c.clone()), fields: vec![FieldSpec { name: "body".into(), tok: None }], ref_field: None, save: None, short: true,
                docs: vec![Doc { r: "1".into(), data: vec![{ let t = format!("{w} {w}{x}"); if c == "ar" { tame_arabic(t) } else { t } }] }],
            }).boxed(),
            |c: &IndexCase, o| {
                o.nontrivial(c.docs[0].data[0].chars().count() >= 200);
                with_model(c, o, same_matches)
            }),
        enumerated("utf16-lookup", "listed texts with a term outside the BMP, looked up by UTF-16 unit as elasticlunr.js does; non-trivial: all",
            |_| vec![
                Listed { lang: "en".into(), text: "a😀b".into() },
                Listed { lang: "ja".into(), text: "𠮷野家".into() },
                Listed { lang: "en".into(), text: "aéb".into() },
                Listed { lang: "ko".into(), text: "국회는".into() },
            ],
            |l: &Listed, o| {
                o.nontrivial(true);
                let mut i = Index::with_language(builtin(&l.lang), ["body"]);
                i.add_doc("1", [&l.text]);
                let e = export(&i)?;
                let root = e.raw.need("index")?.need("body")?.need("root")?.clone();
                for t in e.terms["body"].keys() {
                    if !walk_units(&root, t) {
                        if t.chars().all(|c| (c as u32) < 0x10000) {
                            return Err(format!("term {t:?} cannot be reached by elasticlunr.js"));
                        }
                        o.known("utf16-lookup");
                    }
                }
                Ok(())
            }),
        huge_section(HUGE, |c, o| with_model(c, o, same_matches)),
    ]
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Counts {
    lang: String,
    /// per document: (word, occurrences, variant)
    docs: Vec<Vec<(String, usize)>>,
    interleave: bool,
    again: Option<(usize, usize)>,
}

impl Counts {
    fn case(&self) -> IndexCase {
        let mut docs: Vec<Doc> = self
            .docs
            .iter()
            .enumerate()
            .map(|(i, ws)| {
                let mut out: Vec<&str> = vec![];
                if self.interleave {
                    let max = ws.iter().map(|w| w.1).max().unwrap_or(0);
                    for k in 0..max {
                        for (w, n) in ws {
                            if k < *n {
                                out.push(w);
                            }
                        }
                    }
                } else {
                    for (w, n) in ws {
                        for _ in 0..*n {
                            out.push(w);
                        }
                    }
                }
                Doc { r: format!("d{i}"), data: vec![out.join(" "), format!("x{i}")] }
            })
            .collect();
        // a document indexed again with another one's text
        if let Some((a, b)) = self.again {
            if !docs.is_empty() {
                let n = docs.len();
                let d = Doc { r: docs[a % n].r.clone(), data: docs[b % n].data.clone() };
                docs.push(d);
            }
        }
        IndexCase {
            lang: LangSpec::Builtin(self.lang.clone()),
            fields: ["body", "note"].iter().map(|n| FieldSpec { name: n.to_string(), tok: None }).collect(),
            ref_field: None,
            save: Some(false),
            short: false,
            docs,
        }
    }
}

fn counts() -> S<Counts> {
    let rep = prop_oneof![4 => 1usize..6, 2 => size(300), 1 => size(2500)];
    light_code()
        .prop_flat_map(move |c| {
            let w = prop_oneof![3 => word(&c), 1 => letters(&c, 3)].prop_map(tame_arabic);
            // few words, many documents: words recur
            let pool = vec(w, 1..5);
            (Just(c), pool, vec(vec((any::<Pick>(), rep.clone()), 0..5), 1..7), any::<bool>(), proptest::option::weighted(0.25, (0usize..7, 0usize..7)))
        })
        .prop_map(|(lang, pool, docs, interleave, again)| Counts {
            lang,
            docs: docs
                .into_iter()
                .map(|d| {
                    let mut left = 6000usize;
                    d.into_iter()
                        .map(|(p, n)| {
                            let n = n.min(left);
                            left -= n;
                            (p.get(&pool).clone(), n)
                        })
                        .collect()
                })
                .collect(),
            interleave,
            again,
        })
        .boxed()
}

fn c02() -> Vec<Section> {
    let rule: &'static str = Box::leak(format!("{CASE}a term occurs twice in a field or in two documents").into_boxed_str());
    vec![
        generated("counts", "1-6 documents made of 1-4 words with occurrence counts of 1-5, around 2^n/10^n and numbers from the sources, up to 2501; sometimes one is indexed again; non-trivial: some count above 1", 6000, 80_000, counts, |c: &Counts, o| {
            o.nontrivial(c.docs.iter().flatten().any(|w| w.1 > 1));
            o.label_if(c.docs.iter().flatten().any(|w| w.1 >= 100), "a count of 100 or more");
            with_model(&c.case(), o, same_weights)
        }),
        generated("general", rule, 10_000, 160_000, || index_case(GENERAL), |c: &IndexCase, o| {
            let m = Model::of(c);
            o.nontrivial(m.postings.values().any(|p| p.values().any(|d| d.len() >= 2 || d.values().any(|n| *n >= 2))));
            with_model(c, o, same_weights)
        }),
        generated("scale", SCALE, 320, 4000, scale, |s: &Scale, o| scaled(s, o, same_weights)),
        enumerated("huge-counts", "one word repeated 2^16-1 to 2^16+2 and 100000 times; non-trivial: all",
            |_| vec![65534usize, 65535, 65536, 65537, 65538, 100_000],
            |n: &usize, o| {
                o.nontrivial(true);
                let c = Counts { lang: "en".into(), docs: vec![vec![("word".into(), *n)], vec![("word".into(), 2)]], interleave: false, again: None };
                with_model(&c.case(), o, same_weights)
            }),
        huge_section(HUGE, |c, o| with_model(c, o, same_weights)),
    ]
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Isolation {
    case: IndexCase,
    /// which field is watched
    pick: u16,
    /// other texts for the other fields
    other: Vec<String>,
    rotate: usize,
}

fn subtree(i: &Index, field: &str) -> Result<J, String> {
    parse(&i.to_json())?
        .need("index")?
        .get(field)
        .cloned()
        .ok_or_else(|| format!("field {field:?} is not in the index"))
}

fn c03() -> Vec<Section> {
    let sh = Shape { again: true, ..GENERAL };
    vec![
        generated("isolation", "an index with 1-40 fields, one of them watched, and other texts for the other fields; non-trivial: two or more fields and terms in the watched one", 6000, 90_000,
            move || (index_case(sh), any::<u16>(), 0usize..5).prop_flat_map(|(case, pick, rotate)| {
                let t = lang_text(&text_code(&case.lang), 9);
                (Just(case), Just(pick), vec(t, 0..6), Just(rotate))
            }).prop_map(|(case, pick, other, rotate)| Isolation { case, pick, other, rotate }).boxed(),
            |x: &Isolation, o| {
                let c = &x.case;
                let nf = c.fields.len();
                let k = x.pick as usize % nf;
                let f = c.fields[k].name.clone();
                let m = Model::of(c);
                classify(c, &m, o);
                o.nontrivial(nf >= 2 && !m.postings[&f].is_empty());
                let full = c.sut();
                let e = export(&full)?;
                // every field against the reference: postings come from that field's own text
                same_weights(&e, &m)?;
                let want = subtree(&full, &f)?;
                // 1. the field alone in an index
                let mut alone = c.clone();
                alone.fields = vec![c.fields[k].clone()];
                alone.docs = c.docs.iter().filter(|d| d.data.len() > k).map(|d| Doc { r: d.r.clone(), data: vec![d.data[k].clone()] }).collect();
                ensure!(subtree(&alone.sut(), &f)? == want, "field {f:?} is indexed differently when it is the only field");
                // 2. other text in the other fields
                let mut changed = c.clone();
                for (n, d) in changed.docs.iter_mut().enumerate() {
                    for (j, v) in d.data.iter_mut().enumerate() {
                        if j != k {
                            *v = if x.other.is_empty() { String::new() } else { x.other[(n + j) % x.other.len()].clone() };
                        }
                    }
                }
                changed.normalise();
                ensure!(subtree(&changed.sut(), &f)? == want, "the text of other fields changes what is indexed under field {f:?}");
                // 3. fields in another order
                let mut rot = c.clone();
                rot.fields.rotate_left(x.rotate % nf);
                rot.docs.retain(|d| d.data.len() == nf);
                for d in &mut rot.docs {
                    d.data.rotate_left(x.rotate % nf);
                }
                let mut same = c.clone();
                same.docs.retain(|d| d.data.len() == nf);
                ensure!(subtree(&rot.sut(), &f)? == subtree(&same.sut(), &f)?, "the order of the fields changes what is indexed under field {f:?}");
                Ok(())
            }),
        generated("scale", SCALE, 200, 3000, scale, |s: &Scale, o| scaled(s, o, same_weights)),
    ]
}

// ---------------------------------------------------------------- C04

fn c04() -> Vec<Section> {
    let sh = Shape { save: Some(None), ..GENERAL };
    let rule: &'static str = Box::leak(format!("{CASE}a document with text is stored").into_boxed_str());
    vec![
        generated("store", rule, 16_000, 240_000, move || index_case(sh), |c: &IndexCase, o| {
            o.nontrivial(c.docs.iter().any(|d| d.data.iter().any(|t| !t.is_empty())));
            with_model(c, o, same_store)
        }),
        generated("verbatim", "a document of 1-3 fields holding arbitrary Unicode text of up to 200 characters (controls, quotes, separators, astral), kept by a language that indexes nothing of it; non-trivial: a text that JSON has to escape", 12_000, 200_000,
            || (refs(), vec(prop_oneof![any_text(200), vec(select(SPECIAL), 0..12).prop_map(|v| v.concat()), vec(select(PUNCT), 0..40).prop_map(|v| v.concat())], 1..4)).boxed(),
            |(r, data): &(String, Vec<String>), o| {
                o.nontrivial(data.iter().any(|t| t.chars().any(|c| c < ' ' || c == '"' || c == '\\')));
                let case = IndexCase {
                    lang: LangSpec::Custom { name: "X".into(), code: "xx".into(), tok: TokSpec::Nothing, fns: vec![] },
                    fields: (0..data.len()).map(|i| FieldSpec { name: format!("f{i}"), tok: None }).collect(),
                    ref_field: None,
                    save: None,
                    short: false,
                    docs: vec![Doc { r: r.clone(), data: data.clone() }],
                };
                with_model(&case, o, same_store)
            }),
        generated("large", "one document of up to 60000 characters; non-trivial: 5000 or more", 160, 2000,
            || (lang_text("en", 9), size(2000)).prop_map(|(t, n)| (t, n)).boxed(),
            |(t, n): &(String, usize), o| {
                let text = t.chars().cycle().take(if t.is_empty() { 0 } else { n * 30 }).collect::<String>();
                o.nontrivial(text.len() >= 5000);
                let case = IndexCase {
                    lang: LangSpec::Builtin("en".into()),
                    fields: vec![FieldSpec { name: "body".into(), tok: Some(TokSpec::Split(' ')) }],
                    ref_field: None,
                    save: Some(true),
                    short: false,
                    docs: vec![Doc { r: "1".into(), data: vec![text] }],
                };
                with_model(&case, o, same_store)
            }),
        generated("scale", SCALE, 240, 3000, scale, |s: &Scale, o| scaled(s, o, same_store)),
        huge_section(HUGE, |c, o| with_model(c, o, same_store)),
    ]
}

// ---------------------------------------------------------------- C05

fn set(j: &mut J, key: &str, v: J) {
    if let J::Obj(m) = j {
        for (k, x) in m {
            if k == key {
                *x = v;
                return;
            }
        }
    }
}

fn c05_check(c: &IndexCase, o: &mut Obs) -> Verdict {
    let mut on = c.clone();
    on.save = Some(true);
    let mut default = c.clone();
    default.save = None;
    let mut off = c.clone();
    off.save = Some(false);
    let (a, b, d) = (on.sut().to_json(), off.sut().to_json(), default.sut().to_json());
    ensure!(a == d, "saving is not the default");
    let e = Export::read(&b)?;
    o.nontrivial(c.docs.iter().any(|d| d.data.iter().any(|t| !t.trim().is_empty())));
    ensure!(!e.save, "documentStore.save is true although saving is off");
    for (r, d) in &e.docs {
        ensure!(d.is_empty(), "document {r:?} is stored although saving is off: {d:?}");
    }
    // apart from save and the stored texts, nothing differs
    let (mut x, mut y) = (parse(&a)?, parse(&b)?);
    ensure!(x.need("documentStore")?.need("save")? == &J::Bool(true), "documentStore.save is not true although saving is on");
    for j in [&mut x, &mut y] {
        let mut s = j.need("documentStore")?.clone();
        let docs = J::Obj(s.need("docs")?.obj()?.iter().map(|(k, _)| (k.clone(), J::Null)).collect());
        set(&mut s, "docs", docs);
        set(&mut s, "save", J::Null);
        set(j, "documentStore", s);
    }
    ensure!(x == y, "turning saving off changes more than the stored documents");
    Ok(())
}

fn c05() -> Vec<Section> {
    let rule: &'static str = Box::leak(format!("{CASE}a document has text").into_boxed_str());
    vec![
        generated("save-off", rule, 10_000, 150_000, || index_case(GENERAL), c05_check),
        generated("scale", SCALE, 160, 2000, scale, |s: &Scale, o| c05_check(&s.case(), o)),
        generated("oracle", rule, 6000, 60_000, || index_case(Shape { save: Some(Some(false)), ..GENERAL }), |c: &IndexCase, o| {
            o.nontrivial(c.docs.iter().any(|d| d.data.iter().any(|t| !t.is_empty())));
            with_model(c, o, same_all)
        }),
    ]
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shuffled {
    case: IndexCase,
    order: Vec<u16>,
}

fn c06_check(case: &IndexCase, order: &[u16], o: &mut Obs) -> Verdict {
    let a = case.sut();
    let (compact, pretty) = (a.to_json(), a.to_json_pretty());
    ensure!(a.to_json() == compact, "exporting twice gives different text");
    let b = case.sut();
    ensure!(b.to_json() == compact && b.to_json_pretty() == pretty, "building the index twice gives different text");
    let mut other = case.clone();
    other.short = !case.short;
    if other.short && other.save == Some(true) {
        other.save = None;
    }
    ensure!(other.sut().to_json() == compact, "another way of constructing the same index gives different text");
    // in another thread, with other hash seeds
    let c = case.clone();
    if !matches!(&case.lang, LangSpec::Builtin(l) if l == "zh" || l == "ja") {
        let far = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || guarded(|| c.sut().to_json()))
            .unwrap()
            .join()
            .unwrap()?;
        ensure!(far == compact, "building the index in another thread gives different text");
    }
    let mut keyed: Vec<(u16, usize)> = (0..case.docs.len()).map(|i| (order.get(i).copied().unwrap_or(0), i)).collect();
    keyed.sort();
    let mut p = case.clone();
    p.docs = keyed.iter().map(|(_, i)| case.docs[*i].clone()).collect();
    o.nontrivial(p.docs != case.docs);
    o.label_if(p.docs != case.docs, "another order");
    ensure!(p.sut().to_json() == compact, "adding the documents in the order {:?} gives different text", keyed.iter().map(|x| x.1).collect::<Vec<_>>());
    let mut rev = case.clone();
    rev.docs.reverse();
    ensure!(rev.sut().to_json() == compact, "adding the documents in reverse gives different text");
    Ok(())
}

/// A process that exports the cases it is given (`elv exporter`), in an environment of its own.
struct Exporter {
    child: std::process::Child,
    to: std::process::ChildStdin,
    from: std::io::BufReader<std::process::ChildStdout>,
}

impl Exporter {
    fn start(k: usize) -> Exporter {
        use std::process::{Command, Stdio};
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("exporter").env_clear().current_dir("/").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        match k {
            0 => c.env("LANG", "tr_TR.UTF-8").env("LC_ALL", "tr_TR.UTF-8").env("LANGUAGE", "tr").env("TZ", "Pacific/Kiritimati").env("HOME", "/nonexistent").env("USER", "nobody"),
            _ => c.env("LANG", "C").env("LC_ALL", "POSIX").env("CI", "true").env("DEBUG", "1").env("RUST_LOG", "trace").env("RUST_BACKTRACE", "1").env("SOURCE_DATE_EPOCH", "1").env("TERM", "dumb"),
        };
        let mut child = c.spawn().unwrap_or_else(|e| {
            eprintln!("HARNESS-ERROR: starting a process: {e}");
            std::process::exit(3)
        });
        let (to, from) = (child.stdin.take().unwrap(), std::io::BufReader::new(child.stdout.take().unwrap()));
        Exporter { child, to, from }
    }
    fn export(&mut self, c: &IndexCase) -> Result<String, String> {
        use std::io::{BufRead, Write};
        let mut line = serde_json::to_string(c).unwrap();
        line.push('\n');
        let mut out = String::new();
        let r = self.to.write_all(line.as_bytes()).and_then(|_| self.to.flush()).and_then(|_| self.from.read_line(&mut out));
        match r {
            Ok(n) if n > 0 => Ok(out.trim_end_matches('\n').into()),
            _ => Err(format!("building the index in another process ends it: {:?}", self.child.wait())),
        }
    }
}

impl Drop for Exporter {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn exporter() {
    use std::io::{BufRead, Write};
    with_stack(STACK, || {
        for l in std::io::stdin().lock().lines() {
            let c: IndexCase = serde_json::from_str(&l.unwrap()).unwrap();
            let t = guarded(|| c.sut().to_json()).unwrap_or_else(|e| e);
            let mut out = std::io::stdout().lock();
            out.write_all(t.as_bytes()).and_then(|_| out.write_all(b"\n")).and_then(|_| out.flush()).unwrap();
        }
    })
}

fn c06_processes(case: &IndexCase, o: &mut Obs) -> Verdict {
    thread_local! { static E: std::cell::RefCell<Vec<Exporter>> = const { std::cell::RefCell::new(vec![]) }; }
    o.nontrivial(case.docs.iter().any(|d| d.data.iter().any(|t| !t.trim().is_empty())));
    let here = case.sut().to_json();
    E.with(|e| {
        let mut e = e.borrow_mut();
        if e.is_empty() {
            *e = untimed(|| (0..2).map(Exporter::start).collect());
        }
        for k in 0..2 {
            match e[k].export(case) {
                Ok(t) => ensure!(t == here, "built in another process, with another environment, the index exports as {}, here as {}", brief(&t), brief(&here)),
                Err(w) => {
                    e.clear();
                    return Err(w);
                }
            }
        }
        Ok(())
    })
}

/// Yields its items, says little or the wrong thing about their number, and goes on after its end.
struct Odd<I>(I, bool, Option<usize>);
impl<I: Iterator<Item = String>> Iterator for Odd<I> {
    type Item = String;
    fn next(&mut self) -> Option<String> {
        if self.1 {
            return Some("after the end".into());
        }
        let x = self.0.next();
        self.1 = x.is_none();
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.2 {
            None => (0, None),
            Some(n) => (n, Some(n)),
        }
    }
}

const WAYS: u8 = 10;

fn hand_over_fields(b: IndexBuilder, names: &[String], way: u8) -> IndexBuilder {
    use std::borrow::Cow;
    match way {
        0 => names.iter().fold(b, |b, n| b.add_field(n)),
        1 => b.add_fields(names),
        2 => b.add_fields(names.to_vec()),
        3 => b.add_fields(names.iter().map(|s| s.as_str())),
        4 => b.add_fields(names.iter().map(|s| Cow::from(s.as_str())).collect::<std::collections::VecDeque<_>>()),
        5 => b.add_fields(names.iter().map(|s| s.clone().into_boxed_str())),
        6 => b.add_fields(Odd(names.iter().cloned(), false, None)),
        7 => b.add_fields(Odd(names.iter().cloned(), false, Some(3))),
        8 => {
            let (x, y) = names.split_at(names.len() / 2);
            b.add_fields(x).add_fields(y.iter().map(|s| std::rc::Rc::<str>::from(s.as_str()))).add_fields(None::<&str>)
        }
        _ => b.add_fields(names.iter().enumerate().map(|(i, s)| (i, s)).collect::<BTreeMap<_, _>>().into_values()),
    }
}

fn hand_over_doc(i: &mut Index, r: &str, data: &[String], way: u8) {
    use std::borrow::Cow;
    match way {
        0 => i.add_doc(r, data),
        1 => i.add_doc(r, data.to_vec()),
        2 => i.add_doc(r, data.iter().map(|s| s.as_str())),
        3 => i.add_doc(&r.to_string(), data.iter().map(|s| Cow::from(s.as_str())).collect::<std::collections::VecDeque<_>>()),
        4 => i.add_doc(r, data.iter().map(|s| s.clone().into_boxed_str())),
        5 => i.add_doc(r, Odd(data.iter().cloned(), false, None)),
        6 => i.add_doc(r, Odd(data.iter().cloned(), false, Some(usize::MAX))),
        7 => i.add_doc(r, data.iter().map(|s| std::sync::Arc::<str>::from(s.as_str())).collect::<std::collections::LinkedList<_>>()),
        8 => match data {
            [] => i.add_doc::<[&str; 0]>(r, []),
            [a] => i.add_doc(r, std::iter::once(a)),
            [a, b] => i.add_doc(r, [a, b]),
            [a, b, rest @ ..] => i.add_doc(r, [a.as_str(), b].into_iter().chain(rest.iter().map(|s| s.as_str()))),
        },
        // a text that is part of a longer string
        _ => {
            let all: String = data.iter().map(|s| format!("x{s}y")).collect();
            let mut at = 0;
            i.add_doc(r, data.iter().map(|s| {
                let t = &all[at + 1..at + 1 + s.len()];
                at += s.len() + 2;
                t
            }))
        }
    }
}

fn c06_ways(case: &IndexCase, ways: &[u8], o: &mut Obs) -> Verdict {
    let mut plain = case.clone();
    plain.fields.iter_mut().for_each(|f| f.tok = None);
    let want = plain.sut().to_json();
    let names: Vec<String> = plain.fields.iter().map(|f| f.name.clone()).collect();
    let mut b = IndexBuilder::with_language(plain.lang.sut());
    if let Some(s) = plain.save {
        b = b.save_docs(s);
    }
    if let Some(r) = &plain.ref_field {
        b = b.set_ref(r);
    }
    let mut i = hand_over_fields(b, &names, ways[0]).build();
    for (k, d) in plain.docs.iter().enumerate() {
        hand_over_doc(&mut i, &d.r, &d.data, ways[k % ways.len()]);
    }
    o.nontrivial(plain.docs.iter().any(|d| d.data.len() >= 2));
    ensure!(i.to_json() == want, "handed over in other collections ({ways:?}), the index exports as {}, from vectors as {}", brief(&i.to_json()), brief(&want));
    if plain.save.is_none() && plain.ref_field.is_none() {
        let mut i = match ways[0] % 4 {
            0 => Index::with_language(plain.lang.sut(), names.clone()),
            1 => Index::with_language(plain.lang.sut(), names.iter().map(|s| s.as_str())),
            2 => Index::with_language(plain.lang.sut(), Odd(names.iter().cloned(), false, None)),
            _ => Index::with_language(plain.lang.sut(), names.iter().map(|s| s.clone().into_boxed_str()).collect::<std::collections::VecDeque<_>>()),
        };
        for (k, d) in plain.docs.iter().enumerate() {
            hand_over_doc(&mut i, &d.r, &d.data, ways[(k + 1) % ways.len()]);
        }
        ensure!(i.to_json() == want, "handed over in other collections ({ways:?}), the index exports as {}, from vectors as {}", brief(&i.to_json()), brief(&want));
    }
    Ok(())
}

fn brief(t: &str) -> String {
    if t.len() > 1500 { t.chars().take(1500).collect::<String>() + "…" } else { t.into() }
}

fn c06() -> Vec<Section> {
    let sh = Shape { again: false, docs: 8, ..GENERAL };
    vec![
        generated("order", "an index with up to 8 documents of distinct keys, and a permutation of them; non-trivial: the permutation moves one", 6000, 90_000,
            move || (index_case(sh), vec(any::<u16>(), 8)).prop_map(|(case, order)| Shuffled { case, order }).boxed(),
            |s: &Shuffled, o| c06_check(&s.case, &s.order, o)),
        generated("processes", "an index built in this process and in two others, which have other environments (locale, time zone, directory, variables) and have built other indexes before; non-trivial: a document has text", 3000, 50_000,
            || index_case(GENERAL), c06_processes),
        generated("handed-over", "an index whose field names and texts come from other collections, iterators and string types, some of which say the wrong thing about their length; non-trivial: a document of two or more fields", 6000, 90_000,
            || (index_case(GENERAL), vec(0..WAYS, 1..5)).boxed(), |(c, ways): &(IndexCase, Vec<u8>), o| c06_ways(c, ways, o)),
        generated("scale", SCALE, 80, 1500, || (scale(), vec(any::<u16>(), 60)).boxed(), |(s, order): &(Scale, Vec<u16>), o| {
            let n = s.docs;
            let order: Vec<u16> = (0..n).map(|i| order[i % order.len()].wrapping_mul(i as u16 | 1)).collect();
            c06_check(&s.case(), &order, o)
        }),
    ]
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Growing {
    case: IndexCase,
    extra: Doc,
    /// Indexes an existing document again instead of adding one.
    update: Option<u16>,
}

pub fn without(e: &Export, r: &str) -> (BTreeMap<String, BTreeMap<String, BTreeMap<String, f64>>>, BTreeMap<String, BTreeMap<String, String>>, BTreeMap<String, BTreeMap<String, f64>>) {
    let terms = e
        .terms
        .iter()
        .map(|(f, t)| {
            let m = t
                .iter()
                .map(|(t, n)| (t.clone(), n.docs.iter().filter(|(d, _)| *d != r).map(|(d, x)| (d.clone(), *x)).collect::<BTreeMap<_, _>>()))
                .filter(|(_, d)| !d.is_empty())
                .collect();
            (f.clone(), m)
        })
        .collect();
    let drop = |k: &String| k != r;
    (
        terms,
        e.docs.iter().filter(|(k, _)| drop(k)).map(|(k, v)| (k.clone(), v.clone())).collect(),
        e.info.iter().filter(|(k, _)| drop(k)).map(|(k, v)| (k.clone(), v.clone())).collect(),
    )
}

/// What no document changes.
pub fn ensure_rest(before: &Export, after: &Export) -> Verdict {
    for (what, x, y) in [
        ("fields", &before.fields, &after.fields),
        ("pipeline", &before.pipeline, &after.pipeline),
    ] {
        ensure!(x == y, "adding a document changes {what}");
    }
    ensure!((&before.ref_field, &before.lang, before.save) == (&after.ref_field, &after.lang, after.save), "adding a document changes the configuration");
    Ok(())
}

fn c07_check(case: &IndexCase, extra: &Doc, o: &mut Obs) -> Verdict {
    let mut all = case.clone();
    all.docs.push(extra.clone());
    all.normalise();
    let extra = all.docs.last().unwrap().clone();
    let known = case.docs.iter().any(|d| d.r == extra.r);
    o.label_if(known, "indexing a document again");
    o.nontrivial(!case.docs.is_empty() && extra.data.iter().any(|t| !t.trim().is_empty()));
    let mut i = case.sut();
    let before_text = i.to_json();
    i.add_doc(&extra.r, &extra.data);
    let after_text = i.to_json();
    let (before, after) = (Export::read(&before_text)?, Export::read(&after_text)?);
    let (b, a) = (without(&before, &extra.r), without(&after, &extra.r));
    for (f, t) in &b.0 {
        first_diff(&format!("after adding {:?}: postings of other documents in field {f:?}", extra.r), a.0.get(f).ok_or("a field is gone")?, t)?;
    }
    ensure!(a.0.len() == b.0.len(), "adding a document adds a field");
    first_diff(&format!("after adding {:?}: other stored documents", extra.r), &a.1, &b.1)?;
    first_diff(&format!("after adding {:?}: field lengths of other documents", extra.r), &a.2, &b.2)?;
    // df moves by one exactly where the document is new to a term
    for (f, t) in &after.terms {
        for (term, n) in t {
            let old = before.terms.get(f).and_then(|t| t.get(term));
            let (odf, had) = old.map_or((0.0, false), |n| (n.df, n.docs.contains_key(&extra.r)));
            let gained = (!had && n.docs.contains_key(&extra.r)) as u8 as f64;
            ensure!(n.df == odf + gained, "field {f:?}, term {term:?}: df went from {odf} to {}", n.df);
        }
    }
    ensure!(
        after.length == before.length + (!known) as u8 as f64,
        "documentStore.length went from {} to {} when {} document was added", before.length, after.length, if known { "a known" } else { "a new" }
    );
    ensure_rest(&before, &after)?;
    // exporting between the two had no effect, and a document leaves what it would leave alone
    ensure!(all.sut().to_json() == after_text, "exporting the index between two additions changes the result");
    if !known {
        let mut solo = all.clone();
        solo.docs = vec![extra.clone()];
        let s = export(&solo.sut())?;
        for (f, t) in &s.terms {
            for (term, n) in t {
                let g = after.terms[f].get(term).and_then(|n| n.docs.get(&extra.r));
                ensure!(g == n.docs.get(&extra.r), "field {f:?}, term {term:?}: {g:?} for {:?} in the grown index, {:?} alone", extra.r, n.docs.get(&extra.r));
            }
        }
        ensure!(s.docs.get(&extra.r) == after.docs.get(&extra.r) && s.info.get(&extra.r) == after.info.get(&extra.r),
            "document {:?} is stored differently in the grown index than alone", extra.r);
    }
    Ok(())
}

/// Some documents of a large index leave what each leaves in an index of its own.
fn c07_samples(case: &IndexCase) -> Verdict {
    let mut times: BTreeMap<&str, usize> = BTreeMap::new();
    case.docs.iter().for_each(|d| *times.entry(&d.r).or_default() += 1);
    let once: Vec<&Doc> = case.docs.iter().filter(|d| times[d.r.as_str()] == 1).collect();
    let by_key: BTreeMap<&str, &Doc> = once.iter().map(|d| (d.r.as_str(), *d)).collect();
    let n = once.len();
    let mut sample: Vec<&Doc> = by_key.values().take(2).chain(by_key.values().rev().take(2)).copied().collect();
    sample.extend([0, 1, 2, n / 2, n.saturating_sub(1)].iter().filter_map(|k| once.get(*k)));
    let grown = export(&case.sut())?;
    for d in sample {
        let mut solo = case.clone();
        solo.docs = vec![d.clone()];
        let s = export(&solo.sut())?;
        for (f, t) in &grown.terms {
            let got: BTreeMap<String, f64> = t.iter().filter_map(|(t, n)| Some((t.clone(), *n.docs.get(&d.r)?))).collect();
            let want: BTreeMap<String, f64> = s.terms[f].iter().filter_map(|(t, n)| Some((t.clone(), *n.docs.get(&d.r)?))).collect();
            first_diff(&format!("field {f:?}: terms of {:?} among {n} documents, against those in an index of its own", d.r), &got, &want)?;
        }
        ensure!(s.docs.get(&d.r) == grown.docs.get(&d.r) && s.info.get(&d.r) == grown.info.get(&d.r),
            "document {:?} is stored differently in the grown index than alone", d.r);
    }
    Ok(())
}

fn c07() -> Vec<Section> {
    vec![
        generated("grow", "an index with up to 6 documents and one more, new or known by its key; non-trivial: there are documents before, and the new one has text", 9000, 140_000,
            || index_case(GENERAL).prop_flat_map(|case| {
                let t = lang_text(&text_code(&case.lang), 9);
                (Just(case), refs(), vec(t, 0..6), proptest::option::weighted(0.3, any::<u16>()))
            }).prop_map(|(case, r, data, update)| Growing { case, extra: Doc { r, data }, update }).boxed(),
            |g: &Growing, o| {
                let mut x = g.extra.clone();
                match g.update {
                    Some(u) if !g.case.docs.is_empty() => x.r = g.case.docs[u as usize % g.case.docs.len()].r.clone(),
                    _ => while g.case.docs.iter().any(|d| d.r == x.r) { x.r.push('+') },
                }
                c07_check(&g.case, &x, o)
            }),
        generated("scale", SCALE, 120, 1500, || (scale(), any::<bool>()).boxed(), |(s, update): &(Scale, bool), o| {
            let mut c = s.case();
            let mut x = c.docs.pop().unwrap();
            if *update && !c.docs.is_empty() {
                x.r = c.docs[0].r.clone();
            }
            c07_check(&c, &x, o)?;
            c07_samples(&c)
        }),
        huge_section(&["documents", "terms", "again", "key"], |c, o| {
            let mut c = c.clone();
            let x = c.docs.pop().unwrap();
            c07_check(&c, &x, o)?;
            c07_samples(&c)
        }),
    ]
}

// ---------------------------------------------------------------- C08

fn c08_check(c: &IndexCase, o: &mut Obs) -> Verdict {
    let m = Model::of(c);
    classify(c, &m, o);
    let i = c.sut();
    let (compact, pretty) = (i.to_json(), i.to_json_pretty());
    let e = Export::read(&compact)?;
    ensure!(parse(&pretty)? == e.raw, "the pretty export is not the compact export");
    same_all(&e, &m)?;
    // members that elasticlunr.js reads are numbers it can use
    fn finite(j: &J) -> bool {
        match j {
            J::Num(n) => n.is_finite() && *n >= 0.0,
            J::Arr(v) => v.iter().all(finite),
            J::Obj(v) => v.iter().all(|x| finite(&x.1)),
            _ => true,
        }
    }
    ensure!(finite(&e.raw), "a number in the export is negative or not finite");
    let odd = |s: &str| s.chars().any(|c| c < ' ' || c == '"' || c == '\\');
    o.nontrivial(c.docs.iter().any(|d| odd(&d.r) || d.data.iter().any(|t| odd(t))) || c.fields.iter().any(|f| odd(&f.name)));
    Ok(())
}

fn c08() -> Vec<Section> {
    let rule: &'static str = Box::leak(format!("{CASE}a key, field name or text needs escaping in JSON").into_boxed_str());
    vec![
        generated("layout", rule, 14_000, 220_000, || index_case(GENERAL), c08_check),
        generated("hostile", "an index of a custom language that keeps whole texts as terms: field names, keys and terms are arbitrary Unicode; non-trivial: as above", 10_000, 160_000,
            || (vec(prop_oneof![field(), any_text(6)], 1..4).prop_map(distinct), vec((refs(), vec(prop_oneof![any_text(8), select(SPECIAL).prop_map(String::from)], 0..4)), 0..4), proptest::option::of(any_text(5)), any_text(6))
                .prop_map(|(names, docs, ref_field, lang)| {
                    let mut c = IndexCase {
                        lang: LangSpec::Custom { name: lang, code: "xx".into(), tok: TokSpec::Whole, fns: vec![] },
                        fields: names.into_iter().map(|name| FieldSpec { name, tok: None }).collect(),
                        ref_field, save: None, short: false,
                        docs: docs.into_iter().map(|(r, data)| Doc { r, data }).collect(),
                    };
                    c.normalise();
                    c
                }).boxed(),
            c08_check),
        generated("scale", SCALE, 240, 3000, scale, |s: &Scale, o| {
            o.nontrivial(true);
            c08_check(&s.case(), o)
        }),
        huge_section(HUGE, c08_check),
    ]
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Field(String),
    Tokenized(String, TokSpec),
    Fields(Vec<String>),
    Ref(String),
    Save(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Building {
    lang: String,
    steps: Vec<Step>,
    docs: Vec<Doc>,
    how: u8,
}

fn add(i: &mut Index, how: u8, r: &str, data: &[String]) {
    match how % 5 {
        0 => i.add_doc(r, data),
        1 => i.add_doc(r, data.to_vec()),
        2 => i.add_doc(r, data.iter().map(|s| s.as_str()).collect::<Vec<&str>>()),
        3 => i.add_doc(r, data.iter().map(|s| s.as_str())),
        _ => i.add_doc(r, data.iter().cloned().collect::<std::collections::VecDeque<_>>()),
    }
}

/// Very many fields.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    n: usize,
    /// the ways in which they are added, by turns
    ways: Vec<u8>,
    /// one field is named like another
    dup: Option<(u16, u16)>,
    saved: bool,
}

fn c21_wide(w: &Wide, o: &mut Obs) -> Verdict {
    o.nontrivial(w.n >= 20);
    let way = |k: usize| w.ways[k % w.ways.len()];
    let mut names: Vec<String> = (0..w.n).map(|k| format!("f{k}")).collect();
    let mut dup = false;
    if let (Some((a, b)), true) = (w.dup, w.n > 1) {
        let (a, b) = (a as usize % w.n, b as usize % w.n);
        dup = a != b;
        names[b] = names[a].clone();
    }
    o.label_if(dup, "a repeated field name");
    let built = guarded(|| {
        let mut b = IndexBuilder::new().save_docs(w.saved);
        let mut k = 0;
        while k < w.n {
            b = match way(k) {
                0 => b.add_field(&names[k]),
                1 => b.add_field_with_tokenizer(&names[k], Box::new(move |_: &str| vec![format!("t{k}q"), "fox".into()])),
                _ => {
                    let end = (k + 5).min(w.n);
                    let some = &names[k..end];
                    k = end - 1;
                    b.add_fields(some)
                }
            };
            k += 1;
        }
        b.build()
    });
    let mut i = match (built, dup) {
        (Ok(i), false) => i,
        (Err(_), true) => return Ok(()),
        (Ok(_), true) => return Err(format!("a repeated field name was accepted among {}", w.n)),
        (Err(e), false) => return Err(format!("{} distinct field names were refused: {e}", w.n)),
    };
    ensure!(i.get_fields() == names.as_slice(), "get_fields() is {:?}", i.get_fields());
    i.add_doc("1", (0..w.n).map(|k| format!("w{k}q wolf")));
    let e = export(&i)?;
    ensure!(e.fields == names, "the export's fields are {:?}", e.fields);
    // the ways as they came
    let mut k = 0;
    while k < w.n {
        let (end, own) = match way(k) { 0 => (k + 1, false), 1 => (k + 1, true), _ => ((k + 5).min(w.n), false) };
        for j in k..end {
            let want: BTreeSet<String> = if own { [format!("t{j}q"), "fox".into()] } else { [format!("w{j}q"), "wolf".into()] }.into_iter().collect();
            let got: BTreeSet<String> = e.terms[&names[j]].iter().filter(|t| !t.1.docs.is_empty()).map(|t| t.0.clone()).collect();
            ensure!(got == want, "field {j} of {}, {} tokenizer of its own, holds {got:?}, expected {want:?}", w.n, if own { "with a" } else { "without a" });
            ensure!(!w.saved || e.docs["1"].get(&names[j]) == Some(&format!("w{j}q wolf")), "field {j} of {} stores {:?}", w.n, e.docs["1"].get(&names[j]));
        }
        k = end;
    }
    Ok(())
}

fn c21() -> Vec<Section> {
    let step = || {
        prop_oneof![
            4 => field().prop_map(Step::Field),
            4 => (field(), tok_spec()).prop_map(|(f, t)| Step::Tokenized(f, t)),
            2 => vec(field(), 0..4).prop_map(Step::Fields),
            1 => field().prop_map(Step::Ref),
            1 => any::<bool>().prop_map(Step::Save),
        ]
    };
    // mostly distinct names: the panic is the rarer outcome
    let tidy = |steps: Vec<Step>| -> Vec<Step> {
        let mut seen: Vec<String> = vec![];
        let mut fix = |s: String| {
            let mut s = s;
            while seen.contains(&s) {
                s.push('\'');
            }
            seen.push(s.clone());
            s
        };
        steps
            .into_iter()
            .map(|s| match s {
                Step::Field(f) => Step::Field(fix(f)),
                Step::Tokenized(f, t) => Step::Tokenized(fix(f), t),
                Step::Fields(v) => Step::Fields(v.into_iter().map(&mut fix).collect()),
                s => s,
            })
            .collect()
    };
    vec![
        generated("wide", "up to 1200 numbered fields, added one by one, with tokenizers or five at once, one of them perhaps named like another; non-trivial: 20 or more", 300, 4000,
            || (size(1200), vec(0u8..3, 1..9), proptest::option::weighted(0.2, any::<(u16, u16)>()), any::<bool>()).prop_map(|(n, ways, dup, saved)| Wide { n, ways, dup, saved }).boxed(), c21_wide),
        generated("builder", "a sequence of 0-8 builder calls (fields with and without a tokenizer, several at once, reference field, saving; one in four sequences may repeat a name) and up to 3 documents; non-trivial: three or more calls", 12_000, 180_000,
        move || {
            let code = prop_oneof![2 => Just("en".to_string()), 1 => light_code()];
            (code, vec(step(), 0..8), any::<u8>(), 0u8..4).prop_flat_map(move |(lang, steps, how, messy)| {
                let t = lang_text(&lang, 7);
                let steps = if messy == 0 { steps } else { tidy(steps) };
                let steps: Vec<Step> = steps.into_iter().map(|s| match s {
                    Step::Tokenized(f, t) => Step::Tokenized(f, t.for_lang(&lang)),
                    s => s,
                }).collect();
                (Just(lang), Just(steps), vec((refs(), vec(t, 0..8)), 0..3), Just(how))
            }).prop_map(|(lang, steps, docs, how)| Building {
                lang, steps, how, docs: docs.into_iter().map(|(r, data)| Doc { r, data }).collect(),
            }).boxed()
        },
        |b: &Building, o| {
            let mut fields: Vec<FieldSpec> = vec![];
            let (mut save, mut ref_field) = (None, None);
            let mut dup = false;
            let mut put = |name: &String, tok: Option<TokSpec>, dup: &mut bool| {
                *dup |= fields.iter().any(|f| f.name == *name);
                fields.push(FieldSpec { name: name.clone(), tok });
            };
            for s in &b.steps {
                match s {
                    Step::Field(f) => put(f, None, &mut dup),
                    Step::Tokenized(f, t) => put(f, Some(t.clone()), &mut dup),
                    Step::Fields(v) => v.iter().for_each(|f| put(f, None, &mut dup)),
                    Step::Ref(r) => ref_field = Some(r.clone()),
                    Step::Save(s) => save = Some(*s),
                }
            }
            o.nontrivial(b.steps.len() >= 3);
            o.label_if(dup, "a repeated field name");
            let steps = b.steps.clone();
            let lang = b.lang.clone();
            let how = b.how;
            let built = guarded(move || {
                let mut x = if lang == "en" && how % 2 == 0 { IndexBuilder::new() } else { IndexBuilder::with_language(builtin(&lang)) };
                for s in steps {
                    x = match s {
                        Step::Field(f) => x.add_field(&f),
                        Step::Tokenized(f, t) => x.add_field_with_tokenizer(&f, Box::new(move |s: &str| t.sut(s))),
                        Step::Fields(v) if how % 3 == 0 => x.add_fields(v),
                        Step::Fields(v) => x.add_fields(v.iter()),
                        Step::Ref(r) => x.set_ref(&r),
                        Step::Save(s) => x.save_docs(s),
                    };
                }
                x.build()
            });
            let mut i = match (built, dup) {
                (Ok(i), false) => i,
                (Err(_), true) => return Ok(()),
                (Ok(_), true) => return Err("a repeated field name was accepted".into()),
                (Err(e), false) => return Err(format!("distinct field names were refused: {e}")),
            };
            let mut case = IndexCase { lang: LangSpec::Builtin(b.lang.clone()), fields, ref_field, save, short: false, docs: b.docs.clone() };
            case.normalise();
            let names: Vec<&str> = case.fields.iter().map(|f| f.name.as_str()).collect();
            ensure!(i.get_fields() == names.as_slice(), "get_fields() is {:?}, expected {names:?}", i.get_fields());
            for (n, d) in case.docs.iter().enumerate() {
                add(&mut i, b.how.wrapping_add(n as u8), &d.r, &d.data);
            }
            ensure!(i.get_fields() == names.as_slice(), "get_fields() changed");
            let m = Model::of(&case);
            classify(&case, &m, o);
            same_all(&export(&i)?, &m)
        }),
        generated("duplicates", "a list of up to 6 names given to Index::new and Index::with_language, half of them with a repeated name; non-trivial: two or more names", 6000, 60_000,
            || (vec(field(), 0..6), any::<bool>(), any::<Pick>(), any::<Pick>()).prop_map(|(v, dup, a, b)| {
                let mut v = distinct(v);
                if dup && !v.is_empty() {
                    let x = a.get(&v).clone();
                    let at = b.index(v.len() + 1);
                    v.insert(at, x);
                }
                v
            }).boxed(),
            |v: &Vec<String>, o| {
                o.nontrivial(v.len() >= 2);
                let dup = v.iter().collect::<HashSet<_>>().len() < v.len();
                o.label_if(dup, "a repeated field name");
                for k in 0..3 {
                    let v2 = v.clone();
                    let r = guarded(move || match k {
                        0 => Index::new(&v2),
                        1 => Index::with_language(builtin("ko"), v2.iter()),
                        _ => IndexBuilder::new().add_fields(v2).build(),
                    });
                    match r {
                        Ok(i) => {
                            ensure!(!dup, "the repeated field name in {v:?} was accepted");
                            ensure!(i.get_fields() == v.as_slice(), "get_fields() is {:?}, expected {v:?}", i.get_fields());
                        }
                        Err(e) => ensure!(dup, "distinct field names {v:?} were refused: {e}"),
                    }
                }
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Reload {
    case: IndexCase,
    more: Vec<Doc>,
    how: u8,
}

/// Reading an index back.  The second implementation is chosen when `Index` can only be read
/// from input that lives forever, which no program has.
struct Reader<T>(std::marker::PhantomData<T>);
trait Owned<T> {
    fn load(&self, how: u8, i: &Index) -> Result<T, String>;
    fn bytes(&self, t: &[u8]) -> Result<T, String>;
}
#[allow(dead_code)]
trait Borrowed<T> {
    fn load(&self, _how: u8, _i: &Index) -> Result<T, String> {
        Err("an index can only be read from 'static input".into())
    }
    fn bytes(&self, _t: &[u8]) -> Result<T, String> {
        Err("an index can only be read from 'static input".into())
    }
}
impl<T: serde::de::DeserializeOwned> Owned<T> for &Reader<T> {
    fn load(&self, how: u8, i: &Index) -> Result<T, String> {
        let e = |e: serde_json::Error| format!("the export is refused: {e}");
        match how % 5 {
            0 => serde_json::from_str(&i.to_json()).map_err(e),
            1 => serde_json::from_str(&i.to_json_pretty()).map_err(e),
            2 => serde_json::from_slice(i.to_json().as_bytes()).map_err(e),
            3 => serde_json::from_reader(i.to_json().as_bytes()).map_err(e),
            _ => serde_json::from_value(serde_json::to_value(i).map_err(e)?).map_err(e),
        }
    }
    fn bytes(&self, t: &[u8]) -> Result<T, String> {
        serde_json::from_slice(t).map_err(|e| e.to_string())
    }
}
impl<T> Borrowed<T> for Reader<T> {}

fn load(how: u8, i: &Index) -> Result<Index, String> {
    (&&Reader::<Index>(std::marker::PhantomData)).load(how, i)
}

fn load_bytes(t: &[u8]) -> Result<Index, String> {
    (&&Reader::<Index>(std::marker::PhantomData)).bytes(t)
}

/// The known finding deep-reload: a text that nests 128 levels is refused for its depth, and for
/// nothing else.  The rest of the case goes on with a form that has no limit.
fn load_known(how: u8, i: &Index, o: &mut Obs) -> Result<Index, String> {
    match load(how, i) {
        Err(e) if how % 5 != 4 && e.contains("recursion limit exceeded") && parse(&i.to_json())?.depth() >= 128 => {
            o.known("deep-reload");
            load(4, i)
        }
        r => r,
    }
}

fn c22_check(x: &Reload, o: &mut Obs) -> Verdict {
    let mut c = x.case.clone();
    for f in &mut c.fields {
        f.tok = None;
    }
    let mut a = c.sut();
    let mut b = load_known(x.how, &a, o)?;
    let same = |a: &Index, b: &Index, when: &str| -> Verdict {
        let (p, q) = (parse(&a.to_json())?, parse(&b.to_json())?);
        if !p.same(&q, 1e-12) {
            return Err(format!("{when}: reloaded index {} differs from the original {}", q.brief(), p.brief()));
        }
        Ok(())
    };
    same(&a, &b, "after reloading")?;
    ensure!(a.get_fields() == b.get_fields(), "get_fields() differs after reloading");
    let mut all = c.clone();
    all.docs.extend(x.more.clone());
    all.normalise();
    o.nontrivial(c.docs.iter().any(|d| d.data.iter().any(|t| !t.is_empty())) && !x.more.is_empty());
    o.label_if(!x.more.is_empty(), "documents added after reloading");
    for d in &all.docs[c.docs.len()..] {
        a.add_doc(&d.r, &d.data);
        b.add_doc(&d.r, &d.data);
    }
    same(&a, &b, "after adding documents to both")?;
    let b2 = load_known(x.how.wrapping_add(1), &b, o)?;
    same(&a, &b2, "after reloading again")?;
    same_all(&export(&b2)?, &Model::of(&all))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Broken {
    case: IndexCase,
    edits: Vec<(u16, u8, u8)>,
}

fn c22() -> Vec<Section> {
    let sh = Shape { custom: 0, toks: 0, ..GENERAL };
    vec![
        generated("reload", "an index of a built-in language with up to 6 documents, read back from one of its five forms, and up to 3 further documents added to both; non-trivial: text before and documents after", 4000, 100_000,
            move || index_case(sh).prop_flat_map(|case| {
                let t = lang_text(&text_code(&case.lang), 7);
                (Just(case), vec((refs(), vec(t, 0..6)), 0..3), any::<u8>())
            }).prop_map(|(case, more, how)| Reload { case, how, more: more.into_iter().map(|(r, data)| Doc { r, data }).collect() }).boxed(),
            c22_check),
        generated("scale", SCALE, 60, 800, || (scale(), any::<u8>()).boxed(), |(s, how): &(Scale, u8), o| {
            let mut s = s.clone();
            // reading back takes time quadratic in the depth
            s.docs = s.docs.min(700);
            s.tokens = s.tokens.min(700);
            s.vocab.truncate(3);
            let case = s.case();
            let more = vec![Doc { r: "doc0".into(), data: vec![s.vocab[0].clone()] }, Doc { r: "new".into(), data: vec![s.vocab[0].clone()] }];
            o.label_if(s.docs >= 100, "100 or more documents");
            c22_check(&Reload { case, more, how: *how }, o)
        }),
        enumerated("long-words", "one document with a word of 1-400 letters in English or Korean, in each form; non-trivial: 100 or more letters",
            |_| [1usize, 10, 60, 100, 110, 115, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 140, 200, 400].iter().flat_map(|n| (0u8..10).map(move |k| (*n, k))).collect(),
            |(n, k): &(usize, u8), o| {
                let case = IndexCase {
                    lang: LangSpec::Builtin(if *k < 5 { "en" } else { "ko" }.into()), fields: vec![FieldSpec { name: "body".into(), tok: None }], ref_field: None, save: None, short: true,
                    docs: vec![Doc { r: "1".into(), data: vec!["k".repeat(*n)] }],
                };
                let r = c22_check(&Reload { case, more: vec![], how: *k }, o);
                o.nontrivial(*n >= 100);
                r
            }),
        generated("parts", "a document store and an inverted index driven by up to 20 operations, read back from JSON; non-trivial: 5 or more operations", 10_000, 140_000,
            || (vec((0u8..5, refs(), letters("en", 4), 0usize..9), 0..20), any::<bool>()).boxed(),
            |(ops, save): &(Vec<(u8, String, String, usize)>, bool), o| {
                o.nontrivial(ops.len() >= 5);
                let mut s = DocumentStore::new(*save);
                let mut ii = InvertedIndex::new();
                for (k, r, w, n) in ops {
                    match k {
                        0 | 1 => {
                            s.add_doc(r, [(w.clone(), r.clone())].into_iter().collect());
                            ii.add_token(r, w, *n as f64);
                        }
                        2 => s.add_field_length(r, w, *n),
                        3 => ii.add_token(r, w, *n as f64 + 0.5),
                        _ => {
                            s.remove_doc(r);
                            ii.remove_token(r, w);
                        }
                    }
                }
                let text = |s: &DocumentStore| serde_json::to_string(s).map_err(|e| e.to_string());
                for (how, s2) in all_forms::<DocumentStore>(&text(&s)?) {
                    let mut s2 = s2.map_err(|e| format!("document store, {how}: {e}"))?;
                    ensure!((s.save, s.length, &s.docs, &s.doc_info) == (s2.save, s2.length, &s2.docs, &s2.doc_info), "document store {s:?} is read back {how} as {s2:?}");
                    let mut s = s.clone();
                    for (k, r, w, n) in ops.iter().take(4) {
                        for s in [&mut s, &mut s2] {
                            match k {
                                0 | 1 => s.add_doc(w, [(r.clone(), w.clone())].into_iter().collect()),
                                2 | 3 => s.add_field_length(r, r, *n),
                                _ => s.remove_doc(r),
                            }
                        }
                    }
                    ensure!(text(&s)? == text(&s2)?, "after further operations the document store is {s:?}, read back {how} {s2:?}");
                }
                let text = |i: &InvertedIndex| serde_json::to_string(i).map_err(|e| e.to_string());
                for (how, i2) in all_forms::<InvertedIndex>(&text(&ii)?) {
                    let mut i2 = i2.map_err(|e| format!("inverted index, {how}: {e}"))?;
                    ensure!(ii == i2, "inverted index {ii:?} is read back {how} as {i2:?}");
                    let mut i: InvertedIndex = serde_json::from_str(&text(&ii)?).map_err(|e| e.to_string())?;
                    for (k, r, w, n) in ops.iter().take(4) {
                        for i in [&mut i, &mut i2] {
                            if k % 2 == 0 { i.remove_token(r, w) } else { i.add_token(w, r, *n as f64) }
                        }
                    }
                    ensure!(i == i2 && text(&i)? == text(&i2)?, "after further operations the inverted index is {i:?}, read back {how} {i2:?}");
                }
                Ok(())
            }),
        generated("refuses", "the export of an index with up to 3 bytes changed, removed or doubled, or cut short; it is refused, or accepted and exports valid JSON; non-trivial: it is refused", 8000, 150_000,
            || (index_case(Shape { custom: 10, toks: 0, only: None, words: 3, docs: 2, ..GENERAL }), vec((any::<u16>(), 0u8..5, any::<u8>()), 1..4)).prop_map(|(case, edits)| Broken { case, edits }).boxed(),
            |b: &Broken, o| {
                let mut t = b.case.sut().to_json().into_bytes();
                for (at, k, x) in &b.edits {
                    if t.is_empty() {
                        break;
                    }
                    let i = *at as usize % t.len();
                    match k {
                        0 => t[i] = *x,
                        1 => { t.remove(i); }
                        2 => t.insert(i, *x),
                        3 => { let c = t[i]; t.insert(i, c); }
                        _ => t.truncate(i),
                    }
                }
                match load_bytes(&t) {
                    Err(_) => o.nontrivial(true),
                    Ok(i) => { parse(&i.to_json())?; }
                }
                Ok(())
            }),
    ]
}
