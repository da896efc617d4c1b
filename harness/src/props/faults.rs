//! C28: additions that fail part way.

use super::index::{ensure_rest, without, ORACLE};
use super::Prop;
use crate::ensure;
use crate::engine::*;
use crate::gen_index::*;
use crate::oracle::model::*;
use crate::sut::*;
use elasticlunr::pipeline::PipelineFn;
use elasticlunr::{Index, IndexBuilder, Language, Pipeline};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C28", sections: c28, assumptions: &[ORACLE, "the caller catches the panic and goes on using the index"] }]
}

/// Counts calls, and panics at one of them.
#[derive(Default)]
struct Fuse {
    seen: Cell<u64>,
    at: Cell<u64>,
}

impl Fuse {
    fn burn(&self) {
        self.seen.set(self.seen.get() + 1);
        if self.seen.get() == self.at.get() {
            // past the panic hook, which is there for the panics of others
            std::panic::resume_unwind(Box::new("injected fault"));
        }
    }
    /// Panics at the `n`-th call from now; never for 0.
    fn arm(&self, n: u64) {
        self.seen.set(0);
        self.at.set(n);
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Place {
    /// The language's or a field's tokenizer.
    Tokenizer,
    /// A function of the pipeline.
    Stage,
    /// The iterator that yields the texts.
    Texts,
    /// A text's conversion to `&str`.
    Text,
    /// More texts than fields.
    Extra,
    /// The name of the language or of a pipeline function.
    Name,
}

const PLACES: &[Place] = &[Place::Tokenizer, Place::Stage, Place::Texts, Place::Text, Place::Extra, Place::Name];
const ADDING: &[Place] = &[Place::Tokenizer, Place::Stage, Place::Texts, Place::Text, Place::Extra];

#[derive(Default)]
struct Fuses([Fuse; 6]);
impl Fuses {
    fn of(&self, p: Place) -> &Fuse {
        &self.0[PLACES.iter().position(|q| *q == p).unwrap()]
    }
    fn disarm(&self) {
        self.0.iter().for_each(|f| f.arm(0));
    }
}

struct Faulty(Box<dyn Language>, Rc<Fuses>);
impl Language for Faulty {
    fn name(&self) -> String {
        self.1.of(Place::Name).burn();
        self.0.name()
    }
    fn code(&self) -> String {
        self.0.code()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        self.1.of(Place::Tokenizer).burn();
        self.0.tokenize(text)
    }
    fn make_pipeline(&self) -> Pipeline {
        let queue = self.0.make_pipeline().queue.into_iter().map(|f| Box::new(FaultyFn(f, self.1.clone())) as Box<dyn PipelineFn>).collect();
        Pipeline { queue }
    }
}

struct FaultyFn(Box<dyn PipelineFn>, Rc<Fuses>);
impl PipelineFn for FaultyFn {
    fn name(&self) -> String {
        self.1.of(Place::Name).burn();
        self.0.name()
    }
    fn filter(&self, t: String) -> Option<String> {
        self.1.of(Place::Stage).burn();
        self.0.filter(t)
    }
}

struct FaultyText<'a>(&'a str, &'a Fuses);
impl AsRef<str> for FaultyText<'_> {
    fn as_ref(&self) -> &str {
        self.1.of(Place::Text).burn();
        self.0
    }
}

fn empty(c: &IndexCase, f: &Rc<Fuses>) -> Index {
    let mut b = IndexBuilder::with_language(Box::new(Faulty(c.lang.sut(), f.clone())));
    if let Some(s) = c.save {
        b = b.save_docs(s);
    }
    for x in &c.fields {
        b = match &x.tok {
            None => b.add_field(&x.name),
            Some(t) => {
                let (t, f) = (t.clone(), f.clone());
                b.add_field_with_tokenizer(&x.name, Box::new(move |s: &str| {
                    f.of(Place::Tokenizer).burn();
                    t.sut(s)
                }))
            }
        };
    }
    if let Some(r) = &c.ref_field {
        b = b.set_ref(r);
    }
    b.build()
}

fn add(i: &mut Index, d: &Doc, f: &Rc<Fuses>) {
    let texts = d.data.iter().map(|t| {
        f.of(Place::Texts).burn();
        FaultyText(t, f)
    });
    // the end of the texts is a call as well
    let end = std::iter::from_fn(|| {
        f.of(Place::Texts).burn();
        None
    });
    i.add_doc(&d.r, texts.chain(end));
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Again {
    /// At once, after as many failures as given.
    Now(u8),
    /// When all the other documents have been added.
    Later,
    Never,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Failing {
    case: IndexCase,
    doc: u16,
    place: Place,
    at: Vec<u16>,
    again: Again,
}

fn check(c: &Failing, o: &mut Obs) -> Verdict {
    if c.case.docs.is_empty() {
        return Ok(());
    }
    let k = c.doc as usize % c.case.docs.len();
    let d = &c.case.docs[k];
    let same = |x: &Doc| x.r == d.r;
    // an index in which nothing fails; how many calls the document takes
    let f = Rc::new(Fuses::default());
    let mut clean = empty(&c.case, &f);
    let mut calls = 0;
    for (n, x) in c.case.docs.iter().enumerate() {
        f.disarm();
        add(&mut clean, x, &f);
        if n == k {
            calls = f.of(c.place).seen.get();
        }
    }
    f.disarm();
    let f = Rc::new(Fuses::default());
    let mut i = empty(&c.case, &f);
    for x in &c.case.docs[..k] {
        add(&mut i, x, &f);
    }
    let before = Export::read(&i.to_json())?;
    let times = if let Again::Now(n) = c.again { n.max(1) as usize } else { 1 };
    let mut failed = false;
    for n in 0..times {
        let at = c.at[n % c.at.len()];
        let r = match c.place {
            Place::Extra => {
                let mut x = d.clone();
                while x.data.len() <= c.case.fields.len() {
                    x.data.push("apple".into());
                }
                // fewer texts than the document has: those given are the document's own
                let short = x.data.len() - 1 != d.data.len();
                if short {
                    None
                } else {
                    Some(guarded(|| add(&mut i, &x, &f)))
                }
            }
            p => {
                if calls == 0 {
                    None
                } else {
                    f.disarm();
                    f.of(p).arm(1 + at as u64 % calls);
                    Some(guarded(|| add(&mut i, d, &f)))
                }
            }
        };
        f.disarm();
        failed |= r.map_or(false, |r| r.is_err());
    }
    if !failed {
        return Ok(());
    }
    let known = c.case.docs[..k].iter().any(same);
    o.nontrivial(k > 0 && c.case.docs.len() > 1);
    o.label(match c.place {
        Place::Tokenizer => "a tokenizer fails",
        Place::Stage => "a pipeline function fails",
        Place::Texts => "the iterator of texts fails",
        Place::Text => "a text fails",
        Place::Extra | Place::Name => "more texts than fields",
    });
    o.label_if(known, "a document indexed again fails");
    o.label_if(times > 1, "it fails several times");
    let after = Export::read(&i.to_json())?;
    let (b, a) = (without(&before, &d.r), without(&after, &d.r));
    first_diff("after the failure: stored documents", &a.1, &b.1)?;
    first_diff("after the failure: field lengths", &a.2, &b.2)?;
    for (x, t) in &b.0 {
        first_diff(&format!("after the failure: postings of other documents in field {x:?}"), a.0.get(x).ok_or("a field is gone")?, t)?;
    }
    ensure_rest(&before, &after)?;
    for (x, t) in &after.terms {
        for (w, n) in t {
            ensure!(n.df == n.docs.len() as f64, "after the failure: field {x:?}, term {w:?}: df {} for {} documents", n.df, n.docs.len());
        }
    }
    ensure!(after.length == after.docs.len() as f64 && (before.docs.len()..=before.docs.len() + !known as usize).contains(&after.docs.len()), "after the failure: length {}, {} documents, {} before", after.length, after.docs.len(), before.docs.len());
    let rest = &c.case.docs[k + 1..];
    let again = match c.again {
        Again::Later if rest.iter().any(same) => Again::Now(1),
        x => x,
    };
    if let Again::Now(_) = again {
        add(&mut i, d, &f);
    }
    for x in rest {
        add(&mut i, x, &f);
    }
    if let Again::Later = again {
        add(&mut i, d, &f);
    }
    if again != Again::Never {
        o.label_if(again == Again::Later, "added again after others");
        let (got, want) = (i.to_json(), clean.to_json());
        ensure!(got == want, "with the document added again the index exports as {got}, where nothing failed as {want}");
    } else {
        o.label("never added again");
        let (got, want) = (Export::read(&i.to_json())?, Export::read(&clean.to_json())?);
        let (b, a) = (without(&want, &d.r), without(&got, &d.r));
        first_diff("with the failed document left out: stored documents", &a.1, &b.1)?;
        first_diff("with the failed document left out: field lengths", &a.2, &b.2)?;
        for (x, t) in &b.0 {
            first_diff(&format!("with the failed document left out: postings in field {x:?}"), a.0.get(x).ok_or("a field is gone")?, t)?;
        }
    }
    Ok(())
}

/// Takes a number of bytes, in pieces, and then fails.
struct Sink {
    got: Vec<u8>,
    room: usize,
    piece: usize,
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.got.len() >= self.room {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.piece).min(self.room - self.got.len());
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FailingExport {
    case: IndexCase,
    /// How many documents are added before.
    docs: u16,
    at: u16,
    /// A name that fails, or a writer that takes pieces of this many bytes and fails.
    writer: Option<u8>,
    pretty: bool,
}

fn check_export(c: &FailingExport, o: &mut Obs) -> Verdict {
    let f = Rc::new(Fuses::default());
    let clean = |n: usize| {
        let f = Rc::new(Fuses::default());
        let mut i = empty(&c.case, &f);
        c.case.docs[..n].iter().for_each(|d| add(&mut i, d, &f));
        i
    };
    let k = c.docs as usize % (c.case.docs.len() + 1);
    let text = |i: &Index| if c.pretty { i.to_json_pretty() } else { i.to_json() };
    let want = text(&clean(k));
    let mut i = empty(&c.case, &f);
    c.case.docs[..k].iter().for_each(|d| add(&mut i, d, &f));
    o.nontrivial(k > 0);
    match c.writer {
        None => {
            o.label("a name fails");
            f.disarm();
            text(&i);
            let calls = f.of(Place::Name).seen.get();
            f.of(Place::Name).arm(1 + c.at as u64 % calls.max(1));
            let r = guarded(|| text(&i));
            f.disarm();
            ensure!(r.is_err() || calls == 0 || r == Ok(want.clone()), "an export in which a name fails is another text");
        }
        Some(piece) => {
            o.label("a writer fails");
            for room in [c.at as usize % want.len().max(1), want.len()] {
                let mut s = Sink { got: vec![], room, piece: piece as usize + 1 };
                let r = guarded(|| if c.pretty { serde_json::to_writer_pretty(&mut s, &i) } else { serde_json::to_writer(&mut s, &i) })?;
                ensure!(r.is_ok() == (room == want.len()), "exporting to a writer with room for {room} of {} bytes gives {r:?}", want.len());
                ensure!(s.got == want.as_bytes()[..room], "a writer with room for {room} of {} bytes got others", want.len());
            }
        }
    }
    let got = text(&i);
    ensure!(got == want, "after an export that failed the index exports as {got}, before as {want}");
    c.case.docs[k..].iter().for_each(|d| add(&mut i, d, &f));
    let (got, want) = (text(&i), text(&clean(c.case.docs.len())));
    ensure!(got == want, "after an export that failed and more documents the index exports as {got}, without as {want}");
    Ok(())
}

fn c28() -> Vec<Section> {
    let case = |sh: Shape, places: &'static [Place]| {
        move || (index_case(sh), any::<u16>(), select(places), vec(any::<u16>(), 3), prop_oneof![3 => (1u8..4).prop_map(Again::Now), 2 => Just(Again::Later), 1 => Just(Again::Never)])
            .prop_map(|(case, doc, place, at, again)| Failing { case, doc, place, at, again })
            .boxed()
    };
    vec![
        generated("failing-addition", "an index of which one document's addition panics, at any call of a tokenizer, pipeline function, the iterator of texts or a text's conversion, or for too many texts, once or more; it is added again at once, later or never; non-trivial: there are documents before it", 12_000, 200_000,
            case(GENERAL, ADDING), check),
        generated("failing-stage", "the same with many words in few fields, and a failing pipeline function or tokenizer; non-trivial: there are documents before it", 6000, 100_000,
            case(Shape { words: 30, docs: 4, custom: 50, ..GENERAL }, &PLACES[..2]), check),
        generated("failing-export", "an index whose export fails, because the writer does after some bytes or the name of the language or a pipeline function panics; it is exported again, and documents are added; non-trivial: it has documents", 4000, 60_000,
            || (index_case(GENERAL), any::<u16>(), any::<u16>(), prop_oneof![1 => Just(None), 2 => any::<u8>().prop_map(Some)], any::<bool>())
                .prop_map(|(case, docs, at, writer, pretty)| FailingExport { case, docs, at, writer, pretty }).boxed(),
            check_export),
    ]
}
