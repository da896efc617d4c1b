//! Cases at the level of an index, and how to run them on the crate under test.

use crate::oracle::lang::{is_space, reference, tokenize_whitespace as ref_ws, trim};
use elasticlunr::lang::common::{RegexTrimmer, StopWordFilter};
use elasticlunr::pipeline::PipelineFn;
use elasticlunr::{Index, IndexBuilder, Language, Pipeline};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TokSpec {
    /// Split at a character; empty pieces are kept out.
    Split(char),
    /// The whole text, unless empty.
    Whole,
    /// Every character that is not white space.
    Chars,
    /// White-space words and adjacent pairs of them, as written.
    Bigrams,
    /// The same tokens whatever the text is.
    Fixed(Vec<String>),
    /// The crate's own whitespace tokenizer.
    Whitespace,
    /// No tokens at all.
    Nothing,
}

impl TokSpec {
    fn common(&self, text: &str) -> Option<Vec<String>> {
        Some(match self {
            TokSpec::Split(c) => text.split(*c).filter(|s| !s.is_empty()).map(String::from).collect(),
            TokSpec::Whole => if text.is_empty() { vec![] } else { vec![text.to_string()] },
            TokSpec::Chars => text.chars().filter(|c| !is_space(*c)).map(String::from).collect(),
            TokSpec::Bigrams => {
                let w: Vec<&str> = text.split(is_space).filter(|s| !s.is_empty()).collect();
                let mut v: Vec<String> = w.iter().map(|s| s.to_string()).collect();
                v.extend(w.windows(2).map(|p| p.join(" ")));
                v
            }
            TokSpec::Fixed(v) => v.clone(),
            TokSpec::Nothing => vec![],
            TokSpec::Whitespace => return None,
        })
    }
    pub fn sut(&self, text: &str) -> Vec<String> {
        self.common(text).unwrap_or_else(|| elasticlunr::lang::tokenize_whitespace(text))
    }
    pub fn model(&self, text: &str) -> Vec<String> {
        self.common(text).unwrap_or_else(|| ref_ws(text))
    }
}

/// A pipeline function of a custom language.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FnSpec {
    Upper,
    Append(String),
    DropIf(char),
    Truncate(usize),
    MinLen(usize),
    Reverse,
    /// The crate's own building blocks.
    Stop(Vec<String>),
    /// The characters that make up words; they are escaped for the crate's class syntax.
    Trim(String),
}

impl TokSpec {
    /// For Arabic, tokenizers that can join two words are replaced: such a token may hold two
    /// alef variants, the known finding `arabic-alef`, which C13 judges.
    pub fn for_lang(self, code: &str) -> TokSpec {
        match self {
            TokSpec::Split(_) | TokSpec::Whole | TokSpec::Bigrams if code == "ar" => TokSpec::Chars,
            t => t,
        }
    }
}

impl FnSpec {
    pub fn name(&self, i: usize) -> String {
        match self {
            FnSpec::Upper => "upper".into(),
            FnSpec::Append(s) => format!("append-{s}"),
            FnSpec::DropIf(c) => format!("drop \"{c}\""),
            FnSpec::Truncate(n) => format!("truncate-{n}"),
            FnSpec::MinLen(n) => format!("min-{n}"),
            FnSpec::Reverse => "reverse".into(),
            FnSpec::Stop(_) => format!("stop-{i}"),
            FnSpec::Trim(_) => format!("trim-{i}"),
        }
    }
    /// Reference meaning.
    pub fn model(&self, t: String) -> Option<String> {
        match self {
            FnSpec::Stop(w) => (!w.contains(&t)).then_some(t),
            FnSpec::Trim(cls) => {
                let r = trim(&t, &|c| cls.contains(c));
                (!r.is_empty()).then(|| r.to_string())
            }
            _ => self.plain(t),
        }
    }
    fn plain(&self, t: String) -> Option<String> {
        match self {
            FnSpec::Upper => Some(t.to_uppercase()),
            FnSpec::Append(s) => Some(t + s),
            FnSpec::DropIf(c) => (!t.contains(*c)).then_some(t),
            FnSpec::Truncate(n) => Some(t.chars().take(*n).collect()),
            FnSpec::MinLen(n) => (t.chars().count() >= *n).then_some(t),
            FnSpec::Reverse => Some(t.chars().rev().collect()),
            _ => unreachable!(),
        }
    }
    pub fn sut(&self, i: usize) -> Box<dyn PipelineFn> {
        match self {
            FnSpec::Stop(w) => {
                let w: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
                Box::new(StopWordFilter::new(&self.name(i), &w))
            }
            FnSpec::Trim(cls) => Box::new(RegexTrimmer::new(&self.name(i), &class_text(cls))),
            _ => Box::new(Plain(self.clone(), i)),
        }
    }
}

/// `cls` as the inside of a regex character class.
pub fn class_text(cls: &str) -> String {
    cls.chars().map(|c| format!("\\x{{{:x}}}", c as u32)).collect()
}

struct Plain(FnSpec, usize);
impl PipelineFn for Plain {
    fn name(&self) -> String {
        self.0.name(self.1)
    }
    fn filter(&self, t: String) -> Option<String> {
        self.0.plain(t)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum LangSpec {
    Builtin(String),
    Custom { name: String, code: String, tok: TokSpec, fns: Vec<FnSpec> },
}

impl LangSpec {
    pub fn name(&self) -> String {
        match self {
            LangSpec::Builtin(c) => crate::oracle::lang::name_of(c).into(),
            LangSpec::Custom { name, .. } => name.clone(),
        }
    }
    pub fn pipeline(&self) -> Vec<String> {
        match self {
            LangSpec::Builtin(c) => reference(c).stages().into_iter().map(|x| x.1).collect(),
            LangSpec::Custom { fns, .. } => fns.iter().enumerate().map(|(i, f)| f.name(i)).collect(),
        }
    }
    pub fn tokenize(&self, text: &str) -> Vec<String> {
        match self {
            LangSpec::Builtin(c) => reference(c).tokenize(text),
            LangSpec::Custom { tok, .. } => tok.model(text),
        }
    }
    pub fn run(&self, t: &str) -> Option<String> {
        match self {
            LangSpec::Builtin(c) => reference(c).run(t),
            LangSpec::Custom { fns, .. } => fns.iter().try_fold(t.to_string(), |t, f| f.model(t)),
        }
    }
    pub fn sut(&self) -> Box<dyn Language> {
        match self {
            LangSpec::Builtin(c) => builtin(c),
            LangSpec::Custom { name, code, tok, fns } => Box::new(Custom {
                name: name.clone(),
                code: code.clone(),
                tok: tok.clone(),
                fns: fns.clone(),
            }),
        }
    }
}

struct Custom {
    name: String,
    code: String,
    tok: TokSpec,
    fns: Vec<FnSpec>,
}
impl Language for Custom {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn code(&self) -> String {
        self.code.clone()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        self.tok.sut(text)
    }
    fn make_pipeline(&self) -> Pipeline {
        Pipeline { queue: self.fns.iter().enumerate().map(|(i, f)| f.sut(i)).collect() }
    }
}

/// Delegates to one instance per thread: building the Chinese and Japanese dictionaries anew
/// for every case would leave little time for cases.
struct Shared(Rc<dyn Language>);
impl Language for Shared {
    fn name(&self) -> String {
        self.0.name()
    }
    fn code(&self) -> String {
        self.0.code()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        self.0.tokenize(text)
    }
    fn make_pipeline(&self) -> Pipeline {
        self.0.make_pipeline()
    }
}

thread_local! {
    static LANGS: RefCell<HashMap<String, Rc<dyn Language>>> = RefCell::default();
}

/// The crate's own language, one instance per thread.
pub fn shared(code: &str) -> Rc<dyn Language> {
    LANGS.with(|m| {
        m.borrow_mut()
            .entry(code.to_string())
            .or_insert_with(|| fresh(code).into())
            .clone()
    })
}

macro_rules! constructors {
    ($( $code:literal $t:ident $(, $c:ident)? ; )+) => {
        /// A new instance of the crate's own language.
        pub fn fresh(code: &str) -> Box<dyn Language> {
            use elasticlunr::lang::*;
            match code {
                $( $code => Box::new($t::new()), )+
                _ => panic!("no such language"),
            }
        }
        /// One by `Default`.
        pub fn by_default(code: &str) -> Box<dyn Language> {
            use elasticlunr::lang::*;
            match code {
                $( $code => Box::new($t::default()), )+
                _ => panic!("no such language"),
            }
        }
        /// A clone of an instance that has been used on a text, and that instance.
        pub fn by_clone(code: &str, text: &str) -> Option<(Box<dyn Language>, Box<dyn Language>)> {
            use elasticlunr::lang::*;
            match code {
                $( $code => {
                    let l = $t::new();
                    l.make_pipeline().run(l.tokenize(text));
                    $( let $c = l.clone(); return Some((Box::new($c), Box::new(l))); )?
                    #[allow(unreachable_code)]
                    { let _ = l; None }
                } )+
                _ => panic!("no such language"),
            }
        }
    };
}

constructors! {
    "en" English, c; "ar" Arabic; "zh" Chinese, c; "da" Danish, c; "du" Dutch, c; "fi" Finnish, c;
    "fr" French, c; "de" German, c; "hu" Hungarian, c; "it" Italian, c; "ja" Japanese, c; "ko" Korean, c;
    "no" Norwegian, c; "pt" Portuguese, c; "ro" Romanian, c; "ru" Russian, c; "es" Spanish, c;
    "sv" Swedish, c; "tr" Turkish, c;
}

pub fn builtin(code: &str) -> Box<dyn Language> {
    if code == "zh" || code == "ja" {
        Box::new(Shared(shared(code)))
    } else {
        fresh(code)
    }
}

/// The crate's processing of a text: its tokenizer, then its pipeline.
pub fn crate_process(code: &str, text: &str) -> Vec<String> {
    let l = shared(code);
    l.make_pipeline().run(l.tokenize(text))
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FieldSpec {
    pub name: String,
    pub tok: Option<TokSpec>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Doc {
    pub r: String,
    pub data: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct IndexCase {
    pub lang: LangSpec,
    pub fields: Vec<FieldSpec>,
    pub ref_field: Option<String>,
    pub save: Option<bool>,
    /// Use `Index::new`/`Index::with_language` where they can express the case.
    pub short: bool,
    pub docs: Vec<Doc>,
}

impl IndexCase {
    pub fn empty_sut(&self) -> Index {
        let plain = self.fields.iter().all(|f| f.tok.is_none()) && self.ref_field.is_none() && self.save.is_none();
        let names: Vec<&str> = self.fields.iter().map(|f| f.name.as_str()).collect();
        let english = self.lang == LangSpec::Builtin("en".into());
        if plain && self.short {
            return if english { Index::new(&names) } else { Index::with_language(self.lang.sut(), &names) };
        }
        let mut b = if english && self.short { IndexBuilder::new() } else { IndexBuilder::with_language(self.lang.sut()) };
        if let Some(s) = self.save {
            b = b.save_docs(s);
        }
        for f in &self.fields {
            b = match &f.tok {
                None => b.add_field(&f.name),
                Some(t) => {
                    let t = t.clone();
                    b.add_field_with_tokenizer(&f.name, Box::new(move |s: &str| t.sut(s)))
                }
            };
        }
        if let Some(r) = &self.ref_field {
            b = b.set_ref(r);
        }
        b.build()
    }

    pub fn sut(&self) -> Index {
        let mut i = self.empty_sut();
        for d in &self.docs {
            i.add_doc(&d.r, &d.data);
        }
        i
    }

    pub fn ref_name(&self) -> String {
        self.ref_field.clone().unwrap_or_else(|| "id".into())
    }

    /// The document's own key is the value of the reference field, when that field is one of
    /// the index's fields (elasticlunr.js reads the key from there).
    pub fn normalise(&mut self) {
        if let LangSpec::Builtin(code) = &self.lang {
            for f in &mut self.fields {
                f.tok = f.tok.take().map(|t| t.for_lang(code));
            }
        }
        // the field that is the reference field holds the key, as in elasticlunr.js, or any other
        // text: then that text is what is stored under its name
        let r = self.ref_name();
        if let Some(i) = self.fields.iter().position(|f| f.name == r) {
            for (n, d) in self.docs.iter_mut().enumerate() {
                if let Some(v) = d.data.get_mut(i).filter(|v| (v.len() + n) % 2 == 0) {
                    *v = d.r.clone();
                }
            }
        }
        let n = self.fields.len();
        for d in &mut self.docs {
            d.data.truncate(n);
        }
    }
}
