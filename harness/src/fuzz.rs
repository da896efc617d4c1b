//! Coverage-guided search (libFuzzer): bytes are decoded into the case of a section of a property,
//! which judges it as it judges generated ones.

use crate::engine::*;
use crate::gen::*;
use crate::oracle::porter;
use crate::props;
use crate::sut::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicPtr, Ordering};

#[derive(Clone, Copy)]
pub struct Target {
    pub id: &'static str,
    pub section: &'static str,
    /// The case the bytes stand for.
    pub decode: fn(&[u8]) -> Option<Value>,
    /// Inputs per process in the quick tier.
    pub runs: u32,
    /// Length of inputs.
    pub max_len: usize,
    pub seeds: fn() -> Vec<Vec<u8>>,
}

/// How many processes search at a time.
pub const PROCESSES: usize = 8;

// ---------------------------------------------------------------- decoding

struct Bytes<'a>(&'a [u8]);

impl<'a> Bytes<'a> {
    fn byte(&mut self) -> u8 {
        match self.0.split_first() {
            Some((b, r)) => {
                self.0 = r;
                *b
            }
            None => 0,
        }
    }
    fn pick<'x, T>(&mut self, v: &'x [T]) -> &'x T {
        &v[self.byte() as usize % v.len()]
    }
    fn done(&self) -> bool {
        self.0.is_empty()
    }
    /// Up to the next 0xFF, which is in no text.
    fn piece(&mut self) -> String {
        let n = self.0.iter().position(|b| *b == 0xFF).unwrap_or(self.0.len());
        let t = string(&self.0[..n]);
        self.0 = &self.0[(n + 1).min(self.0.len())..];
        t
    }
}

/// Text, by way of UTF-8; a byte that is none stands for a character all the same.
fn string(b: &[u8]) -> String {
    const OTHER: &[char] = &['é', 'ß', 'İ', 'Σ', 'ς', 'я', 'Ё', '日', 'の', 'ー', '한', 'ا', 'أ', '\u{640}', '\u{64b}', '\u{301}', '\u{ad}', '\u{a0}', '\u{3000}', '\u{200b}', '😀', '𠮷', 'ﬁ', 'ǅ', '²', '½', 'º', 'ő', 'ș', 'ğ', 'å', 'œ'];
    let mut out = String::new();
    for c in b.utf8_chunks() {
        out.push_str(c.valid());
        for b in c.invalid() {
            out.push(OTHER[*b as usize % OTHER.len()]);
        }
    }
    out
}

fn text(b: &[u8]) -> Option<Value> {
    Some(json!(string(b)))
}

fn coded(codes: &[&str], b: &[u8]) -> Option<Value> {
    let mut b = Bytes(b);
    let c = b.pick(codes);
    Some(json!([c, string(b.0)]))
}

const LIGHT: &[&str] = &["en", "ar", "da", "du", "fi", "fr", "de", "hu", "it", "ko", "no", "pt", "ro", "ru", "es", "sv", "tr"];
const HEAVY: &[&str] = &["zh", "ja"];

fn trim_coded(b: &[u8]) -> Option<Value> {
    coded(&props::language::trimming_codes(), b)
}
fn light_coded(b: &[u8]) -> Option<Value> {
    coded(LIGHT, b)
}
fn snowball_coded(b: &[u8]) -> Option<Value> {
    coded(&props::language::c12_codes(), b)
}
fn stop_coded(b: &[u8]) -> Option<Value> {
    coded(&props::language::stop_codes(), b)
}
fn heavy_coded(b: &[u8]) -> Option<Value> {
    coded(HEAVY, b)
}

fn tok(b: &mut Bytes) -> Option<TokSpec> {
    Some(match b.byte() % 12 {
        0 => TokSpec::Split(','),
        1 => TokSpec::Whole,
        2 => TokSpec::Chars,
        3 => TokSpec::Bigrams,
        4 => TokSpec::Whitespace,
        5 => TokSpec::Nothing,
        _ => return None,
    })
}

fn functions(b: &mut Bytes) -> Vec<FnSpec> {
    (0..b.byte() % 4)
        .map(|_| match b.byte() % 8 {
            0 => FnSpec::Upper,
            1 => FnSpec::Append("s".into()),
            2 => FnSpec::DropIf('e'),
            3 => FnSpec::Truncate(1 + b.byte() as usize % 6),
            4 => FnSpec::MinLen(1 + b.byte() as usize % 4),
            5 => FnSpec::Reverse,
            6 => FnSpec::Stop(vec!["the".into(), "a".into(), "ab".into()]),
            _ => FnSpec::Trim("abcdefghijklmnopqrstuvwxyz".into()),
        })
        .collect()
}

/// Language, settings and field names by number, then keys and texts, each up to 0xFF.
fn index_of(b: &mut Bytes, custom: bool, again: bool) -> Option<IndexCase> {
    const NAMES: &[&str] = &["body", "title", "id", "df", "docs", "root", "é", "", "Body", "body2", "__proto__", "a b"];
    let l = b.byte();
    let lang = if custom && l % 8 == 7 {
        let tok = tok(b).unwrap_or(TokSpec::Whitespace);
        LangSpec::Custom { name: "Toy".into(), code: "ty".into(), tok, fns: functions(b) }
    } else if l % 2 == 0 {
        LangSpec::Builtin("en".into())
    } else {
        LangSpec::Builtin(LIGHT[l as usize / 2 % LIGHT.len()].into())
    };
    let how = b.byte();
    let save = [None, None, Some(true), Some(false)][how as usize % 4];
    let toks = how & 4 != 0 && custom;
    let mut fields: Vec<FieldSpec> = vec![];
    for _ in 0..1 + b.byte() % 4 {
        let name = b.pick(NAMES).to_string();
        let tok = if toks { tok(b) } else { None };
        if fields.iter().all(|f| f.name != name) {
            fields.push(FieldSpec { name, tok });
        }
    }
    let ref_field = match how >> 3 & 7 {
        0 => Some("key".into()),
        1 => Some(b.pick(NAMES).to_string()),
        _ => None,
    };
    let mut docs: Vec<Doc> = vec![];
    while !b.done() && docs.len() < 8 {
        let mut r = b.piece();
        while !again && docs.iter().any(|d| d.r == r) {
            r.push('+');
        }
        let data: Vec<String> = fields.iter().map(|_| b.piece()).collect();
        docs.push(Doc { r, data });
    }
    if lang == LangSpec::Builtin("ar".into()) {
        for d in &mut docs {
            d.data.iter_mut().for_each(|t| *t = crate::gen_index::tame_arabic(std::mem::take(t)));
        }
    }
    let mut c = IndexCase { lang, fields, ref_field, save, short: how & 64 != 0, docs };
    c.normalise();
    Some(c)
}

fn index(b: &[u8]) -> Option<Value> {
    serde_json::to_value(index_of(&mut Bytes(b), true, true)?).ok()
}

fn shuffled(b: &[u8]) -> Option<Value> {
    let mut b = Bytes(b);
    let order: Vec<u16> = (0..8).map(|_| b.byte() as u16).collect();
    Some(json!({"order": order, "case": serde_json::to_value(index_of(&mut b, true, false)?).ok()?}))
}

fn isolation(b: &[u8]) -> Option<Value> {
    let mut b = Bytes(b);
    let (pick, rotate, n) = (b.byte(), b.byte() % 5, b.byte() % 5);
    let other: Vec<String> = (0..n).map(|_| b.piece()).collect();
    let case = index_of(&mut b, true, true)?;
    let other: Vec<String> = if case.lang == LangSpec::Builtin("ar".into()) { other.into_iter().map(crate::gen_index::tame_arabic).collect() } else { other };
    Some(json!({"pick": pick, "rotate": rotate, "other": other, "case": serde_json::to_value(case).ok()?}))
}

fn growing(b: &[u8]) -> Option<Value> {
    let mut b = Bytes(b);
    let update = match b.byte() {
        u if u % 3 == 0 => json!(u),
        _ => Value::Null,
    };
    let mut case = index_of(&mut b, true, true)?;
    let extra = case.docs.pop()?;
    Some(json!({"case": serde_json::to_value(case).ok()?, "extra": serde_json::to_value(extra).ok()?, "update": update}))
}

fn reload(b: &[u8]) -> Option<Value> {
    let mut b = Bytes(b);
    let (how, keep) = (b.byte(), b.byte() as usize % 4);
    let mut case = index_of(&mut b, false, true)?;
    let more = case.docs.split_off(case.docs.len().min(keep));
    Some(json!({"case": serde_json::to_value(case).ok()?, "how": how, "more": serde_json::to_value(more).ok()?}))
}

const NAMES: &[&str] = &["a", "ab", "b", "1", "10", "docs", "df", "é", "日本", "", "A"];

fn weight(b: &mut Bytes) -> f64 {
    match b.byte() {
        n @ 0..=199 => (n as f64).sqrt(),
        n @ 200..=249 => 200.0 - n as f64,
        n => n as f64 * 1e5,
    }
}

fn operations(b: &[u8]) -> Option<Value> {
    let mut b = Bytes(b);
    let mut ops = vec![];
    while !b.done() && ops.len() < 60 {
        let k = b.byte();
        let r = b.pick(NAMES).to_string();
        let n = b.byte() as usize % 7;
        let t = string(&b.0[..n.min(b.0.len())]);
        b.0 = &b.0[n.min(b.0.len())..];
        ops.push(match k % 8 {
            0..=3 => json!({"Add": [r, t, weight(&mut b)]}),
            4..=6 => json!({"Remove": [r, t]}),
            _ => json!({"Ask": [r, t]}),
        });
    }
    Some(json!(ops))
}

fn store_operations(b: &[u8]) -> Option<Value> {
    let mut b = Bytes(b);
    let save = b.byte() % 2 == 0;
    let mut ops = vec![];
    while !b.done() && ops.len() < 25 {
        let k = b.byte();
        let r = b.pick(NAMES).to_string();
        ops.push(match k % 8 {
            0..=3 => {
                let d: std::collections::BTreeMap<String, String> = (0..k / 8 % 4)
                    .map(|_| {
                        let f = b.pick(NAMES).to_string();
                        let n = b.byte() as usize % 6;
                        let t = string(&b.0[..n.min(b.0.len())]);
                        b.0 = &b.0[n.min(b.0.len())..];
                        (f, t)
                    })
                    .collect();
                json!({"Add": [r, d]})
            }
            4 | 5 => json!({"Remove": [r]}),
            6 => json!({"Length": [r, b.pick(NAMES), b.byte()]}),
            _ => json!({"Ask": [r, b.pick(NAMES)]}),
        });
        // serde writes a variant of one field without a list
        if let Some(v) = ops.last_mut().and_then(|o| o.get_mut("Remove")) {
            *v = v[0].take();
        }
    }
    Some(json!([save, ops]))
}

fn compose(b: &[u8]) -> Option<Value> {
    let mut b = Bytes(b);
    let (cut, fns) = (b.byte(), functions(&mut b));
    let mut toks = vec![];
    while !b.done() && toks.len() < 10 {
        toks.push(b.piece());
    }
    Some(json!([serde_json::to_value(fns).ok()?, toks, cut]))
}

fn languages(b: &[u8]) -> Option<Value> {
    let mut b = Bytes(b);
    let code = b.pick(LIGHT).to_string();
    let mut toks = vec![];
    while !b.done() && toks.len() < 10 {
        toks.push(b.piece());
    }
    Some(json!([code, toks]))
}

fn context(b: &[u8]) -> Option<Value> {
    let mut b = Bytes(b);
    let code = b.pick(LIGHT).to_string();
    let sep = b.pick(&[" ", "\n", "-", "\t", "\u{a0}", "\u{3000}", "\r\n", " - "]).to_string();
    let (before, text, after) = (b.piece(), b.piece(), b.piece());
    Some(json!({"code": code, "before": before, "text": text, "after": after, "sep": sep}))
}

// ---------------------------------------------------------------- first inputs

fn seed_words() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = corpus("en").iter().step_by(97).take(30).map(|w| w.as_bytes().to_vec()).collect();
    v.extend(porter::suffixes().iter().map(|s| format!("adapt{s}").into_bytes()));
    v.extend(SPECIAL.iter().map(|s| s.as_bytes().to_vec()));
    v
}

/// A number for each language in front.
fn per_code(codes: &[&str], f: impl Fn(&str) -> Vec<String>) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for (i, c) in codes.iter().enumerate() {
        for t in f(c) {
            v.push([vec![i as u8], t.into_bytes()].concat());
        }
    }
    v
}

fn words_of(c: &str) -> Vec<String> {
    corpus(c).iter().step_by(131).take(4).map(|s| s.to_string()).chain(stops(c).iter().skip(5).take(1).map(|s| format!("({s})"))).collect()
}

fn sentence_of(c: &str) -> Vec<String> {
    vec![corpus(c).iter().step_by(61).take(6).copied().collect::<Vec<_>>().join(" "), format!("{}, 42-{}.", corpus(c)[3], corpus(c)[9])]
}

fn seed_trim() -> Vec<Vec<u8>> {
    per_code(&props::language::trimming_codes(), words_of)
}
fn seed_light() -> Vec<Vec<u8>> {
    per_code(LIGHT, sentence_of)
}
fn seed_snowball() -> Vec<Vec<u8>> {
    per_code(&props::language::c12_codes(), words_of)
}
fn seed_stop() -> Vec<Vec<u8>> {
    per_code(&props::language::stop_codes(), words_of)
}
fn seed_heavy() -> Vec<Vec<u8>> {
    per_code(HEAVY, sentence_of)
}

fn seed_arabic() -> Vec<Vec<u8>> {
    sentence_of("ar").iter().flat_map(|s| s.split(' ')).map(|w| w.as_bytes().to_vec()).chain(["أحمد", "إلى", "مُحَمَّد", "ـــ", "آ\u{65b}"].map(|s| s.as_bytes().to_vec())).collect()
}

/// Pieces separated by 0xFF behind a few numbers.
fn seed_pieces() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for (i, c) in LIGHT.iter().enumerate() {
        for k in 0..3u8 {
            let mut b = vec![(i as u8) * 2 + (k % 2), k * 21, k, k + 1, 3 * k, k, 0, 1, 2];
            for (j, w) in corpus(c).iter().step_by(41).take(8).enumerate() {
                b.extend([b"1".to_vec(), vec![0xFF], w.as_bytes().to_vec(), b" ".to_vec(), corpus(c)[j].as_bytes().to_vec(), vec![0xFF]].concat());
            }
            v.push(b);
        }
    }
    v
}

fn seed_numbers() -> Vec<Vec<u8>> {
    (0..40u64)
        .map(|i| {
            let mut h = i;
            (0..20 + i * 6).map(|k| { h = hash_of(&(h, k)); if h % 3 == 0 { (h >> 8) as u8 % 16 } else { b'a' + (h >> 8) as u8 % 4 } }).collect()
        })
        .collect()
}

fn targets() -> Vec<Target> {
    let t = |id, section, decode, runs, max_len, seeds| Target { id, section, decode, runs, max_len, seeds };
    vec![
        t("C01", "lookup", index, 25_000, 300, seed_pieces),
        t("C02", "general", index, 25_000, 300, seed_pieces),
        t("C03", "isolation", isolation, 10_000, 300, seed_pieces),
        t("C04", "store", index, 25_000, 300, seed_pieces),
        t("C05", "save-off", index, 15_000, 300, seed_pieces),
        t("C06", "order", shuffled, 10_000, 300, seed_pieces),
        t("C07", "grow", growing, 10_000, 300, seed_pieces),
        t("C08", "layout", index, 20_000, 300, seed_pieces),
        t("C09", "words", text, 400_000, 40, seed_words),
        t("C10", "tokens", trim_coded, 300_000, 40, seed_trim),
        t("C11", "tokens", stop_coded, 1_500_000, 40, seed_stop),
        t("C12", "tokens", snowball_coded, 300_000, 40, seed_snowball),
        t("C13", "tokens", text, 400_000, 40, seed_arabic),
        t("C14", "texts", heavy_coded, 20_000, 80, seed_heavy),
        t("C15", "any", light_coded, 300_000, 80, seed_light),
        t("C16", "texts", light_coded, 25_000, 80, seed_light),
        t("C17", "compose", compose, 50_000, 100, seed_pieces),
        t("C17", "languages", languages, 50_000, 100, seed_pieces),
        t("C18", "history", operations, 40_000, 300, seed_numbers),
        t("C19", "history", store_operations, 40_000, 200, seed_numbers),
        t("C20", "strings", text, 300_000, 20, seed_words),
        t("C22", "reload", reload, 6_000, 300, seed_pieces),
        t("C25", "context", context, 50_000, 120, seed_pieces),
    ]
}

pub fn of(id: &str) -> Vec<Target> {
    targets().into_iter().filter(|t| t.id == id).collect()
}

// ---------------------------------------------------------------- one input

struct State {
    target: Target,
    section: Section,
    out: PathBuf,
    runs: u64,
    nontrivial: HashSet<u64>,
    known: HashSet<String>,
    samples: Vec<Value>,
}

/// Used by one thread, and read as the process ends, when thread locals are gone.
static STATE: AtomicPtr<State> = AtomicPtr::new(std::ptr::null_mut());

fn env(name: &str) -> String {
    std::env::var(name).unwrap_or_default()
}

extern "C" fn at_end() {
    let s = STATE.load(Ordering::SeqCst);
    if !s.is_null() {
        report(unsafe { &*s }, None);
    }
}

fn report(s: &State, failure: Option<Value>) {
    let r = json!({"runs": s.runs, "nontrivial": s.nontrivial.len(), "samples": s.samples, "known": s.known, "failure": failure});
    let _ = std::fs::write(&s.out, r.to_string());
}

fn start() -> State {
    // libFuzzer itself watches for inputs that do not end
    install_panic_hook();
    let (id, section) = (env("ELV_FUZZ"), env("ELV_FUZZ_SECTION"));
    set_listed(env("ELV_FUZZ_KNOWN").split(',').filter(|s| !s.is_empty()).map(String::from).collect());
    let target = of(&id).into_iter().find(|t| t.section == section).expect("a target");
    let p = props::all().into_iter().find(|p| p.id == id).unwrap();
    let section = (p.sections)().into_iter().find(|s| s.name == section).expect("a section");
    unsafe { libc::atexit(at_end) };
    State { target, section, out: PathBuf::from(env("ELV_FUZZ_OUT")), runs: 0, nontrivial: HashSet::new(), known: HashSet::new(), samples: vec![] }
}

/// Smaller inputs that fail as well: pieces are taken out, as long as that goes.
fn shrink(s: &State, b: &[u8]) -> (Value, String) {
    let fails = |b: &[u8]| (s.target.decode)(b).and_then(|v| (s.section.replay)(&v).err().map(|e| (v, e)));
    let mut best = b.to_vec();
    let mut why = fails(b);
    let until = std::time::Instant::now() + std::time::Duration::from_secs(40);
    let mut n = (best.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < best.len() && std::time::Instant::now() < until {
            let c = [&best[..i], &best[(i + n).min(best.len())..]].concat();
            match fails(&c) {
                Some(w) => {
                    best = c;
                    why = Some(w);
                    any = true;
                }
                None => i += n,
            }
        }
        if n == 1 && !any || std::time::Instant::now() >= until {
            break;
        }
        n = (n / 2).max(1);
    }
    why.unwrap_or_else(|| ((s.target.decode)(b).unwrap(), "fails once, and not again".into()))
}

pub fn one_input(b: &[u8]) -> i32 {
    if STATE.load(Ordering::SeqCst).is_null() {
        STATE.store(Box::into_raw(Box::new(start())), Ordering::SeqCst);
    }
    let s = unsafe { &mut *STATE.load(Ordering::SeqCst) };
    if let Some(p) = std::env::var_os("ELV_FUZZ_CASE") {
        let case: Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
        let f = (s.section.replay)(&case).err().map(|why| json!({"message": why}));
        report(s, f);
        unsafe { libc::_exit(0) }
    }
    let Some(case) = (s.target.decode)(b) else { return -1 };
    s.runs += 1;
    match (s.section.replay)(&case) {
        Ok(o) => {
            s.known.extend(o.known.iter().cloned());
            if o.nontrivial && s.nontrivial.insert(hash_of(&case.to_string())) && s.samples.len() < 2 && s.runs > 500 {
                s.samples.push(case);
            }
            0
        }
        Err(why) => {
            let (case, why) = match shrink(s, b) {
                (_, e) if e == "fails once, and not again" => (case, why),
                x => x,
            };
            let f = json!({"section": s.target.section, "case": case, "message": why});
            report(s, Some(f));
            unsafe { libc::_exit(99) }
        }
    }
}

// ---------------------------------------------------------------- running it

pub struct Fuzzed {
    /// Evidence, one entry per section.
    pub sections: Vec<Value>,
    pub runs: u64,
    pub nontrivial: usize,
    pub known: HashSet<String>,
    pub failure: Option<Failure>,
    /// A case at which a process went down, and how.
    pub crash: Option<(String, Value, String)>,
}

/// Writes the literals of the sources, suffixes and the like as libFuzzer's dictionary.
fn dictionary(path: &std::path::Path) {
    let mut words: Vec<String> = crate::dict::dict().fresh.iter().map(|s| s.to_string()).collect();
    words.extend(porter::suffixes().iter().map(|s| s.to_string()));
    words.extend(PUNCT.iter().chain(SPECIAL).map(|s| s.to_string()));
    let mut f = std::fs::File::create(path).unwrap();
    let mut seen = HashSet::new();
    for w in words {
        if !w.is_empty() && w.len() <= 60 && seen.insert(w.clone()) {
            let e: String = w.bytes().map(|b| format!("\\x{b:02X}")).collect();
            writeln!(f, "\"{e}\"").unwrap();
        }
    }
}

/// One case in the searcher's build of the crate: why it fails, if it does.
pub fn replay(bin: &std::path::Path, id: &str, section: &str, case: &Value, known: &[String]) -> Option<String> {
    let dir = std::env::temp_dir().join(format!("elv-replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("case"), case.to_string()).unwrap();
    let s = std::process::Command::new(bin)
        .arg(dir.join("case"))
        .env("ELV_FUZZ", id)
        .env("ELV_FUZZ_SECTION", section)
        .env("ELV_FUZZ_OUT", dir.join("out"))
        .env("ELV_FUZZ_KNOWN", known.join(","))
        .env("ELV_FUZZ_CASE", dir.join("case"))
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .unwrap_or_else(|e| {
            eprintln!("HARNESS-ERROR: {}: {e}", bin.display());
            std::process::exit(3)
        });
    let r: Value = std::fs::read_to_string(dir.join("out")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
    let _ = std::fs::remove_dir_all(&dir);
    match r["failure"]["message"].as_str() {
        Some(m) => Some(m.to_string()),
        None if !s.success() => Some(format!("the process ends with {s}")),
        None => None,
    }
}

pub fn run(bin: &std::path::Path, ctx: &RunCtx, scratch: &std::path::Path, known: &[String]) -> Fuzzed {
    let ts = of(&ctx.prop);
    let mut out = Fuzzed { sections: vec![], runs: 0, nontrivial: 0, known: HashSet::new(), failure: None, crash: None };
    let _ = std::fs::remove_dir_all(scratch);
    std::fs::create_dir_all(scratch).unwrap();
    let dict = scratch.join("dict");
    dictionary(&dict);
    let mut kids = vec![];
    for p in 0..PROCESSES {
        let t = ts[p % ts.len()];
        let dir = scratch.join(format!("corpus{p}"));
        std::fs::create_dir_all(&dir).unwrap();
        for (i, s) in (t.seeds)().into_iter().enumerate() {
            std::fs::write(dir.join(format!("{i:04}")), s).unwrap();
        }
        let runs = t.runs as u64 * if ctx.tier == Tier::Thorough { 20 } else { 1 };
        let log = std::fs::File::create(scratch.join(format!("log{p}"))).unwrap();
        let ch = std::process::Command::new(bin)
            .arg(format!("-runs={runs}"))
            .arg(format!("-seed={}", ctx.seed.wrapping_mul(8).wrapping_add(p as u64 + 1) % 0x7fff_ffff + 1))
            .arg(format!("-max_len={}", t.max_len))
            .arg(format!("-artifact_prefix={}/crash{p}-", scratch.display()))
            .arg(format!("-dict={}", dict.display()))
            .args(["-len_control=0", "-timeout=60", "-rss_limit_mb=0", "-detect_leaks=0", "-print_final_stats=1", "-reload=0", "-verbosity=1"])
            .arg(format!("-max_total_time={}", if ctx.tier == Tier::Thorough { 3600 } else { 200 }))
            .arg(format!("-use_value_profile={}", p % 2))
            .arg(&dir)
            .env("ELV_FUZZ", &ctx.prop)
            .env("ELV_FUZZ_SECTION", t.section)
            .env("ELV_FUZZ_OUT", scratch.join(format!("out{p}")))
            .env("ELV_FUZZ_KNOWN", known.join(","))
            .env_remove("ELV_FUZZ_CASE")
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(log)
            .spawn();
        match ch {
            Ok(c) => kids.push((p, t, c)),
            Err(e) => {
                eprintln!("HARNESS-ERROR: {}: {e}", bin.display());
                std::process::exit(3);
            }
        }
    }
    for (p, t, mut c) in kids {
        let s = c.wait().unwrap();
        let log = std::fs::read_to_string(scratch.join(format!("log{p}"))).unwrap_or_default();
        let r: Value = std::fs::read_to_string(scratch.join(format!("out{p}"))).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
        let cov = log.lines().rev().find(|l| l.contains(" cov: ")).unwrap_or("").trim().to_string();
        out.runs += r["runs"].as_u64().unwrap_or(0);
        out.nontrivial += r["nontrivial"].as_u64().unwrap_or(0) as usize;
        out.known.extend(r["known"].as_array().into_iter().flatten().filter_map(|k| k.as_str().map(String::from)));
        out.sections.push(json!({
            "section": format!("coverage-guided {} (process {p})", t.section),
            "rule": format!("libFuzzer, {} inputs of up to {} bytes decoded into cases of section {}, guided by the coverage of the crate; non-trivial as there", t.runs, t.max_len, t.section),
            "evaluations": r["runs"], "distinct_nontrivial": r["nontrivial"], "samples": r["samples"], "coverage": cov,
        }));
        if !r["failure"].is_null() {
            if out.failure.is_none() {
                let f = &r["failure"];
                out.failure = Some(Failure { section: t.section.into(), case: f["case"].clone(), message: f["message"].as_str().unwrap_or("").into() });
            }
        } else if !s.success() {
            // the input libFuzzer saved as the process went down
            let bytes = std::fs::read_dir(scratch).unwrap().flatten().map(|e| e.path())
                .find(|f| f.file_name().unwrap().to_string_lossy().starts_with(&format!("crash{p}-")))
                .and_then(|f| std::fs::read(f).ok());
            match bytes.and_then(|b| (t.decode)(&b)) {
                Some(case) => out.crash = Some((t.section.into(), case, format!("{s}"))),
                None => {
                    eprintln!("{}", log.lines().rev().take(20).collect::<Vec<_>>().join("\n"));
                    eprintln!("HARNESS-ERROR: a process of the coverage-guided search ended with {s}");
                    std::process::exit(3);
                }
            }
        }
    }
    if std::env::var_os("ELV_KEEP").is_none() {
        let _ = std::fs::remove_dir_all(scratch);
    }
    out
}
