//! A dictionary for the generators, in the manner of a fuzzer's auto-dictionary: the literals
//! written in the sources under test.  It only steers what is generated; verdicts never look
//! at source text, and a case that comes from here is written out in full in its replay file.
//!
//! `data/base_literals.txt` holds the literals of the tree the harness was written for, so
//! that the ones a change has introduced can be drawn more often than the thousands of stop
//! words.

use std::collections::HashSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    /// Strings (and characters) not in the base list.
    pub fresh: Vec<String>,
    pub fresh_ints: Vec<u64>,
    /// All strings and characters.
    pub all: Vec<String>,
}

pub const REPO: &str = "/repo";

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let (strings, ints) = literals(Path::new(REPO));
        let base: HashSet<&str> = include_str!("../data/base_literals.txt").lines().collect();
        let mut d = Dict::default();
        for s in strings {
            if s.is_empty() || s.chars().count() > 60 {
                continue;
            }
            if !base.contains(format!("s {s:?}").as_str()) {
                d.fresh.push(s.clone());
            }
            d.all.push(s);
        }
        for n in ints {
            if !base.contains(format!("i {n}").as_str()) && n > 1 {
                d.fresh_ints.push(n);
            }
        }
        if d.all.is_empty() {
            d.all.push("elasticlunr".into());
        }
        d
    })
}

/// Prints the base list.
pub fn dump() {
    let (strings, ints) = literals(Path::new(REPO));
    for s in strings {
        println!("s {s:?}");
    }
    for n in ints {
        println!("i {n}");
    }
}

fn literals(repo: &Path) -> (Vec<String>, Vec<u64>) {
    let files = sources(repo);
    let (mut s, mut i) = (vec![], vec![]);
    let (mut ss, mut is) = (HashSet::new(), HashSet::new());
    for f in files {
        if let Ok(t) = std::fs::read_to_string(&f) {
            lex(&t, &mut |x| {
                if ss.insert(x.clone()) {
                    s.push(x)
                }
            }, &mut |n| {
                if is.insert(n) {
                    i.push(n)
                }
            });
        }
    }
    (s, i)
}

/// The features named in each condition on features (`cfg(…)`, `cfg!(…)`, `cfg_attr(…)`) that
/// names more than one or negates one: those that are required, and those that are excluded.
pub fn conditions() -> Vec<(Vec<String>, Vec<String>)> {
    let mut out = vec![];
    for f in sources(Path::new(REPO)) {
        let Ok(t) = std::fs::read_to_string(&f) else { continue };
        for (at, _) in t.match_indices("cfg") {
            let rest = t[at + 3..].trim_start_matches("_attr").trim_start_matches('!');
            if !rest.starts_with('(') {
                continue;
            }
            let (mut depth, mut end) = (0, 0);
            for (i, c) in rest.char_indices() {
                depth += (c == '(') as i32 - (c == ')') as i32;
                if depth == 0 {
                    end = i;
                    break;
                }
            }
            // opening parentheses: whether each belongs to a `not`
            let (mut nots, mut on, mut off): (Vec<bool>, Vec<String>, Vec<String>) = Default::default();
            let body = &rest[..end];
            for (i, c) in body.char_indices() {
                match c {
                    '(' => nots.push(body[..i].trim_end().ends_with("not")),
                    ')' => drop(nots.pop()),
                    'f' if body[i..].starts_with("feature") && !body[..i].ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '-') => {
                        let Some(name) = body[i..].split('"').nth(1) else { continue };
                        if nots.iter().filter(|n| **n).count() % 2 == 0 { on.push(name.into()) } else { off.push(name.into()) }
                    }
                    _ => {}
                }
            }
            if on.len() + off.len() > 1 || !off.is_empty() {
                out.push((on, off));
            }
        }
    }
    out
}

fn sources(repo: &Path) -> Vec<std::path::PathBuf> {
    let mut files = vec![];
    fn walk(d: &Path, out: &mut Vec<std::path::PathBuf>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().map_or(false, |x| x == "rs") {
                out.push(p);
            }
        }
    }
    walk(&repo.join("src"), &mut files);
    files.sort();
    files
}

fn unescape(body: &str) -> String {
    let mut out = String::new();
    let mut it = body.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some('r') => out.push('\r'),
            Some('0') => out.push('\0'),
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                if let Ok(n) = u8::from_str_radix(&h, 16) {
                    out.push(n as char)
                }
            }
            Some('u') => {
                it.next();
                let h: String = it.by_ref().take_while(|c| *c != '}').filter(|c| *c != '_').collect();
                if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                    out.push(c)
                }
            }
            Some('\n') => {
                while it.peek().map_or(false, |c| c.is_whitespace()) {
                    it.next();
                }
            }
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}

fn lex(src: &str, on_str: &mut dyn FnMut(String), on_int: &mut dyn FnMut(u64)) {
    let c: Vec<char> = src.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if at(i + 1) == '*' => {
                i += 2;
                while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                    i += 1;
                }
                i += 2;
            }
            'r' if (at(i + 1) == '"' || at(i + 1) == '#') && !(i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '_') && c[i - 1] != 'b') => {
                let mut j = i + 1;
                let mut n = 0;
                while at(j) == '#' {
                    n += 1;
                    j += 1;
                }
                if at(j) != '"' {
                    i += 1;
                    continue;
                }
                j += 1;
                let st = j;
                while j < c.len() && !(c[j] == '"' && (0..n).all(|k| at(j + 1 + k) == '#')) {
                    j += 1;
                }
                on_str(c[st..j.min(c.len())].iter().collect());
                i = j + 1 + n;
            }
            '"' => {
                let st = i + 1;
                let mut j = st;
                while j < c.len() && c[j] != '"' {
                    if c[j] == '\\' {
                        j += 1;
                    }
                    j += 1;
                }
                let body: String = c[st..j.min(c.len())].iter().collect();
                on_str(unescape(&body));
                i = j + 1;
            }
            '\'' => {
                // a character literal, or a lifetime
                let mut j = i + 1;
                if at(j) == '\\' {
                    j += 2;
                    while j < c.len() && c[j] != '\'' && j < i + 14 {
                        j += 1;
                    }
                } else {
                    j += 1;
                }
                if at(j) == '\'' {
                    let body: String = c[i + 1..j].iter().collect();
                    on_str(unescape(&body));
                    i = j + 1;
                } else {
                    i += 1;
                }
            }
            d if d.is_ascii_digit() => {
                let st = i;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
                let t: String = c[st..i].iter().filter(|c| **c != '_').collect();
                let n = if let Some(h) = t.strip_prefix("0x") {
                    u64::from_str_radix(h.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok()
                } else {
                    let digits: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
                    digits.parse().ok()
                };
                if let Some(n) = n {
                    on_int(n);
                    if let Some(ch) = u32::try_from(n).ok().and_then(char::from_u32).filter(|_| t.starts_with("0x")) {
                        on_str(ch.to_string());
                    }
                }
            }
            ch if ch.is_alphabetic() || ch == '_' => {
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
            }
            _ => i += 1,
        }
    }
}
