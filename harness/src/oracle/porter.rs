//! Reference stemmer: elasticlunr.js's `stemmer`, transcribed as the sequence of
//! regular-expression rewrites that it is in JavaScript.  It shares no code and no
//! representation with the byte-buffer stemmer in the crate under test.
//!
//! JavaScript strings are sequences of UTF-16 code units, and `.`/`[^aeiou]` match one
//! unit.  A non-BMP character is therefore mapped to two stand-in characters (plane 15,
//! one per surrogate) before the rewrites and back afterwards.
//!
//! Cross-validated against the same program run by node: refs/crosscheck_porter.sh.

use regex::Regex;
use std::sync::OnceLock;

struct Re {
    mgr0: Regex,
    mgr1: Regex,
    meq1: Regex,
    s_v: Regex,
    r1a: Regex,
    r1a2: Regex,
    r1b: Regex,
    r1b2: Regex,
    atbliz: Regex,
    cvc: Regex,
    r1c: Regex,
    r2: Regex,
    r3: Regex,
    r4: Regex,
    r4ion: Regex,
    r5: Regex,
}

const STEP2: &[(&str, &str)] = &[
    ("ational", "ate"), ("tional", "tion"), ("enci", "ence"), ("anci", "ance"), ("izer", "ize"),
    ("bli", "ble"), ("alli", "al"), ("entli", "ent"), ("eli", "e"), ("ousli", "ous"),
    ("ization", "ize"), ("ation", "ate"), ("ator", "ate"), ("alism", "al"), ("iveness", "ive"),
    ("fulness", "ful"), ("ousness", "ous"), ("aliti", "al"), ("iviti", "ive"), ("biliti", "ble"),
    ("logi", "log"),
];
const STEP3: &[(&str, &str)] = &[
    ("icate", "ic"), ("ative", ""), ("alize", "al"), ("iciti", "ic"), ("ical", "ic"), ("ful", ""),
    ("ness", ""),
];
pub const STEP4: &[&str] = &[
    "al", "ance", "ence", "er", "ic", "able", "ible", "ant", "ement", "ment", "ent", "ou", "ism",
    "ate", "iti", "ous", "ive", "ize",
];

/// Suffixes on which some rule fires: used to build words that reach the rules.
pub fn suffixes() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![
        "s", "es", "ies", "sses", "ss", "ed", "eed", "ing", "ated", "bled", "ized", "ating", "bling",
        "izing", "y", "yy", "ion", "sion", "tion", "e", "ll", "lle", "lls", "led", "ling",
    ];
    v.extend(STEP2.iter().map(|x| x.0));
    v.extend(STEP3.iter().map(|x| x.0));
    v.extend(STEP4.iter());
    v.extend(STEP2.iter().map(|x| x.1).filter(|s| !s.is_empty()));
    v
}

fn re() -> &'static Re {
    static R: OnceLock<Re> = OnceLock::new();
    R.get_or_init(|| {
        let c = "[^aeiou]";
        let v = "[aeiouy]";
        let cc = format!("{c}[^aeiouy]*");
        let vv = format!("{v}[aeiou]*");
        let r = |s: String| Regex::new(&format!("(?s){s}")).unwrap();
        let alt = |l: Vec<&str>| l.join("|");
        Re {
            mgr0: r(format!("^({cc})?{vv}{cc}")),
            mgr1: r(format!("^({cc})?{vv}{cc}{vv}{cc}")),
            meq1: r(format!("^({cc})?{vv}{cc}({vv})?$")),
            s_v: r(format!("^({cc})?{v}")),
            r1a: r("^(.+?)(ss|i)es$".into()),
            r1a2: r("^(.+?)([^s])s$".into()),
            r1b: r("^(.+?)eed$".into()),
            r1b2: r("^(.+?)(ed|ing)$".into()),
            atbliz: r("(at|bl|iz)$".into()),
            cvc: r(format!("^{cc}{v}[^aeiouwxy]$")),
            r1c: r("^(.+?[^aeiou])y$".into()),
            r2: r(format!("^(.+?)({})$", alt(STEP2.iter().map(|x| x.0).collect()))),
            r3: r(format!("^(.+?)({})$", alt(STEP3.iter().map(|x| x.0).collect()))),
            r4: r(format!("^(.+?)({})$", alt(STEP4.to_vec()))),
            r4ion: r("^(.+?)(s|t)(ion)$".into()),
            r5: r("^(.+?)e$".into()),
        }
    })
}

fn to_units(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    for c in s.chars() {
        if (c as u32) < 0x10000 {
            out.push(c);
        } else {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                out.push(char::from_u32(0xF0000 + *u as u32).unwrap());
            }
        }
    }
    out
}

/// `None` when a rewrite separated the halves of a surrogate pair (JavaScript would then
/// hold a string that is not representable in UTF-8; no rule can do that).
fn from_units(s: &str) -> Option<String> {
    let u: Vec<u16> = s
        .chars()
        .flat_map(|c| {
            let n = c as u32;
            if (0xF0000..0x100000).contains(&n) { vec![(n - 0xF0000) as u16] } else { vec![n as u16] }
        })
        .collect();
    String::from_utf16(&u).ok()
}

fn chop(w: &str) -> String {
    let mut s = w.to_string();
    s.pop();
    s
}

/// re3_1b_2: `([^aeiouylsz])\1$`
fn doubled(w: &str) -> bool {
    let mut it = w.chars().rev();
    match (it.next(), it.next()) {
        (Some(a), Some(b)) => a == b && !"aeiouylsz".contains(a),
        _ => false,
    }
}

pub fn stem(word: &str) -> String {
    let r = re();
    let mut w = to_units(word);
    if w.chars().count() < 3 {
        return word.to_string();
    }
    let initial_y = w.starts_with('y');
    if initial_y {
        w.replace_range(0..1, "Y");
    }
    // Step 1a
    if let Some(m) = r.r1a.captures(&w) {
        w = format!("{}{}", &m[1], &m[2]);
    } else if let Some(m) = r.r1a2.captures(&w) {
        w = format!("{}{}", &m[1], &m[2]);
    }
    // Step 1b
    if let Some(m) = r.r1b.captures(&w) {
        if r.mgr0.is_match(&m[1]) {
            w = chop(&w);
        }
    } else if let Some(m) = r.r1b2.captures(&w) {
        let st = m[1].to_string();
        if r.s_v.is_match(&st) {
            w = st;
            if r.atbliz.is_match(&w) {
                w.push('e');
            } else if doubled(&w) {
                w = chop(&w);
            } else if r.cvc.is_match(&w) {
                w.push('e');
            }
        }
    }
    // Step 1c
    if let Some(m) = r.r1c.captures(&w) {
        w = format!("{}i", &m[1]);
    }
    // Step 2
    if let Some(m) = r.r2.captures(&w) {
        if r.mgr0.is_match(&m[1]) {
            let rep = STEP2.iter().find(|x| x.0 == &m[2]).unwrap().1;
            w = format!("{}{}", &m[1], rep);
        }
    }
    // Step 3
    if let Some(m) = r.r3.captures(&w) {
        if r.mgr0.is_match(&m[1]) {
            let rep = STEP3.iter().find(|x| x.0 == &m[2]).unwrap().1;
            w = format!("{}{}", &m[1], rep);
        }
    }
    // Step 4
    if let Some(m) = r.r4.captures(&w) {
        if r.mgr1.is_match(&m[1]) {
            w = m[1].to_string();
        }
    } else if let Some(m) = r.r4ion.captures(&w) {
        let st = format!("{}{}", &m[1], &m[2]);
        if r.mgr1.is_match(&st) {
            w = st;
        }
    }
    // Step 5
    if let Some(m) = r.r5.captures(&w) {
        let st = &m[1];
        if r.mgr1.is_match(st) || (r.meq1.is_match(st) && !r.cvc.is_match(st)) {
            w = st.to_string();
        }
    }
    if w.ends_with("ll") && r.mgr1.is_match(&w) {
        w = chop(&w);
    }
    if initial_y {
        w.replace_range(0..1, "y");
    }
    from_units(&w).expect("no rule splits a surrogate pair")
}
