//! A strict JSON reader (RFC 8259) for judging exports: rejects duplicate names, lone
//! surrogates, trailing input and raw control characters; numbers are parsed exactly;
//! nesting is not limited.  Independent of serde_json.

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

pub fn parse(text: &str) -> Result<J, String> {
    let mut p = P { s: text.as_bytes(), i: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i != p.s.len() {
        return Err(format!("not JSON: trailing input at byte {}", p.i));
    }
    Ok(v)
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn err<T>(&self, what: &str) -> Result<T, String> {
        Err(format!("not JSON: {what} at byte {}", self.i))
    }
    fn lit(&mut self, l: &str, v: J) -> Result<J, String> {
        if self.s[self.i..].starts_with(l.as_bytes()) {
            self.i += l.len();
            Ok(v)
        } else {
            self.err("unknown literal")
        }
    }
    fn value(&mut self) -> Result<J, String> {
        match self.s.get(self.i) {
            None => self.err("unexpected end"),
            Some(b'n') => self.lit("null", J::Null),
            Some(b't') => self.lit("true", J::Bool(true)),
            Some(b'f') => self.lit("false", J::Bool(false)),
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.s.get(self.i) == Some(&b']') {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value()?);
                    self.ws();
                    match self.s.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return self.err("expected , or ]"),
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut v: Vec<(String, J)> = vec![];
                let mut seen = std::collections::HashSet::new();
                self.ws();
                if self.s.get(self.i) == Some(&b'}') {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    if self.s.get(self.i) != Some(&b'"') {
                        return self.err("expected a name");
                    }
                    let k = self.string()?;
                    if !seen.insert(k.clone()) {
                        return Err(format!("not JSON: duplicate name {k:?} in one object"));
                    }
                    self.ws();
                    if self.s.get(self.i) != Some(&b':') {
                        return self.err("expected :");
                    }
                    self.i += 1;
                    self.ws();
                    let x = self.value()?;
                    v.push((k, x));
                    self.ws();
                    match self.s.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return self.err("expected , or }"),
                    }
                }
            }
            Some(b'-' | b'0'..=b'9') => self.number(),
            Some(_) => self.err("unexpected character"),
        }
    }
    fn number(&mut self) -> Result<J, String> {
        let st = self.i;
        let dig = |p: &mut Self| {
            let a = p.i;
            while matches!(p.s.get(p.i), Some(b'0'..=b'9')) {
                p.i += 1;
            }
            p.i - a
        };
        if self.s[self.i] == b'-' {
            self.i += 1;
        }
        let lead = self.i;
        let n = dig(self);
        if n == 0 || (n > 1 && self.s[lead] == b'0') {
            return self.err("bad number");
        }
        if self.s.get(self.i) == Some(&b'.') {
            self.i += 1;
            if dig(self) == 0 {
                return self.err("bad fraction");
            }
        }
        if matches!(self.s.get(self.i), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.s.get(self.i), Some(b'+' | b'-')) {
                self.i += 1;
            }
            if dig(self) == 0 {
                return self.err("bad exponent");
            }
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        Ok(J::Num(t.parse().unwrap()))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let h = self.s.get(self.i..self.i + 4).and_then(|h| std::str::from_utf8(h).ok());
        match h.filter(|h| h.bytes().all(|b| b.is_ascii_hexdigit())).and_then(|h| u32::from_str_radix(h, 16).ok()) {
            Some(v) => {
                self.i += 4;
                Ok(v)
            }
            None => self.err("bad \\u escape"),
        }
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            match self.s.get(self.i) {
                None => return self.err("unterminated string"),
                Some(b'"') => {
                    self.i += 1;
                    return Ok(String::from_utf8(out).unwrap());
                }
                Some(b'\\') => {
                    self.i += 1;
                    let c = self.s.get(self.i).copied();
                    self.i += 1;
                    let ch = match c {
                        Some(b'"') => '"',
                        Some(b'\\') => '\\',
                        Some(b'/') => '/',
                        Some(b'b') => '\u{8}',
                        Some(b'f') => '\u{c}',
                        Some(b'n') => '\n',
                        Some(b'r') => '\r',
                        Some(b't') => '\t',
                        Some(b'u') => {
                            let a = self.hex4()?;
                            let v = if (0xD800..0xDC00).contains(&a) {
                                if self.s.get(self.i) != Some(&b'\\') || self.s.get(self.i + 1) != Some(&b'u') {
                                    return self.err("lone surrogate");
                                }
                                self.i += 2;
                                let b = self.hex4()?;
                                if !(0xDC00..0xE000).contains(&b) {
                                    return self.err("lone surrogate");
                                }
                                0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00)
                            } else {
                                a
                            };
                            match char::from_u32(v) {
                                Some(c) => c,
                                None => return self.err("lone surrogate"),
                            }
                        }
                        _ => return self.err("bad escape"),
                    };
                    let mut b = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                Some(c) if *c < 0x20 => return self.err("raw control character in a string"),
                Some(c) => {
                    out.push(*c);
                    self.i += 1;
                }
            }
        }
    }
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn need(&self, k: &str) -> Result<&J, String> {
        self.get(k).ok_or_else(|| format!("no {k:?} in {}", self.brief()))
    }
    pub fn obj(&self) -> Result<&[(String, J)], String> {
        match self {
            J::Obj(v) => Ok(v),
            _ => Err(format!("expected an object, got {}", self.brief())),
        }
    }
    pub fn str(&self) -> Result<&str, String> {
        match self {
            J::Str(s) => Ok(s),
            _ => Err(format!("expected a string, got {}", self.brief())),
        }
    }
    pub fn num(&self) -> Result<f64, String> {
        match self {
            J::Num(n) => Ok(*n),
            _ => Err(format!("expected a number, got {}", self.brief())),
        }
    }
    pub fn arr(&self) -> Result<&[J], String> {
        match self {
            J::Arr(v) => Ok(v),
            _ => Err(format!("expected an array, got {}", self.brief())),
        }
    }
    pub fn strings(&self) -> Result<Vec<String>, String> {
        self.arr()?.iter().map(|x| x.str().map(|s| s.to_string())).collect()
    }
    pub fn brief(&self) -> String {
        let s = format!("{self:?}");
        if s.len() > 200 {
            format!("{}…", s.chars().take(200).collect::<String>())
        } else {
            s
        }
    }
    /// How many arrays and objects are nested in one another.
    pub fn depth(&self) -> usize {
        match self {
            J::Arr(v) => 1 + v.iter().map(J::depth).max().unwrap_or(0),
            J::Obj(v) => 1 + v.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    /// Objects as unordered, numbers within a relative tolerance.
    pub fn same(&self, o: &J, tol: f64) -> bool {
        match (self, o) {
            (J::Num(a), J::Num(b)) => a == b || (a - b).abs() <= tol * a.abs().max(b.abs()),
            (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y, tol)),
            (J::Obj(a), J::Obj(b)) => {
                if a.len() != b.len() {
                    return false;
                }
                // usually in the same order
                if a.iter().zip(b).all(|(x, y)| x.0 == y.0) {
                    return a.iter().zip(b).all(|(x, y)| x.1.same(&y.1, tol));
                }
                let m: std::collections::HashMap<&str, &J> = b.iter().map(|(k, v)| (k.as_str(), v)).collect();
                a.iter().all(|(k, v)| m.get(k.as_str()).map_or(false, |w| v.same(w, tol)))
            }
            _ => self == o,
        }
    }
}
