//! pieces shared by the JSON and RON searches
use crate::gen::*;
use std::collections::*;
use std::time::{Duration, SystemTime};

/// text between tokens
pub fn filler(r: &mut Rng, must: bool) -> String {
    let mut s = String::new();
    let n = if r.one_in(3) { 0 } else { 1 + r.n(3) };
    if let Some(n) = dlen(r, 12, 5000) {
        match r.n(3) {
            0 => s.push_str(&r.pick(&[" ", "\n", "\t"]).repeat(n)),
            1 => s.push_str(&format!("/*{}*/", r.pick(&["*", "x", "/", "\n"]).repeat(n).replace("*/", ""))),
            _ => s.push_str(&format!("//{}\n", r.pick(&["*", "x", "/"]).repeat(n))),
        }
    }
    for _ in 0..n {
        match r.n(6) {
            0 => s.push_str(r.pick(&[" ", "\t", "\r", "\n", "\r\n", "  \n\t "])),
            1 => {
                s.push_str("//");
                for _ in 0..r.n(6) {
                    let c = gchar(r);
                    if c != '\n' && c != '\0' {
                        s.push(c)
                    }
                }
                s.push_str(r.pick(&["\n", "/*\n", "*/\n", "\"\n", "//\n", "\r\n"]));
            }
            _ => {
                let mut b = String::new();
                for _ in 0..r.n(6) {
                    if r.b() {
                        b.push_str(r.pick(&["*", "/", "/*", "//", "**", "\n", "\"", "* /", "\\", "]", "}", ","]))
                    } else {
                        b.push(gchar(r))
                    }
                }
                let b = b.replace('\0', "");
                let b = b.replace("*/", "");
                let b = b.replace("*/", "").replace("*/", "");
                let mut t = b.clone();
                t.push_str("*/");
                if t.find("*/") == Some(b.len()) {
                    s.push_str("/*");
                    s.push_str(&t);
                }
            }
        }
    }
    if must && s.is_empty() {
        s.push(' ');
    }
    s
}

/// split the canonical text of a value into tokens (JSON and RON serializations have no blanks outside strings)
pub fn toks(t: &str) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        let st = i;
        if c[i] == '"' {
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1
                }
                i += 1;
            }
            i += 1;
        } else if c[i].is_ascii_alphanumeric() || "+-._".contains(c[i]) {
            while i < c.len() && (c[i].is_ascii_alphanumeric() || "+-._".contains(c[i])) {
                i += 1
            }
        } else {
            i += 1
        }
        v.push(c[st..i.min(c.len())].iter().collect());
    }
    v
}
pub fn is_literal(t: &str) -> bool {
    t.starts_with(|c: char| c.is_ascii_alphanumeric() || "+-._\"".contains(c))
}
pub fn spaced(r: &mut Rng, ts: &[String]) -> String {
    let mut s = String::new();
    for (k, t) in ts.iter().enumerate() {
        let must = k > 0 && is_literal(&ts[k - 1]) && is_literal(t);
        s.push_str(&filler(r, must));
        s.push_str(t);
    }
    s.push_str(&filler(r, false));
    s
}

/// what a string literal denotes (text starts after the opening quote): None = malformed; Some((value, rest index)).
/// Err = an escape the property says nothing about.
pub fn literal(t: &[char], zero: bool) -> Result<Option<(String, usize)>, ()> {
    let mut s = String::new();
    let mut i = 0;
    let hex = |i: usize| -> Option<u32> {
        if i + 4 > t.len() {
            return None;
        }
        let mut v = 0;
        for k in i..i + 4 {
            v = v * 16 + t[k].to_digit(16)?;
        }
        Some(v)
    };
    loop {
        if i >= t.len() {
            return Ok(None);
        }
        match t[i] {
            '"' => return Ok(Some((s, i + 1))),
            '\0' => return Err(()),
            '\\' => {
                if i + 1 >= t.len() {
                    return Ok(None);
                }
                let e = t[i + 1];
                i += 2;
                match e {
                    'b' => s.push('\u{8}'),
                    'f' => s.push('\u{c}'),
                    'n' => s.push('\n'),
                    'r' => s.push('\r'),
                    't' => s.push('\t'),
                    '"' | '\\' | '/' => s.push(e),
                    '0' if zero => s.push('\0'),
                    'u' => {
                        let a = match hex(i) {
                            None => return Ok(None),
                            Some(a) => a,
                        };
                        i += 4;
                        if (0xd800..0xdc00).contains(&a) {
                            if i + 1 < t.len() && t[i] == '\\' && t[i + 1] == 'u' {
                                match hex(i + 2) {
                                    Some(b) if (0xdc00..0xe000).contains(&b) => {
                                        s.push(char::from_u32(0x10000 + (a - 0xd800) * 0x400 + (b - 0xdc00)).unwrap());
                                        i += 6;
                                    }
                                    _ => return Ok(None),
                                }
                            } else {
                                return Ok(None);
                            }
                        } else {
                            match char::from_u32(a) {
                                Some(c) => s.push(c),
                                None => return Ok(None),
                            }
                        }
                    }
                    _ => return Err(()),
                }
            }
            c => {
                s.push(c);
                i += 1
            }
        }
    }
}

/// the inside of a string literal, mostly well-formed
pub fn gliteral(r: &mut Rng, size: usize) -> String {
    let mut s = String::new();
    let hx = |r: &mut Rng, v: u32| -> String {
        let t = format!("{:04x}", v);
        t.chars().map(|c| if r.b() { c.to_ascii_uppercase() } else { c }).collect()
    };
    let bad = r.one_in(2);
    let n = 1 + r.n(size + 2);
    let at = r.n(n);
    for k in 0..n {
        if bad && k == at {
            let lead = 0xd800 + r.n(0x400) as u32;
            let trail = 0xdc00 + r.n(0x400) as u32;
            match r.n(9) {
                0 => s.push_str(&format!("\\u{}", hx(r, lead))),
                1 => s.push_str(&format!("\\u{}", hx(r, trail))),
                2 => s.push_str(&format!("\\u{}{}", hx(r, lead), r.pick(&["x", "\\n", "\\\\", "/", "u", "udc00", "\\", "\\u", "\\u0041", "\\ud800", "\\uD834", "\\udbff", "\\ue000", " \\udc00", "\\n\\udc00"]))),
                3 => {
                    let mut h: Vec<char> = hx(r, 0x41).chars().collect();
                    let k = r.n(4);
                    h[k] = *r.pick(&['g', 'G', '/', ':', '@', '`', '+', '-', ' ', '\u{660}', '\u{ff11}', 'x', '"', '\\']);
                    s.push_str("\\u");
                    s.extend(h);
                }
                4 => {
                    let h = hx(r, 0x2028);
                    let k = r.n(4);
                    s.push_str("\\u");
                    s.push_str(&h[..k]);
                }
                5 => {
                    s.push_str(&format!("\\u{}\\u", hx(r, lead)));
                    let mut h: Vec<char> = hx(r, trail).chars().collect();
                    let k = r.n(4);
                    h[k] = *r.pick(&['g', '/', ':', '@', '`', ' ', '"']);
                    s.extend(h);
                }
                6 => s.push('\\'),
                7 => s.push_str(&format!("\\u{}\\u{}", hx(r, trail), hx(r, lead))),
                _ => s.push_str("\\u"),
            }
            continue;
        }
        match r.n(5) {
            0 => {
                let c = gchar(r);
                if c != '"' && c != '\\' && c != '\0' {
                    s.push(c)
                }
            }
            1 => {
                s.push('\\');
                s.push(*r.pick(&['b', 'f', 'n', 'r', 't', '"', '\\', '/']));
            }
            2 => {
                let v = match r.n(4) {
                    0 => *r.pick(&[0, 1, 0x1f, 0x22, 0x5c, 0x7f, 0xff, 0xd7ff, 0xe000, 0xffff, 0xfffd, 0x2028, 0xabcd, 0xABEF]),
                    1 => r.n(0x100) as u32,
                    _ => r.n(0xd800) as u32,
                };
                s.push_str("\\u");
                s.push_str(&hx(r, v));
            }
            3 => {
                let (a, b) = (0xd800 + r.n(0x400) as u32, 0xdc00 + r.n(0x400) as u32);
                let (a, b) = *r.pick(&[(a, b), (a, b), (0xd800, 0xdc00), (0xdbff, 0xdfff), (0xd800, b), (a, 0xdfff)]);
                s.push_str(&format!("\\u{}\\u{}", hx(r, a), hx(r, b)));
            }
            _ => s.push((b'a' + r.n(26) as u8) as char),
        }
    }
    s
}

/// a decimal integer in canonical form (no leading zeros, no -0)
pub fn gdecimal(r: &mut Rng) -> String {
    let neg = r.b();
    if let Some(x) = dint(r, 6) {
        return if neg && x != 0 { format!("-{}", x) } else { x.to_string() };
    }
    let mut d = match r.n(4) {
        0 => {
            let lim: i128 = *r.pick(&[1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 63, 1 << 64, i64::MAX as i128, u64::MAX as i128, 1 << 53, 1 << 100, 10_000_000_000_000_000_000]);
            (lim + r.n(5) as i128 - 2).to_string()
        }
        1 => {
            let lim: i128 = *r.pick(&[1 << 8, 1 << 16, 1 << 32, 1 << 64]);
            (lim * (1 + r.n(4) as i128) + r.n(300) as i128).to_string()
        }
        2 => {
            let n = 1 + r.n(45);
            (0..n).map(|_| (b'0' + r.n(10) as u8) as char).collect()
        }
        _ => (r.u128() >> (1 + r.n(127))).to_string(),
    };
    while d.len() > 1 && d.starts_with('0') {
        d.remove(0);
    }
    if neg && d != "0" {
        d.insert(0, '-');
    }
    d
}

/// tokens of no particular order
pub fn soup(r: &mut Rng, size: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.n(3 * size + 2) {
        if let Some(d) = dstr(r, 8) {
            s.push_str(&d);
            continue;
        }
        if let Some(n) = dlen(r, 12, 5000) {
            match r.n(4) {
                0 => s.push_str(&"1".repeat(n)),
                1 => s.push_str(&"a".repeat(n)),
                2 => s.push_str(&format!("\"{}\"", "a".repeat(n))),
                _ => s.push_str(&r.pick(&["[", "{\"a\":", "(", "-", "/", "*", "\"", "\\"]).repeat(n)),
            }
            continue;
        }
        match r.n(12) {
            0 => s.push_str(&gdecimal(r)),
            1 => {
                s.push('"');
                s.push_str(&gliteral(r, 2));
                if !r.one_in(8) {
                    s.push('"')
                }
            }
            2 => s.push_str(&filler(r, false)),
            3 => s.push(gchar(r)),
            4 => s.push_str(r.pick(&["null", "true", "false", "None", "Some", "tru", "nul", "secs", "\"secs\":", "\"nanos\":", "\"a\":", "a:", "b:", "\"b\":", "A", "B(", "\"A\"", "V0", "nan", "_x"])),
            5 => s.push_str(r.pick(&["1.5", "-", "+", "-1e5", "1e", "1e+", ".", "1.", ".5", "1e999", "-0", "0x10", "1_000", "00", "+1", "1e-400", "e5", "--1", "1.2.3", "-.", "+.e"])),
            6 => s.push_str(r.pick(&["/", "/*", "//", "/* */", "*/", "/**", "'", "'a'", "'\\''", "'ab", "\\", "\"", "#", "@", "$", "\u{0}", "\u{feff}"])),
            _ => s.push_str(r.pick(&["[", "]", "{", "}", "(", ")", ",", ":", ",", ":"])),
        }
    }
    s
}
/// a damaged text
pub fn mutate(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..r.n(4) {
        let k = r.n(c.len() + 1);
        if let Some(d) = dstr(r, 6) {
            for (j, x) in d.chars().enumerate() {
                c.insert(k + j, x)
            }
            continue;
        }
        match r.n(6) {
            0 => c.truncate(k),
            1 if k < c.len() => {
                c.remove(k);
            }
            2 if k < c.len() => c[k] = gchar(r),
            3 => c.insert(k, *r.pick(&['[', ']', '{', '}', '(', ')', ',', ':', '"', '\\', '0', '-', ' ', '/', '*', '.', 'e'])),
            4 => {
                let s = soup(r, 1);
                for (j, x) in s.chars().enumerate() {
                    c.insert(k + j, x)
                }
            }
            _ => {
                let m = r.n(c.len() + 1);
                let (a, b) = (k.min(m), k.max(m));
                let part: Vec<char> = c[a..b].to_vec();
                if part.len() < 200 {
                    for (j, x) in part.into_iter().enumerate() {
                        c.insert(b + j, x)
                    }
                }
            }
        }
    }
    c.into_iter().collect()
}

/// position after reading n characters
pub fn position(t: &str, n: usize) -> (usize, usize) {
    let (mut l, mut c) = (0, 0);
    for x in t.chars().take(n) {
        if x == '\n' {
            l += 1;
            c = 0
        } else {
            c += 1
        }
    }
    (l, c)
}

/// is the text a JSON value denoting this?
pub trait JVal {
    fn is(&self, v: &serde_json::Value) -> bool;
}
use serde_json::Value;
macro_rules! ji { ($($t:ty),*) => {$( impl JVal for $t { fn is(&self, v: &Value) -> bool { match v { Value::Number(n) => n.to_string() == self.to_string(), _ => false } } } )*}; }
ji!(u8, u16, u32, u64, usize, i8, i16, i32, i64);
impl JVal for f64 {
    fn is(&self, v: &Value) -> bool {
        match v {
            Value::Number(n) => n.to_string().parse::<f64>().is_ok_and(|x| x.to_bits() == self.to_bits()),
            _ => false,
        }
    }
}
impl JVal for f32 {
    fn is(&self, v: &Value) -> bool {
        match v {
            Value::Number(n) => n.to_string().parse::<f32>().is_ok_and(|x| x.to_bits() == self.to_bits()),
            _ => false,
        }
    }
}
impl JVal for bool {
    fn is(&self, v: &Value) -> bool {
        v == &Value::Bool(*self)
    }
}
impl JVal for () {
    fn is(&self, v: &Value) -> bool {
        v.is_null()
    }
}
impl JVal for String {
    fn is(&self, v: &Value) -> bool {
        v.as_str() == Some(self)
    }
}
impl<T: JVal> JVal for Option<T> {
    fn is(&self, v: &Value) -> bool {
        match self {
            None => v.is_null(),
            Some(x) => x.is(v),
        }
    }
}
impl<T: JVal> JVal for Box<T> {
    fn is(&self, v: &Value) -> bool {
        (**self).is(v)
    }
}
macro_rules! js { ($($t:ident),*) => {$( impl<T: JVal> JVal for $t<T> { fn is(&self, v: &Value) -> bool { v.as_array().is_some_and(|a| a.len() == self.len() && a.iter().zip(self).all(|(x, y)| y.is(x))) } } )*}; }
js!(Vec, LinkedList, BTreeSet, HashSet);
impl<T: JVal, const N: usize> JVal for [T; N] {
    fn is(&self, v: &Value) -> bool {
        v.as_array().is_some_and(|a| a.len() == N && a.iter().zip(self).all(|(x, y)| y.is(x)))
    }
}
macro_rules! jm { ($($t:ident),*) => {$( impl<T: JVal> JVal for $t<String, T> { fn is(&self, v: &Value) -> bool { v.as_object().is_some_and(|a| a.len() == self.len() && self.iter().all(|(k, y)| a.get(k).is_some_and(|x| y.is(x)))) } } )*}; }
jm!(HashMap, BTreeMap);
macro_rules! jt { ($($n:expr; $($t:ident $i:tt)*;)*) => {$( impl<$($t: JVal),*> JVal for ($($t,)*) { fn is(&self, v: &Value) -> bool { v.as_array().is_some_and(|a| a.len() == $n $(&& self.$i.is(&a[$i]))*) } } )*}; }
jt! { 2; A 0 B 1; 3; A 0 B 1 C 2; 4; A 0 B 1 C 2 D 3; }
impl JVal for Duration {
    fn is(&self, v: &Value) -> bool {
        v.as_object().is_some_and(|o| o.get("secs").is_some_and(|s| self.as_secs().is(s)) && o.get("nanos").map_or(self.subsec_nanos() == 0, |n| self.subsec_nanos().is(n)) && o.keys().all(|k| k == "secs" || k == "nanos"))
    }
}
impl JVal for SystemTime {
    fn is(&self, v: &Value) -> bool {
        self.duration_since(SystemTime::UNIX_EPOCH).unwrap().is(v)
    }
}
