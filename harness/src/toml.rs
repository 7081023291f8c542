//! C15, C16: TOML
use crate::gen::*;
use crate::textfmt::mutate;
use crate::{chk, Ctx, Res, Sub};
use nanoserde::{Toml, TomlParser};
use std::collections::BTreeMap;

type Doc = BTreeMap<String, Toml>;

/// the value read, looked at as a user does: through its variant, its accessor and (arrays of tables) its index
fn same(a: &Toml, b: &Toml) -> bool {
    match (a, b) {
        (Toml::Str(x), Toml::Str(b)) => x == b && a.str() == b,
        (Toml::Bool(x), Toml::Bool(b)) => x == b && a.boolean() == *b,
        (Toml::Num(x), Toml::Num(b)) => [*x, a.num()].iter().all(|x| x == b || x.is_nan() && b.is_nan()),
        (Toml::Date(x), Toml::Date(b)) => x == b && a.date() == *b,
        (Toml::Array(x), Toml::Array(b)) => {
            x.len() == b.len() && a.arr().len() == b.len() && (0..b.len()).all(|n| same_doc(&x[n], &b[n]) && same_doc(&a[n], &b[n]) && core::ptr::eq(&a[n], &a.arr()[n]))
        }
        (Toml::SimpleArray(x), Toml::SimpleArray(b)) => {
            x.len() == b.len() && x.iter().zip(b).all(|(a, b)| same(a, b)) && core::ptr::eq(a.simple_arr(), x)
        }
        _ => false,
    }
}
fn same_doc(a: &Doc, b: &Doc) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((k, v), (l, w))| k == l && same(v, w))
}

fn ident(r: &mut Rng) -> String {
    let n = 1 + r.n(5);
    let mut s = String::new();
    if let Some(d) = dstr(r, 6) {
        if crate::derived::plain_ident(&d) {
            return d;
        }
    }
    if let Some(n) = dlen(r, 10, 5000) {
        return "k".repeat(n.max(1));
    }
    for k in 0..n {
        let c = match r.n(8) {
            0 if k > 0 => *r.pick(&['-', '_', '0', '9', '5']),
            1 => *r.pick(&['_', 'Z', 'A', '\u{e9}', '\u{3b1}', '\u{c0}', '\u{d6}', '\u{d8}', '\u{f6}', '\u{f8}', '\u{37d}', '\u{37f}', '\u{1fff}', '\u{200c}', '\u{203f}', '\u{2070}', '\u{218f}', '\u{2460}', '\u{2c00}', '\u{3001}', '\u{d7ff}', '\u{f900}', '\u{fffd}', '\u{10000}', '\u{b2}', '\u{be}']),
            _ => (b'a' + r.n(26) as u8) as char,
        };
        s.push(c)
    }
    if r.one_in(5) {
        s.push('.');
        s.push((b'a' + r.n(26) as u8) as char);
    }
    if r.one_in(12) {
        s = r.pick(&["true", "false", "inf", "nan", "e5", "T", "x.y.z", "nann", "info", "trues"]).to_string();
    }
    s
}
fn content(r: &mut Rng, size: usize) -> String {
    let mut s = String::gen(r, size.min(10)).replace('\0', "");
    if let Some(d) = dstr(r, 8) {
        s.insert_str(0, &d.replace('\0', ""));
    }
    if r.one_in(4) {
        s.insert_str(0, r.pick(&["#", "=", "[", "]]", "\\", "\"", " ", "'", ",", "\n"]));
    }
    s
}
/// a unicode escape of a character
fn unicode(r: &mut Rng, c: char) -> String {
    let n = c as u32;
    match (n < 0x10000 && r.n(3) > 0, r.b()) {
        (true, true) => format!("\\u{:04x}", n),
        (true, false) => format!("\\u{:04X}", n),
        (false, true) => format!("\\U{:08x}", n),
        (false, false) => format!("\\U{:08X}", n),
    }
}
/// what is no unicode escape: too few digits, other digits, no character
fn no_unicode(r: &mut Rng) -> String {
    let n = r.pick(&[0xd800u32, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0xffffffff, 0x80000041]).to_owned();
    match r.n(5) {
        0 if n < 0x10000 => format!("\\u{:04x}", n),
        0 | 1 => format!("\\U{:08X}", n),
        2 => {
            let k = r.n(4) as usize;
            format!("\\u{}{}", &"00e9"[..k], r.pick(&["", "g", "+", " ", "_", "G", "@", "`", "/", ":", "-1", "\u{661}"]))
        }
        3 => {
            let k = r.n(8) as usize;
            format!("\\U{}{}", &"0001f600"[..k], r.pick(&["", "g", "+", " ", "_", "G", "@", "`", "/", ":", "-1", "\u{ff11}"]))
        }
        _ => format!("\\{}", r.pick(&["u", "U"])),
    }
}
fn quoted(r: &mut Rng, s: &str) -> String {
    let mut t = "\"".to_string();
    let many = r.one_in(8);
    for c in s.chars() {
        match c {
            c if r.one_in(if many { 2 } else { 40 }) => t.push_str(&unicode(r, c)),
            '"' => t.push_str("\\\""),
            '\\' => t.push_str("\\\\"),
            '\n' | '\r' | '\t' | '\u{8}' | '\u{c}' if r.b() => t.push_str(match c {
                '\n' => "\\n",
                '\r' => "\\r",
                '\t' => "\\t",
                '\u{8}' => "\\b",
                _ => "\\f",
            }),
            c => t.push(c),
        }
    }
    t.push('"');
    t
}
fn multiline(r: &mut Rng, s: &str) -> String {
    let mut t = "\"\"\"".to_string();
    let n = s.chars().count();
    let mut run = 0;
    for (k, c) in s.chars().enumerate() {
        match c {
            '"' => {
                // up to two quotes in a row may stand for themselves, not next to the opening ones
                if run < 2 && k > 0 && (k + 1 < n || run == 0) && r.b() && t.len() > 3 {
                    run += 1;
                    t.push('"')
                } else {
                    run = 0;
                    t.push_str("\\\"")
                }
                continue;
            }
            c if r.one_in(30) => t.push_str(&unicode(r, c)),
            '\\' => t.push_str("\\\\"),
            '\n' | '\r' | '\t' if r.one_in(3) => t.push_str(match c {
                '\n' => "\\n",
                '\r' => "\\r",
                _ => "\\t",
            }),
            c => t.push(c),
        }
        run = 0;
    }
    t.push_str("\"\"\"");
    t
}
/// blank space and comments where they may stand: between the elements of an array
fn gap(r: &mut Rng) -> String {
    let mut s = String::new();
    if let Some(n) = dlen(r, 12, 5000) {
        match r.n(2) {
            0 => s.push_str(&r.pick(&[" ", "\n", "\t"]).repeat(n)),
            _ => s.push_str(&format!("#{}\n", "x".repeat(n))),
        }
    }
    for _ in 0..r.n(3) {
        match r.n(3) {
            0 => {
                s.push('#');
                s.push_str(&String::gen(r, 5).replace(['\n', '\0'], ""));
                s.push('\n');
            }
            _ => s.push_str(r.pick(&[" ", "\t", "\n", "\r\n", "  "])),
        }
    }
    s
}
/// underscores between digits
fn grouped(r: &mut Rng, t: &str) -> String {
    if !r.one_in(3) {
        return t.to_string();
    }
    let c: Vec<char> = t.chars().collect();
    let mut s = String::new();
    for (k, x) in c.iter().enumerate() {
        s.push(*x);
        if x.is_ascii_digit() && c.get(k + 1).is_some_and(|y| y.is_ascii_digit()) && r.one_in(3) {
            s.push('_')
        }
    }
    s
}
fn value(r: &mut Rng, size: usize, depth: usize) -> (String, Toml) {
    match r.n(if depth < 3 { 12 } else { 9 }) {
        0 => {
            let b = r.b();
            (b.to_string(), Toml::Bool(b))
        }
        1 | 2 => {
            let v = i64::gen(r, 1) >> r.n(60);
            let mut t = v.to_string();
            if v >= 0 && r.one_in(4) {
                t.insert(0, '+');
            }
            (grouped(r, &t), Toml::Num(v as f64))
        }
        3 => {
            let v = (r.n(2_000_000) as f64 - 1_000_000.0) / *r.pick(&[1.0, 2.0, 8.0, 10.0, 1000.0]);
            (grouped(r, &format!("{:?}", v)), Toml::Num(v))
        }
        4 => {
            let t = r.pick(&["1979-05-27", "1979-05-27T07:32:00", "2000-01-01", "0001-12-31", "1979-05-27T00:32:00-07:00", "9999-99-99T99:99:99"]).to_string();
            (t.clone(), Toml::Date(t))
        }
        5 => {
            let (t, v) = *r.pick(&[("inf", f64::INFINITY), ("+inf", f64::INFINITY), ("-inf", f64::NEG_INFINITY), ("nan", f64::NAN), ("+nan", f64::NAN), ("-nan", f64::NAN)]);
            (t.into(), Toml::Num(v))
        }
        6 => {
            let mut s = content(r, size);
            if s.starts_with('\n') {
                s.insert(0, 'x')
            }
            (multiline(r, &s), Toml::Str(s))
        }
        7 | 8 => {
            let s = content(r, size);
            (quoted(r, &s), Toml::Str(s))
        }
        _ => {
            let n = dlen(r, 8, 3000).unwrap_or(r.n(4));
            let mut t = "[".to_string();
            let mut v = vec![];
            t.push_str(&gap(r));
            for k in 0..n {
                let (a, b) = value(r, size / 2, depth + 1);
                t.push_str(&a);
                v.push(b);
                t.push_str(&gap(r));
                if k + 1 < n || r.one_in(3) {
                    t.push(',');
                    t.push_str(&gap(r));
                }
            }
            t.push(']');
            (t, Toml::SimpleArray(v))
        }
    }
}
fn blanks(r: &mut Rng) -> &'static str {
    r.pick(&["", "", " ", "\t", "  "])
}
fn eol(r: &mut Rng) -> String {
    let mut s = blanks(r).to_string();
    if r.one_in(3) {
        s.push('#');
        s.push_str(&content(r, 6).replace(['\n', '\0'], ""));
    }
    s.push_str(r.pick(&["\n", "\n", "\r\n", "\n\n", "\n \n"]));
    s
}
/// the lines of a document and what they denote
pub fn document(r: &mut Rng, size: usize) -> (Vec<String>, Doc) {
    let mut lines = vec![];
    let mut doc = Doc::new();
    let mut scope = String::new();
    let mut elem: Option<String> = None;
    let names: Vec<String> = (0..4).map(|_| ident(r)).collect();
    for _ in 0..r.n(size + 3) {
        match r.n(8) {
            0 => {
                let (name, shown) = if r.one_in(4) {
                    let s = content(r, 5);
                    let q = quoted(r, &s);
                    (s, q)
                } else {
                    let s = if r.b() { r.pick(&names).clone() } else { ident(r) };
                    (s.clone(), s)
                };
                // keywords are not section names
                if ["true", "false", "inf", "nan"].contains(&shown.as_str()) {
                    continue;
                }
                lines.push(format!("{}[{}{}{}]{}", blanks(r), blanks(r), shown, blanks(r), eol(r)));
                if let Some(e) = &elem {
                    if !name.starts_with(&format!("{}.", e)) {
                        elem = None;
                    }
                }
                scope = name;
            }
            1 => {
                let name = if r.b() { r.pick(&names).clone() } else { ident(r) };
                if doc.get(&name).is_some_and(|v| !matches!(v, Toml::Array(_))) {
                    continue;
                }
                lines.push(format!("{}[[{}{}{}]]{}", blanks(r), blanks(r), name, blanks(r), eol(r)));
                match doc.entry(name.clone()).or_insert(Toml::Array(vec![])) {
                    Toml::Array(a) => a.push(Doc::new()),
                    _ => unreachable!(),
                }
                elem = Some(name);
                scope.clear();
            }
            2 => lines.push(eol(r)),
            _ => {
                let (key, shown) = if r.one_in(4) {
                    let s = content(r, 5);
                    let q = quoted(r, &s);
                    (s, q)
                } else {
                    let s = if r.one_in(3) { r.pick(&names).clone() } else { ident(r) };
                    (s.clone(), s)
                };
                let full = if scope.is_empty() { key } else { format!("{}.{}", scope, key) };
                let (t, v) = value(r, size, 0);
                let target = match &elem {
                    None => {
                        // a key that would replace an array of tables is another matter
                        if matches!(doc.get(&full), Some(Toml::Array(_))) {
                            continue;
                        }
                        &mut doc
                    }
                    Some(n) => match doc.get_mut(n) {
                        Some(Toml::Array(a)) => a.last_mut().unwrap(),
                        _ => unreachable!(),
                    },
                };
                target.insert(full, v);
                lines.push(format!("{}{}{}={}{}{}", blanks(r), shown, blanks(r), blanks(r), t, eol(r)));
            }
        }
    }
    if r.one_in(3) {
        if let Some(l) = lines.last_mut() {
            if !l.contains('#') {
                *l = l.trim_end_matches(['\n', '\r', ' ']).to_string();
            }
        }
    }
    (lines, doc)
}
pub fn text(r: &mut Rng, size: usize) -> String {
    if r.one_in(3) {
        let mut s = String::new();
        for _ in 0..r.n(3 * size + 2) {
            match r.n(8) {
                0 => s.push(gchar(r)),
                1 => {
                    let (t, _) = value(r, 3, 1);
                    s.push_str(&t)
                }
                2 => {
                    let t = ident(r);
                    s.push_str(&t)
                }
                3 => s.push_str(r.pick(&["[[", "]]", "[", "]", "[[a]]", "[a]", "a=", "a=1\n", "a", "[[a]]\n", "a.b=1\n"])),
                4 => s.push_str(r.pick(&["+", "-", "--", "1-", "1_", "_", "1.", "1..", ".5", "+n", "-na", "+in", "-infx", "nan1", "99999999999999999999", "-9223372036854775808", "-9223372036854775809", "9223372036854775808", "1.e5", "1979-", "1979-05-27T", "0x", "-_", "1e5"])),
                5 => s.push_str(r.pick(&["\"", "\"\"", "\"\"\"", "\"\"\"\"", "\"\\", "\\\"", "'", "#", "# x\n", "\0"])),
                _ => s.push_str(r.pick(&["=", "\n", ",", " ", "\n", "=", "."])),
            }
        }
        return s;
    }
    let (l, _) = document(r, size);
    let t = l.concat();
    mutate(r, &t)
}

fn total(c: &mut Ctx) -> Res {
    let t = text(&mut c.r, c.size);
    c.note(t.clone());
    c.mark(t.as_bytes(), !t.is_empty());
    let _ = TomlParser::parse(&t);
    Ok(())
}
fn long(c: &mut Ctx) -> Res {
    if !c.r.one_in(20) {
        return Ok(());
    }
    let n = 20_000 << c.r.n(3);
    let unit = *c.r.pick(&["a.", "[", "#\n", "\n", "# x\n \t", "a.b.", "1_", "\"\"", "[[a]]\n", "a=[\n", "x=1\n", "\\", "\"\"\"", "[[1]]\n", "-", ",", "=["]);
    let t = format!("{}{}", c.r.pick(&["", "k=", "[", "k=[", "k=\"", "[["]), unit.repeat(n));
    c.note(format!("{} times {:?} after {:?}", n, unit, &t[..5]));
    c.mark(&t.as_bytes()[..16], true);
    let _ = TomlParser::parse(&t);
    Ok(())
}
fn malformed(c: &mut Ctx) -> Res {
    let (l, _) = document(&mut c.r, c.size.min(8));
    let mut t: String = l.concat();
    if !t.is_empty() && !t.ends_with('\n') {
        t.push('\n');
    }
    let key = ident(&mut c.r);
    let plain = if c.r.one_in(3) {
        let s = if c.r.b() { String::new() } else { content(&mut c.r, 4) };
        quoted(&mut c.r, &s)
    } else if key.contains(['\u{d}']) {
        "k".to_string()
    } else {
        key
    };
    let open = {
        // an array whose closing bracket is missing
        let (a, _) = loop {
            let (a, b) = value(&mut c.r, 5, 0);
            if let Toml::SimpleArray(_) = b {
                break (a, b);
            }
        };
        a[..a.len() - 1].to_string()
    };
    let s = content(&mut c.r, 8);
    let q = quoted(&mut c.r, &s);
    let m = {
        let s: String = s.chars().filter(|c| *c != '"').collect();
        multiline(&mut c.r, &s)
    };
    let tail: String = match c.r.n(18) {
        16 => format!("{}={}{}\"\n", plain, &q[..q.len() - 1], no_unicode(&mut c.r)),
        17 => format!("{}={}{}\"\"\"\n", plain, &m[..m.len() - 3], no_unicode(&mut c.r)),
        0 => format!("{}={}", plain, &q[..q.len() - 1]),
        1 => format!("{}={}", plain, open),
        2 => plain.clone(),
        3 => format!("{}\n", plain),
        4 => format!("{}=", plain),
        5 => format!("{}=\n# nothing\n", plain),
        6 => format!("{}=\nzz=1\n", plain),
        7 => format!("[{}", plain),
        8 => format!("[{}\nzz=1\n", plain),
        9 => format!("[[{}]\nzz=1\n", plain),
        10 => format!("[[{}", plain),
        11 => c.r.pick(&["[]\n", "[[]]\n", "[", "[[", "]", "]]\n", "[=]\n", "[,]\n", "[[=]]\n", "[a]]\n", "[[a]\n", "[[\"a\"]\n", "[[,]]\n", "[a,b]\n", "[[[a]]]\n", "= 1\n", ", a = 1\n", "a = 1 = 2\n", "a = ,\n", "a = =\n", "a = ]\n", "\"a\"\n", "\"a\" 1\n", "a b = 1\n"]).to_string(),
        12 => format!("{}={}", plain, &m[..m.len() - 1]),
        13 => format!("{}={}", plain, &m[..m.len() - 3]),
        14 => format!("{} 1\n", plain),
        _ => format!("{}={}\\", plain, &q[..q.len() - 1]),
    };
    t.push_str(&tail);
    c.note(t.clone());
    c.mark(t.as_bytes(), true);
    if let Ok(d) = TomlParser::parse(&t) {
        return Err(format!("{:?} at the end is accepted: {:?}", tail, d));
    }
    Ok(())
}
fn conflict(c: &mut Ctx) -> Res {
    let (k, t) = (ident(&mut c.r), value(&mut c.r, 4, 1).0);
    let s = format!("{}={}\n[[{}]]\nx=1\n", k, t, k);
    c.note(s.clone());
    c.mark(s.as_bytes(), true);
    if let Ok(d) = TomlParser::parse(&s) {
        return Err(format!("an array of tables over another value is accepted: {:?}", d));
    }
    Ok(())
}
fn faithful(c: &mut Ctx) -> Res {
    let (l, d) = document(&mut c.r, c.size);
    let t = l.concat();
    c.note(t.clone());
    c.mark(t.as_bytes(), !d.is_empty());
    match TomlParser::parse(&t) {
        Err(e) => Err(format!("rejected: {:?}; it denotes {:?}", e, d)),
        Ok(g) => {
            chk!(same_doc(&g, &d), "read as {:?}; it denotes {:?}", g, d);
            Ok(())
        }
    }
}
fn one(c: &mut Ctx) -> Res {
    let (t, v) = value(&mut c.r, c.size.min(13), 0);
    let (a, b) = (blanks(&mut c.r), if c.r.one_in(3) { String::new() } else { eol(&mut c.r) });
    let text = format!("k={}{}{}", a, t, b);
    c.note(text.clone());
    c.mark(text.as_bytes(), true);
    match TomlParser::parse(&text) {
        Err(e) => Err(format!("rejected: {:?}; the value is {:?}", e, v)),
        Ok(g) => {
            chk!(g.len() == 1 && g.get("k").is_some_and(|w| same(w, &v)), "read as {:?}; the value is {:?}", g, v);
            Ok(())
        }
    }
}
pub fn c15() -> Vec<Sub> {
    vec![("total", 6, total), ("long", 1, long), ("malformed", 5, malformed), ("conflict", 1, conflict)]
}
pub fn c16() -> Vec<Sub> {
    vec![("document", 3, faithful), ("value", 2, one)]
}
