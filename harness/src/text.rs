//! C22: error positions
use crate::gen::*;
use crate::textfmt::*;
use crate::{chk, Ctx, Res, Sub};
use nanoserde::*;
use std::collections::*;

type V = Vec<(Option<String>, BTreeMap<String, Vec<i16>>)>;

fn pos<X: DeJson + DeRon>(json: bool, t: &str) -> Option<(usize, usize, String)> {
    if json {
        X::deserialize_json(t).err().map(|e| (e.line, e.col, format!("{:?}", e)))
    } else {
        X::deserialize_ron(t).err().map(|e| (e.line, e.col, format!("{:?}", e)))
    }
}
fn shown(l: usize, c: usize, m: &str) -> Res {
    let tail = format!("line:{} col:{}", l + 1, c + 1);
    chk!(m.ends_with(&tail), "the message {:?} does not show line {} column {} (counted from one)", m, l + 1, c + 1);
    Ok(())
}
/// the reported place is the furthest character read: what comes after it cannot matter
fn furthest(r: &mut Rng, t: &str, p: &(usize, usize, String), f: &dyn Fn(&str) -> Option<(usize, usize, String)>) -> Res {
    let n = t.chars().count();
    let k = match (0..=n).find(|k| position(t, *k) == (p.0, p.1)) {
        None => return Err(format!("{} is not a place in the input", p.2)),
        Some(k) => k,
    };
    if k == n {
        return Ok(());
    }
    let head: String = t.chars().take(k).collect();
    for i in 0..4 {
        let tail = match i {
            0 => String::new(),
            1 => r.pick(&["\n1\n", "\n=1\n", "\"", "]}", ")", "*/1", " ", "1", "a"]).to_string(),
            2 => t.chars().skip(k + 1).collect(),
            _ => soup(r, 3),
        };
        let u = format!("{}{}", head, tail);
        match f(&u) {
            None => return Err(format!("{} depends on what comes after that place: {:?} is no error", p.2, u)),
            Some(q) => chk!((q.0, q.1) == (p.0, p.1), "{} depends on what comes after that place: {:?} gives {}", p.2, u, q.2),
        }
    }
    Ok(())
}
fn anywhere(c: &mut Ctx) -> Res {
    let json = c.r.b();
    let t = match c.r.n(3) {
        0 => soup(&mut c.r, c.size),
        _ => {
            let v = V::gen(&mut c.r, c.size.min(13));
            let s = if json { v.serialize_json() } else { v.serialize_ron() };
            let s = spaced(&mut c.r, &toks(&s));
            mutate(&mut c.r, &s)
        }
    };
    c.note(format!("{} {:?}", if json { "JSON" } else { "RON" }, t));
    c.mark(t.as_bytes(), !t.is_empty());
    let fs: [&dyn Fn(&str) -> Option<(usize, usize, String)>; 6] =
        [&|t| pos::<V>(json, t), &|t| pos::<u8>(json, t), &|t| pos::<String>(json, t), &|t| pos::<crate::derived::Plain>(json, t), &|t| pos::<[u8; 2]>(json, t), &|t| pos::<BTreeMap<String, f64>>(json, t)];
    for f in fs {
        if let Some(p) = f(&t) {
            furthest(&mut c.r, &t, &p, f)?;
            shown(p.0, p.1, &p.2)?;
        }
    }
    Ok(())
}
/// a character no token starts with, after a valid beginning: it is the furthest one read
fn exact(c: &mut Ctx) -> Res {
    let json = c.r.b();
    let v = V::gen(&mut c.r, c.size.min(13));
    let ts = toks(&if json { v.serialize_json() } else { v.serialize_ron() });
    let k = c.r.n(ts.len() + 1);
    let mut t = spaced(&mut c.r, &ts[..k]);
    let n = t.chars().count();
    t.push(*c.r.pick(&['@', '#', ';', '\u{e9}', '\u{1f600}', '\\']));
    let rest = spaced(&mut c.r, &ts[k..]);
    t.push_str(&rest);
    c.note(format!("{} {:?}", if json { "JSON" } else { "RON" }, t));
    c.mark(t.as_bytes(), true);
    let p = match pos::<V>(json, &t) {
        None => return Err("accepted".into()),
        Some(p) => p,
    };
    chk!((p.0, p.1) == position(&t, n + 1), "{}: the offending character is at {:?} (counted from zero)", p.2, position(&t, n + 1));
    shown(p.0, p.1, &p.2)
}
/// a wrong token: the error is not before it, and the furthest character read is at most the one after the next token
fn wrong(c: &mut Ctx) -> Res {
    let json = c.r.b();
    let v = V::gen(&mut c.r, c.size.min(13));
    let ts = toks(&if json { v.serialize_json() } else { v.serialize_ron() });
    let k = c.r.n(ts.len());
    let mut t = spaced(&mut c.r, &ts[..k]);
    let l0 = position(&t, t.chars().count()).0;
    let bad = if ts[k] == ":" || ts[k] == "," || ts[k] == "]" || ts[k] == "}" || ts[k] == ")" { "{" } else { ":" };
    t.push_str(bad);
    // the reader looks one token ahead at most
    let f = filler(&mut c.r, false);
    t.push_str(&f);
    t.push_str("true");
    let l1 = position(&t, t.chars().count() + 1).0;
    t.push_str(" \n 1 \n 2");
    c.note(format!("{} {:?}", if json { "JSON" } else { "RON" }, t));
    c.mark(t.as_bytes(), true);
    let p = match pos::<V>(json, &t) {
        None => return Ok(()),
        Some(p) => p,
    };
    furthest(&mut c.r, &t, &p, &|t| pos::<V>(json, t))?;
    chk!(p.0 >= l0, "{}: the wrong token is on line {} (counted from zero)", p.2, l0);
    let _ = l1;
    shown(p.0, p.1, &p.2)
}
fn toml_anywhere(c: &mut Ctx) -> Res {
    let t = crate::toml::text(&mut c.r, c.size);
    c.note(format!("TOML {:?}", t));
    c.mark(t.as_bytes(), !t.is_empty());
    if let Err(e) = TomlParser::parse(&t) {
        let f = |t: &str| TomlParser::parse(t).err().map(|e| (e.line, e.col, format!("{:?}", e)));
        furthest(&mut c.r, &t, &(e.line, e.col, format!("{:?}", e)), &f)?;
        shown(e.line, e.col, &format!("{:?}", e))?;
    }
    Ok(())
}
fn toml_exact(c: &mut Ctx) -> Res {
    let (ls, _) = crate::toml::document(&mut c.r, c.size.min(13));
    let k = c.r.n(ls.len() + 1);
    let mut t: String = ls[..k].concat();
    if !t.is_empty() && !t.ends_with('\n') {
        t.push('\n');
    }
    t.push_str(c.r.pick(&["", " ", "\t", "\n\n", "# x\n"]));
    let n = t.chars().count();
    t.push(*c.r.pick(&['@', '\'', '{', '\u{1}', '!', '\\']));
    t.push('\n');
    t.push_str(&ls[k..].concat());
    c.note(format!("TOML {:?}", t));
    c.mark(t.as_bytes(), true);
    match TomlParser::parse(&t) {
        Ok(_) => Err("accepted".into()),
        Err(e) => {
            chk!((e.line, e.col) == position(&t, n + 1), "{:?}: the offending character is at {:?} (counted from zero)", e, position(&t, n + 1));
            shown(e.line, e.col, &format!("{:?}", e))
        }
    }
}
pub fn c22() -> Vec<Sub> {
    vec![("anywhere", 3, anywhere), ("exact", 3, exact), ("wrong", 3, wrong), ("toml anywhere", 2, toml_anywhere), ("toml exact", 2, toml_exact)]
}
