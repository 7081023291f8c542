//! derived types (C17 to C19): the catalogue
use crate::cat;
use crate::gen::*;
use crate::textfmt::*;
use crate::{chk, Ctx, Res, Sub};
pub use catalogue::Plain;
use nanoserde::*;
use std::fmt::Debug;

pub enum Want<T> {
    Value(T),
    /// any error
    Fail,
    /// an error naming one of these fields
    Missing(Vec<&'static str>),
}

pub fn shuffle(r: &mut Rng, v: &mut [usize]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.n(i + 1));
    }
}
pub fn respace(r: &mut Rng, t: &str) -> String {
    if r.b() {
        return t.to_string();
    }
    spaced(r, &toks(t))
}
pub fn plain_ident(s: &str) -> bool {
    s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}
pub fn unknown_name(r: &mut Rng, known: &[&str]) -> String {
    loop {
        if let Some(d) = dstr(r, 3) {
            if plain_ident(&d) && !known.contains(&d.as_str()) {
                return d;
            }
        }
        if let Some(n) = dlen(r, 6, 2000) {
            let s = "w".repeat(n.max(1));
            if !known.contains(&s.as_str()) {
                return s;
            }
        }
        let s = match r.n(4) {
            0 if !known.is_empty() => format!("{}{}", r.pick(known), r.pick(&["x", "_", "0", "b"])),
            1 if !known.is_empty() => {
                let k = *r.pick(known);
                init(k).to_string()
            }
            2 if !known.is_empty() => {
                let k = *r.pick(known);
                if k.to_uppercase() == k {
                    k.to_lowercase()
                } else {
                    k.to_uppercase()
                }
            }
            _ => r.pick(&["zz", "other", "_q", "unknown_field", "Z9"]).to_string(),
        };
        if plain_ident(&s) && !known.contains(&s.as_str()) {
            return s;
        }
    }
}
/// a value of any shape
pub fn unknown_j(r: &mut Rng, d: usize) -> String {
    if let Some(n) = dlen(r, 6, 120) {
        let v = unknown_j(r, 0);
        return match r.n(4) {
            0 => format!("{}{}{}", "[".repeat(n), v, "]".repeat(n)),
            1 => format!("{}{}{}", "{\"a\":".repeat(n), v, "}".repeat(n)),
            2 => format!("[{}1]", "1,".repeat(n)),
            _ => format!("\"{}\"", "a".repeat(n)),
        };
    }
    match r.n(if d == 0 { 8 } else { 11 }) {
        0 => i64::gen(r, 1).to_string(),
        1 => "null".into(),
        2 => r.b().to_string(),
        3 => format!("\"{}\"", r.pick(&["", "a", "}", "]", "{\\\"", "\\\\", "//", "/*", ",", ":", "\\u0041", "{[", "\\\\\\\""])),
        4 => "1.5e3".into(),
        5 => "[]".into(),
        6 => "{}".into(),
        7 => "-0.25".into(),
        8 => {
            let n = r.n(4);
            format!("[{}]", (0..n).map(|_| unknown_j(r, d - 1)).collect::<Vec<_>>().join(","))
        }
        9 => {
            let n = r.n(4);
            format!("{{{}}}", (0..n).map(|i| format!("\"{}\":{}", ["a", "b", "}", "k"][i], unknown_j(r, d - 1))).collect::<Vec<_>>().join(","))
        }
        _ => format!("[{{\"a\":{}}},{}]", unknown_j(r, d - 1), unknown_j(r, d - 1)),
    }
}
pub fn unknown_r(r: &mut Rng, d: usize) -> String {
    if let Some(n) = dlen(r, 6, 2000) {
        return format!("\"{}\"", "a".repeat(n));
    }
    match r.n(6) {
        0 => "1".into(),
        1 => "None".into(),
        2 => "\"x\"".into(),
        3 => "true".into(),
        4 => "(a:1)".into(),
        _ => format!("[{}]", d),
    }
}
pub fn fields_j(r: &mut Rng, items: &[(String, String)]) -> String {
    let mut ts: Vec<String> = vec!["{".into()];
    for (i, (k, v)) in items.iter().enumerate() {
        ts.push(format!("\"{}\"", k));
        ts.push(":".into());
        ts.extend(toks(v));
        if i + 1 < items.len() || r.one_in(6) {
            ts.push(",".into());
        }
    }
    ts.push("}".into());
    if r.b() {
        ts.concat()
    } else {
        spaced(r, &ts)
    }
}
pub fn fields_r(r: &mut Rng, items: &[(String, String)]) -> String {
    let mut ts: Vec<String> = vec!["(".into()];
    for (i, (k, v)) in items.iter().enumerate() {
        ts.push(k.clone());
        ts.push(":".into());
        ts.extend(toks(v));
        if i + 1 < items.len() || r.b() {
            ts.push(",".into());
        }
    }
    ts.push(")".into());
    if r.b() {
        ts.concat()
    } else {
        spaced(r, &ts)
    }
}
/// all but the last character
fn init(k: &str) -> &str {
    let mut i = k.chars();
    i.next_back();
    i.as_str()
}
fn jq(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
pub fn wrong_name(r: &mut Rng, names: &[&str]) -> String {
    loop {
        let n = *r.pick(names);
        let s = match r.n(5) {
            0 => format!("{}x", n),
            1 => init(n).to_string(),
            2 => n.to_lowercase(),
            3 => n.to_uppercase(),
            _ => "Nope".to_string(),
        };
        if !s.is_empty() && !names.contains(&s.as_str()) {
            return s;
        }
    }
}
pub fn wrong_variant_j(r: &mut Rng, names: &[&str], kinds: &[&str]) -> String {
    // an unknown name, or a known one in the wrong form
    let i = r.n(names.len());
    if r.b() {
        return match kinds[i] {
            "unit" => format!("{{{}:[]}}", jq(names[i])),
            _ => jq(names[i]),
        };
    }
    let w = wrong_name(r, names);
    match r.n(3) {
        0 => jq(&w),
        1 => format!("{{{}:[1]}}", jq(&w)),
        _ => format!("{{{}:{{\"a\":1}}}}", jq(&w)),
    }
}
pub fn wrong_variant_r(r: &mut Rng, names: &[&str], kinds: &[&str]) -> String {
    let i = r.n(names.len());
    if r.b() && kinds[i] != "unit" {
        return names[i].to_string();
    }
    let w = wrong_name(r, names);
    match r.n(3) {
        0 => w,
        1 => format!("{}(1)", w),
        _ => format!("{}(a:1)", w),
    }
}

fn judge<T: Same + Debug>(c: &mut Ctx, text: &str, want: Want<T>, got: Result<T, String>) -> Res {
    c.note(text);
    c.mark(text.as_bytes(), text.len() > 2);
    match (want, got) {
        (Want::Value(v), Ok(x)) => chk!(v.same(&x), "read as {:?}, expected {:?}", x, v),
        (Want::Value(v), Err(e)) => return Err(format!("rejected with {}, expected {:?}", e, v)),
        (Want::Fail, Ok(x)) => return Err(format!("accepted as {:?}", x)),
        (Want::Missing(m), Ok(x)) => return Err(format!("accepted as {:?} although {:?} is missing", x, m)),
        (Want::Missing(m), Err(e)) => chk!(m.iter().any(|k| e.contains(k)), "error {:?} names none of {:?}", e, m),
        (Want::Fail, Err(_)) => {}
    }
    Ok(())
}
pub fn j_judge<T: DeJson + Same + Debug>(c: &mut Ctx, text: &str, want: Want<T>) -> Res {
    // the same document on its own or inside something else
    let (text, got) = match c.r.n(10) {
        0 => (format!("[{}\n]", text), 0),
        1 => (format!("[{}\n,7]", text), 1),
        2 => (format!("[7,{}\n]", text), 2),
        3 => (format!("[{}\n]", text), 3),
        4 => (format!("{{\"k\":{}\n}}", text), 4),
        _ => (text.to_string(), 9),
    };
    let e = |e: DeJsonErr| format!("{:?}", e);
    let got = match got {
        0 => Vec::<T>::deserialize_json(&text).map_err(e).map(|mut v| v.pop().unwrap()),
        1 => <(T, u8)>::deserialize_json(&text).map_err(e).map(|v| v.0),
        2 => <(u8, T)>::deserialize_json(&text).map_err(e).map(|v| v.1),
        3 => <[T; 1]>::deserialize_json(&text).map_err(e).map(|[v]| v),
        4 => std::collections::BTreeMap::<String, T>::deserialize_json(&text).map_err(e).map(|mut v| v.remove("k").unwrap()),
        _ => T::deserialize_json(&text).map_err(e),
    };
    judge(c, &text, want, got)
}
pub fn r_judge<T: DeRon + Same + Debug>(c: &mut Ctx, text: &str, want: Want<T>) -> Res {
    let (text, got) = match c.r.n(10) {
        0 => (format!("[{}\n]", text), 0),
        1 => (format!("({}\n,7)", text), 1),
        2 => (format!("(7,{}\n)", text), 2),
        3 => (format!("({}\n)", text), 3),
        4 => (format!("{{\"k\":{}\n}}", text), 4),
        _ => (text.to_string(), 9),
    };
    let e = |e: DeRonErr| format!("{:?}", e);
    let got = match got {
        0 => Vec::<T>::deserialize_ron(&text).map_err(e).map(|mut v| v.pop().unwrap()),
        1 => <(T, u8)>::deserialize_ron(&text).map_err(e).map(|v| v.0),
        2 => <(u8, T)>::deserialize_ron(&text).map_err(e).map(|v| v.1),
        3 => <[T; 1]>::deserialize_ron(&text).map_err(e).map(|[v]| v),
        4 => std::collections::BTreeMap::<String, T>::deserialize_ron(&text).map_err(e).map(|mut v| v.remove("k").unwrap()),
        _ => T::deserialize_ron(&text).map_err(e),
    };
    judge(c, &text, want, got)
}
pub fn j_doc_none(_: &mut Ctx) -> Res {
    Ok(())
}

pub fn bin_case<T: crate::bin::All>(c: &mut Ctx, nvariants: usize) -> Res {
    set_finite(false);
    let v = T::gen(&mut c.r, c.size.min(8));
    let mut b = vec![9u8; c.r.n(3)];
    let pre = b.clone();
    v.ser_bin(&mut b);
    c.note(format!("value {:?} of {}: {:?}", v, std::any::type_name::<T>(), &b[pre.len()..]));
    c.mark(&b, b.len() > pre.len());
    let mut w = pre.clone();
    v.wire(&mut w);
    chk!(b == w, "expected the bytes {:?}", &w[pre.len()..]);
    let post: Vec<u8> = (0..c.r.n(4)).map(|_| c.r.next() as u8).collect();
    let mut all = b.clone();
    all.extend(&post);
    let mut o = pre.len();
    match T::de_bin(&mut o, &all) {
        Ok(x) => {
            chk!(v.same(&x), "decoded as {:?}", x);
            chk!(o == b.len(), "decoding ended at {} instead of {}", o, b.len());
        }
        Err(e) => return Err(format!("decoding failed: {:?}", e)),
    }
    for k in pre.len()..b.len() {
        let mut o = pre.len();
        if let Ok(x) = T::de_bin(&mut o, &b[..k]) {
            return Err(format!("cut after {} bytes: decoded as {:?}", k - pre.len(), x));
        }
    }
    if nvariants > 0 {
        for k in [nvariants, nvariants + 1, 255, 256, 257, 300, 511, 512, 65535, nvariants + 256, c.r.n(65536)] {
            if k < nvariants || k > 65535 {
                continue;
            }
            let mut t = vec![(k & 255) as u8, (k >> 8) as u8];
            t.extend(&all);
            if let Ok(x) = T::deserialize_bin(&t) {
                return Err(format!("unknown variant {} decoded as {:?}", k, x));
            }
        }
    }
    // arbitrary bytes: no panic
    let n = c.r.n(12);
    let t: Vec<u8> = (0..n).map(|_| if c.r.b() { 0 } else { c.r.n(4) as u8 }).collect();
    c.note(format!("bytes {:?} as {}", t, std::any::type_name::<T>()));
    let mut o = 0;
    let r = T::de_bin(&mut o, &t);
    if let Ok(x) = r {
        chk!(o <= t.len(), "offset {} beyond the input", o);
        let mut w = vec![];
        x.wire(&mut w);
        chk!(w.len() == o, "{:?} decoded from {} bytes but its encoding has {}", x, o, w.len());
    }
    Ok(())
}
pub fn j_case<T: SerJson + DeJson + Gen + Same + Debug + JVal>(c: &mut Ctx) -> Res {
    set_finite(true);
    let v = T::gen(&mut c.r, c.size.min(8));
    let t = v.serialize_json();
    c.note(format!("value {:?} serialized as {}", v, t));
    c.mark(t.as_bytes(), t.len() > 2);
    match serde_json::from_str::<serde_json::Value>(&t) {
        Ok(j) => chk!(v.is(&j), "another JSON parser reads {}", j),
        Err(e) => return Err(format!("another JSON parser: {}", e)),
    }
    let got = T::deserialize_json(&t).map_err(|e| format!("{:?}", e));
    match &got {
        Ok(x) => chk!(v.same(x), "read back as {:?}", x),
        Err(e) => return Err(format!("rejected: {}", e)),
    }
    let t2 = respace(&mut c.r, &t);
    c.note(t2.clone());
    match T::deserialize_json(&t2) {
        Ok(x) => chk!(v.same(&x), "read back as {:?}", x),
        Err(e) => return Err(format!("rejected: {:?}", e)),
    }
    let two = format!("[{},{}]", t, t);
    c.note(two.clone());
    match Vec::<T>::deserialize_json(&two) {
        Ok(x) => chk!(x.len() == 2 && v.same(&x[0]) && v.same(&x[1]), "read back as {:?}", x),
        Err(e) => return Err(format!("rejected: {:?}", e)),
    }
    Ok(())
}
pub fn r_case<T: SerRon + DeRon + Gen + Same + Debug>(c: &mut Ctx) -> Res {
    set_finite(true);
    let v = T::gen(&mut c.r, c.size.min(8));
    let t = v.serialize_ron();
    c.note(format!("value {:?} serialized as {}", v, t));
    c.mark(t.as_bytes(), t.len() > 2);
    match T::deserialize_ron(&t) {
        Ok(x) => chk!(v.same(&x), "read back as {:?}", x),
        Err(e) => return Err(format!("rejected: {:?}", e)),
    }
    let t2 = respace(&mut c.r, &t);
    c.note(t2.clone());
    match T::deserialize_ron(&t2) {
        Ok(x) => chk!(v.same(&x), "read back as {:?}", x),
        Err(e) => return Err(format!("rejected: {:?}", e)),
    }
    let two = format!("[{},{}]", t, t);
    c.note(two.clone());
    match Vec::<T>::deserialize_ron(&two) {
        Ok(x) => chk!(x.len() == 2 && v.same(&x[0]) && v.same(&x[1]), "read back as {:?}", x),
        Err(e) => return Err(format!("rejected: {:?}", e)),
    }
    Ok(())
}
/// malformed documents of the catalogue types: no panic, no hang
fn tj(c: &mut Ctx) -> Res {
    let k = c.r.n(cat::JSON.len());
    let base = { (cat::JSON[k].1)(c)?; c.note.clone() };
    let t = if c.r.b() { mutate(&mut c.r, &base) } else { soup(&mut c.r, c.size) };
    c.note(t.clone());
    c.mark(t.as_bytes(), !t.is_empty());
    for m in cat::JTOTAL {
        m(&t);
    }
    Ok(())
}
fn tr(c: &mut Ctx) -> Res {
    let k = c.r.n(cat::RON.len());
    let base = { (cat::RON[k].1)(c)?; c.note.clone() };
    let t = if c.r.b() { mutate(&mut c.r, &base) } else { soup(&mut c.r, c.size) };
    c.note(t.clone());
    c.mark(t.as_bytes(), !t.is_empty());
    for m in cat::RTOTAL {
        m(&t);
    }
    Ok(())
}
pub fn jtotal<T: DeJson>(t: &str) {
    let _ = T::deserialize_json(t);
}
pub fn rtotal<T: DeRon>(t: &str) {
    let _ = T::deserialize_ron(t);
}
pub fn total_json() -> Vec<Sub> {
    vec![("derived", 8, tj)]
}
pub fn total_ron() -> Vec<Sub> {
    vec![("derived", 8, tr)]
}
fn bsub(c: &mut Ctx) -> Res {
    let k = c.r.n(cat::BIN.len());
    (cat::BIN[k].1)(c, cat::BIN[k].2)
}
fn jsub(c: &mut Ctx) -> Res {
    let k = c.r.n(cat::JSON.len());
    (cat::JSON[k].1)(c)
}
fn jdoc(c: &mut Ctx) -> Res {
    let k = c.r.n(cat::JSON.len());
    (cat::JSON[k].2)(c)
}
fn rsub(c: &mut Ctx) -> Res {
    let k = c.r.n(cat::RON.len());
    (cat::RON[k].1)(c)
}
fn rdoc(c: &mut Ctx) -> Res {
    let k = c.r.n(cat::RON.len());
    (cat::RON[k].2)(c)
}
pub fn c17() -> Vec<Sub> {
    vec![("binary", 4, bsub)]
}
pub fn c18() -> Vec<Sub> {
    vec![("values", 4, jsub), ("documents", 8, jdoc)]
}
pub fn c19() -> Vec<Sub> {
    vec![("values", 4, rsub), ("documents", 8, rdoc)]
}
