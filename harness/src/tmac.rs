//! searches shared by JSON and RON
#[macro_export]
macro_rules! text_format {
    ($Ser:ident, $De:ident, $ser:ident, $de:ident, $zero:expr, $aopen:expr, $aclose:expr, $isjson:expr) => {
        use $crate::gen::*;
        use $crate::textfmt::*;
        use $crate::{chk, Ctx, Res, Sub};
        use nanoserde::{$De, $Ser};
        use std::collections::*;
        use std::fmt::Debug;
        use std::time::{Duration, SystemTime};

        pub trait T: $Ser + $De + Gen + Same + Debug + JVal {}
        impl<X: $Ser + $De + Gen + Same + Debug + JVal> T for X {}

        fn de<X: $De>(s: &str) -> Result<X, String> {
            X::$de(s).map_err(|e| format!("{:?}", e))
        }

        // ---------------------------------------------------------------- strings
        fn hostile(c: &mut Ctx) -> String {
            let mut s = String::new();
            let n = 1 + c.r.n(c.size + 1);
            for _ in 0..n {
                match c.r.n(5) {
                    0 => s.push_str(c.r.pick(&["\\", "\"", "\\u", "\\u0041", "\\n", "\\\"", "/*", "*/", "//", "\u{7f}", "\r\n", "\u{1b}", "\0", "\u{1f}", "\u{10ffff}", "\u{2028}", "\\u{41}", "{", "]", ",", ":"])),
                    _ => s.push(gchar(&mut c.r)),
                }
            }
            s
        }
        fn str_rt(c: &mut Ctx) -> Res {
            let s = if c.r.one_in(3) { String::gen(&mut c.r, c.size) } else { hostile(c) };
            string_case(c, s)
        }
        fn str_one(c: &mut Ctx) -> Res {
            // every low character, then random ones, alone or between others
            let x = if c.r.b() { char::from_u32(c.r.n(0x180) as u32).unwrap() } else { gchar(&mut c.r) };
            let s = match c.r.n(4) {
                0 => x.to_string(),
                1 => format!("{}{}", x, c.r.n(10)),
                2 => format!("a{}b", x),
                _ => format!("{}{}", x, gchar(&mut c.r)),
            };
            string_case(c, s)
        }
        fn string_case(c: &mut Ctx, s: String) -> Res {
            let lit = s.$ser();
            c.note(format!("string {:?} serialized as {:?}", s, lit));
            c.mark(s.as_bytes(), !s.is_empty());
            let ch: Vec<char> = lit.chars().collect();
            chk!(ch.len() >= 2 && ch[0] == '"' && ch[ch.len() - 1] == '"', "not a quoted literal");
            if $isjson {
                chk!(!ch.iter().any(|c| (*c as u32) < 32 || *c == '\u{7f}'), "an unescaped control character");
                match serde_json::from_str::<String>(&lit) {
                    Ok(t) => chk!(t == s, "another JSON parser reads {:?}", t),
                    Err(e) => return Err(format!("another JSON parser: {}", e)),
                }
            }
            match literal(&ch[1..], $zero) {
                Ok(Some((t, n))) => chk!(t == s && n == ch.len() - 1, "the literal denotes {:?} and ends at {}", t, n),
                _ => return Err("the literal is malformed".into()),
            }
            let t = de::<String>(&lit)?;
            chk!(t == s, "read back as {:?}", t);
            for f in [",", "]", "}", ":", " 1", "\n//x\n", " \"z\"", "/**/ {", ")"] {
                if f == ")" && $isjson {
                    continue;
                }
                let t = de::<String>(&format!("{}{}", lit, f)).map_err(|e| format!("followed by {:?}: {}", f, e))?;
                chk!(t == s, "followed by {:?}: read back as {:?}", f, t);
            }
            let t = de::<Vec<String>>(&format!("[{},{}]", lit, lit))?;
            chk!(t == vec![s.clone(), s.clone()], "in a sequence: {:?}", t);
            let t = de::<BTreeMap<String, String>>(&format!("{{{}:{}}}", lit, lit))?;
            chk!(t.len() == 1 && t.get(&s) == Some(&s), "in a map: {:?}", t);
            let v = vec![s.clone(), String::new(), s.clone()];
            let t = de::<Vec<String>>(&v.$ser())?;
            chk!(t == v, "vector read back as {:?}", t);
            Ok(())
        }

        // ---------------------------------------------------------------- escapes
        fn escapes(c: &mut Ctx) -> Res {
            let body = gliteral(&mut c.r, c.size.min(8));
            let closed = !c.r.one_in(8);
            let mut text: Vec<char> = body.chars().collect();
            if closed {
                text.push('"');
            }
            let want = match literal(&text, $zero) {
                Ok(x) => x,
                Err(()) => return Ok(()),
            };
            let lit: String = std::iter::once('"').chain(match &want { Some((_, n)) => text[..*n].to_vec(), None => text.clone() }).collect();
            c.note(format!("literal {:?}", lit));
            c.mark(lit.as_bytes(), lit.len() > 2);
            let tails: &[&str] = if want.is_some() { &["", " ", "\n", "]", ","] } else { &["", " ", "\"", "\\", " \"x\""] };
            let tail = *c.r.pick(tails);
            if want.is_none() {
                // what follows must not complete the literal
                let t2: Vec<char> = lit.chars().skip(1).chain(tail.chars()).collect();
                if !matches!(literal(&t2, $zero), Ok(None)) {
                    return Ok(());
                }
            }
            let got = de::<String>(&format!("{}{}", lit, tail));
            cmp(&want, got, "alone")?;
            let got = de::<Vec<String>>(&format!("[\"a\",{}{}", lit, if want.is_some() { ",\"b\"]" } else { tail })).map(|v| v[1].clone());
            cmp(&want, got, "in a sequence")?;
            let got = de::<BTreeMap<String, u8>>(&format!("{{{}{}", lit, if want.is_some() { ":1}" } else { tail })).map(|m| m.keys().next().cloned().unwrap_or_default());
            cmp(&want, got, "as a key")?;
            if $isjson {
                let got = de::<$crate::derived::Plain>(&format!("{{\"zz\":{}{}", lit, if want.is_some() { ",\"a\":7,\"b\":\"q\"}" } else { tail }));
                chk!(got.is_ok() == want.is_some(), "in an ignored field: {:?}", got);
            }
            Ok(())
        }
        fn cmp(want: &Option<(String, usize)>, got: Result<String, String>, how: &str) -> Res {
            match (want, got) {
                (Some((w, _)), Ok(g)) => chk!(*w == g, "{}: read as {:?}, should be {:?}", how, g, w),
                (None, Err(_)) => {}
                (Some((w, _)), Err(e)) => return Err(format!("{}: denotes {:?} but is rejected: {}", how, w, e)),
                (None, Ok(g)) => return Err(format!("{}: malformed, but read as {:?}", how, g)),
            }
            Ok(())
        }
        pub fn strings() -> Vec<Sub> {
            vec![("string", 4, str_rt), ("char", 3, str_one)]
        }
        pub fn escape_subs() -> Vec<Sub> {
            vec![("escape", 1, escapes)]
        }

        // ---------------------------------------------------------------- integers
        trait Int: T + ToString + Copy + PartialEq + std::str::FromStr {}
        impl<X: T + ToString + Copy + PartialEq + std::str::FromStr> Int for X {}
        fn int_rt<X: Int>(c: &mut Ctx) -> Res {
            let v = X::gen(&mut c.r, c.size);
            let s = v.$ser();
            c.note(format!("{} {:?}", std::any::type_name::<X>(), v));
            c.mark(s.as_bytes(), true);
            chk!(s == v.to_string(), "serialized as {:?}", s);
            for (p, q) in [("", ""), (" ", "\n"), ("", ","), ("", "]"), ("", "}"), ("/**/", "//"), ("", ":")] {
                let t = de::<X>(&format!("{}{}{}", p, s, q))?;
                chk!(t == v, "between {:?} and {:?} read back as {:?}", p, q, t);
            }
            Ok(())
        }
        fn int_range<X: Int>(c: &mut Ctx) -> Res {
            let d = gdecimal(&mut c.r);
            c.note(format!("{} from {:?}", std::any::type_name::<X>(), d));
            c.mark(d.as_bytes(), true);
            // std's parser decides whether the number is in range
            let want: Option<X> = d.parse::<X>().ok();
            let see = |got: Result<X, String>, how: &str| -> Res {
                match (&want, got) {
                    (Some(w), Ok(g)) => chk!(*w == g, "{}: read as {:?}", how, g),
                    (None, Err(_)) => {}
                    (Some(_), Err(e)) => return Err(format!("{}: in range but rejected: {}", how, e)),
                    (None, Ok(g)) => return Err(format!("{}: out of range but read as {:?}", how, g)),
                }
                Ok(())
            };
            see(de::<X>(&d), "alone")?;
            see(de::<Vec<X>>(&format!("[1,{}]", d)).map(|v| v[1]), "in a sequence")?;
            see(de::<(X, X)>(&format!("{}{},2{}", $aopen.0, d, $aclose.0)).map(|v| v.0), "in a tuple")?;
            see(de::<BTreeMap<String, X>>(&format!("{{\"k\":{}}}", d)).map(|v| v["k"]), "in a map")?;
            see(de::<Option<X>>(&format!("{}\n", d)).map(|v| v.unwrap()), "under an option")?;
            // other spellings may be refused, but never give another number
            let (neg, digits) = match d.strip_prefix('-') {
                Some(r) => (true, r),
                None => (false, &d[..]),
            };
            let sign = if neg { "-" } else { *c.r.pick(&["", "+"]) };
            let zeros = *c.r.pick(&["", "0", "000"]);
            let tail = *c.r.pick(&["", "", ".0", "e0", ".00E+0"]);
            let spelled = format!("{}{}{}{}", sign, zeros, digits, tail);
            c.note(format!("{} from {:?}", std::any::type_name::<X>(), spelled));
            if let Ok(g) = de::<X>(&spelled) {
                match &want {
                    Some(w) => chk!(*w == g, "read as {:?}", g),
                    // a zero with a minus sign is no negative number
                    None => chk!(digits.bytes().all(|b| b == b'0') && g.to_string() == "0", "out of range but read as {:?}", g),
                }
            }
            Ok(())
        }
        pub fn ints() -> Vec<Sub> {
            vec![
                ("u8", 1, int_rt::<u8>), ("u16", 1, int_rt::<u16>), ("u32", 1, int_rt::<u32>), ("u64", 1, int_rt::<u64>), ("usize", 1, int_rt::<usize>),
                ("i8", 1, int_rt::<i8>), ("i16", 1, int_rt::<i16>), ("i32", 1, int_rt::<i32>), ("i64", 1, int_rt::<i64>),
                ("range u8", 1, int_range::<u8>), ("range u16", 1, int_range::<u16>), ("range u32", 1, int_range::<u32>), ("range u64", 1, int_range::<u64>), ("range usize", 1, int_range::<usize>),
                ("range i8", 1, int_range::<i8>), ("range i16", 1, int_range::<i16>), ("range i32", 1, int_range::<i32>), ("range i64", 1, int_range::<i64>),
            ]
        }

        // ---------------------------------------------------------------- round trips
        fn rt<X: T>(c: &mut Ctx) -> Res {
            set_finite(true);
            let v = X::gen(&mut c.r, c.size);
            set_finite(false);
            c.note(format!("{:?} of type {}", v, std::any::type_name::<X>()));
            let s = v.$ser();
            c.note(format!("{:?} of type {} serialized as {:?}", v, std::any::type_name::<X>(), s));
            c.mark(s.as_bytes(), true);
            if $isjson {
                match serde_json::from_str::<serde_json::Value>(&s) {
                    Ok(j) => chk!(v.is(&j), "another JSON parser reads {:?}", j),
                    Err(e) => return Err(format!("not well-formed: {}", e)),
                }
            }
            let w = de::<X>(&s)?;
            chk!(v.same(&w), "read back as {:?}", w);
            for q in [",", "]", "}", " ", "\n", ":"] {
                let w = de::<X>(&format!("{}{}", s, q)).map_err(|e| format!("followed by {:?}: {}", q, e))?;
                chk!(v.same(&w), "followed by {:?} read back as {:?}", q, w);
            }
            let w = de::<(X, X)>(&format!("{}{},{}{}", $aopen.0, s, s, $aclose.0))?;
            chk!(v.same(&w.0) && v.same(&w.1), "in a tuple read back as {:?}", w);
            let w = de::<Vec<X>>(&format!("[{}]", s))?;
            chk!(w.len() == 1 && v.same(&w[0]), "in a sequence read back as {:?}", w);
            let w = de::<BTreeMap<String, X>>(&format!("{{\"k\":{}}}", s))?;
            chk!(w.len() == 1 && v.same(&w["k"]), "in a map read back as {:?}", w);
            Ok(())
        }
        fn slices(c: &mut Ctx) -> Res {
            let v = Vec::<u16>::gen(&mut c.r, c.size);
            let want = format!("{}{}{}", $aopen.1, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), $aclose.1);
            let s = v[..].$ser();
            c.note(format!("slice {:?} serialized as {:?}", v, s));
            c.mark(s.as_bytes(), true);
            chk!(s == want, "should be {:?}", want);
            let b: [String; 0] = [];
            chk!(b.$ser() == format!("{}{}", $aopen.1, $aclose.1), "empty array as {:?}", b.$ser());
            Ok(())
        }
        fn lengths(c: &mut Ctx) -> Res {
            // exactly the declared number of elements
            let n = c.r.n(6);
            let items = vec!["1"; n].join(",");
            let text = format!("{}{}{}", $aopen.1, items, $aclose.1);
            let ttext = format!("{}{}{}", $aopen.0, items, $aclose.0);
            c.note(format!("{} / {}", text, ttext));
            c.mark(text.as_bytes(), true);
            chk!(de::<[u8; 0]>(&text).is_ok() == (n == 0), "as [u8; 0]: {:?}", de::<[u8; 0]>(&text));
            chk!(de::<[u8; 1]>(&text).is_ok() == (n == 1), "as [u8; 1]: {:?}", de::<[u8; 1]>(&text));
            chk!(de::<[u8; 3]>(&text).is_ok() == (n == 3), "as [u8; 3]: {:?}", de::<[u8; 3]>(&text));
            chk!(de::<(u8, u8)>(&ttext).is_ok() == (n == 2), "as a pair: {:?}", de::<(u8, u8)>(&ttext));
            chk!(de::<(u8, u8, u8)>(&ttext).is_ok() == (n == 3), "as a triple: {:?}", de::<(u8, u8, u8)>(&ttext));
            chk!(de::<(u8, u8, u8, u8)>(&ttext).is_ok() == (n == 4), "as a quadruple: {:?}", de::<(u8, u8, u8, u8)>(&ttext));
            Ok(())
        }
        #[allow(dead_code)]
        fn trailing<X: T>(c: &mut Ctx) -> Res {
            // trailing commas change nothing
            set_finite(true);
            let v = X::gen(&mut c.r, c.size);
            set_finite(false);
            let ts = toks(&v.$ser());
            let mut out: Vec<String> = vec![];
            let mut stack = vec![];
            for (k, t) in ts.iter().enumerate() {
                if t == "[" || t == "{" {
                    stack.push(true)
                } else if t == "(" {
                    stack.push(false)
                }
                if t == "]" || t == "}" || t == ")" {
                    let seq = stack.pop().unwrap();
                    if seq && k > 0 && ts[k - 1] != "[" && ts[k - 1] != "{" {
                        if ts[k - 1] == "," {
                            if c.r.b() {
                                out.pop();
                            }
                        } else if c.r.b() {
                            out.push(",".into())
                        }
                    }
                }
                out.push(t.clone());
            }
            let text = out.concat();
            c.note(format!("{:?} of type {} from {:?}", v, std::any::type_name::<X>(), text));
            c.mark(text.as_bytes(), true);
            let w = de::<X>(&text)?;
            chk!(v.same(&w), "read back as {:?}", w);
            Ok(())
        }

        // ---------------------------------------------------------------- blanks and comments
        fn blanks<X: T>(c: &mut Ctx) -> Res {
            set_finite(true);
            let v = X::gen(&mut c.r, c.size.min(13));
            set_finite(false);
            let ts = toks(&v.$ser());
            let text = spaced(&mut c.r, &ts);
            c.note(format!("{:?} of type {} from {:?}", v, std::any::type_name::<X>(), text));
            c.mark(text.as_bytes(), true);
            let w = de::<X>(&text)?;
            chk!(v.same(&w), "read back as {:?}", w);
            unclosed::<X>(c, &ts)
        }
        fn unclosed<X: T>(c: &mut Ctx, ts: &[String]) -> Res {
            // an unterminated block comment anywhere is an error
            let k = c.r.n(ts.len() + 1);
            let mut t2 = spaced(&mut c.r, &ts[..k]);
            let opener = *c.r.pick(&["/*", "/* ", "/**", "/*/", "/* *", "/*/*", "/* // \n"]);
            let rest = ts[k..].concat();
            let after = format!("{}{}", &opener[2..], rest);
            if !after.contains("*/") {
                t2.push_str("/*");
                t2.push_str(&after);
                c.note(format!("type {} from {:?}", std::any::type_name::<X>(), t2));
                if let Ok(w) = de::<X>(&t2) {
                    return Err(format!("an unterminated comment was accepted: {:?}", w));
                }
            }
            Ok(())
        }

        // ---------------------------------------------------------------- totality
        fn total<X: T>(c: &mut Ctx) -> Res {
            let text = match c.r.n(3) {
                0 => soup(&mut c.r, c.size),
                _ => {
                    let v = X::gen(&mut c.r, c.size);
                    let t = v.$ser();
                    let t = if c.r.b() { spaced(&mut c.r, &toks(&t)) } else { t };
                    mutate(&mut c.r, &t)
                }
            };
            c.note(format!("type {} from {:?}", std::any::type_name::<X>(), text));
            c.mark(text.as_bytes(), !text.is_empty());
            let _ = de::<X>(&text);
            Ok(())
        }
        fn prefixes<X: T>(c: &mut Ctx) -> Res {
            // a premature end of input is an error (closing bracket missing)
            set_finite(true);
            let v = X::gen(&mut c.r, c.size.min(8));
            set_finite(false);
            let t = v.$ser();
            if !t.ends_with(&[']', ')', '}', '"'][..]) {
                return Ok(());
            }
            let ch: Vec<char> = t.chars().collect();
            let n = ch.len();
            for k in 0..n.min(400) {
                // every prefix, or some of them and the longest ones
                let k = if n <= 400 { k } else if k < 40 { n - 1 - k } else if k < 60 { c.r.n(n) } else { break };
                let p: String = ch[..k].iter().collect();
                c.note(format!("type {} from {:?}", std::any::type_name::<X>(), p));
                if let Ok(w) = de::<X>(&p) {
                    return Err(format!("accepted as {:?}, the whole text was {:?}", w, t));
                }
            }
            c.mark(t.as_bytes(), true);
            unclosed::<X>(c, &toks(&t))
        }
        fn many(c: &mut Ctx) -> Res {
            // long inputs of one kind
            if !c.r.one_in(10) {
                return Ok(());
            }
            let n = 20_000 << c.r.n(4);
            let unit = *c.r.pick(&["/**/", "//\n", " ", "\n", "/* x */ ", "/***/"]);
            let text = format!("{}7{}", unit.repeat(n), unit.repeat(n));
            c.note(format!("7 between {} times {:?} on both sides", n, unit));
            c.mark(unit.as_bytes(), true);
            let cur = $crate::CUR.load(std::sync::atomic::Ordering::Relaxed);
            $crate::PEAK.store(cur, std::sync::atomic::Ordering::Relaxed);
            let r = de::<u8>(&text);
            let peak = $crate::PEAK.load(std::sync::atomic::Ordering::Relaxed).saturating_sub(cur);
            chk!(r == Ok(7), "{:?}", r);
            chk!(peak < 8192, "{} bytes were allocated", peak);
            let text = format!("[{}]", format!("{}1,", unit).repeat(n));
            chk!(de::<Vec<u8>>(&text).map(|v| v.len()) == Ok(n), "sequence after comments");
            Ok(())
        }

        macro_rules! types {
            ($f:ident) => {
                vec![
                    ("f64", 3, $f::<f64>), ("f32", 3, $f::<f32>), ("bool", 1, $f::<bool>), ("unit", 1, $f::<()>), ("String", 1, $f::<String>), ("i64", 1, $f::<i64>), ("u64", 1, $f::<u64>),
                    ("Option", 1, $f::<Option<u16>>), ("OptionS", 1, $f::<Option<String>>), ("OptionV", 1, $f::<Option<Vec<i8>>>), ("OptionF", 1, $f::<Option<f64>>), ("Box", 1, $f::<Box<u32>>),
                    ("Vec", 2, $f::<Vec<u8>>), ("VecString", 2, $f::<Vec<String>>), ("VecOpt", 1, $f::<Vec<Option<i16>>>), ("VecUnit", 1, $f::<Vec<()>>), ("VecVec", 1, $f::<Vec<Vec<i16>>>), ("VecF", 1, $f::<Vec<f32>>), ("VecB", 1, $f::<Vec<bool>>),
                    ("A0", 1, $f::<[u8; 0]>), ("A1", 1, $f::<[u16; 1]>), ("A3", 1, $f::<[String; 3]>), ("A33", 1, $f::<[i8; 33]>), ("AA", 1, $f::<[[u16; 2]; 3]>), ("AO", 1, $f::<[Option<bool>; 2]>),
                    ("LinkedList", 2, $f::<LinkedList<String>>), ("LL2", 1, $f::<LinkedList<u32>>), ("HashSet", 2, $f::<HashSet<String>>), ("HashSet2", 1, $f::<HashSet<i32>>), ("BTreeSet", 2, $f::<BTreeSet<u16>>), ("BTreeSet2", 1, $f::<BTreeSet<String>>),
                    ("HashMap", 2, $f::<HashMap<String, u32>>), ("HashMap2", 1, $f::<HashMap<String, Vec<String>>>), ("BTreeMap", 2, $f::<BTreeMap<String, String>>), ("BTreeMap2", 1, $f::<BTreeMap<String, Option<f64>>>),
                    ("T2", 1, $f::<(u8, u32)>), ("T2s", 1, $f::<(String, u16)>), ("T3", 1, $f::<(u8, String, i64)>), ("T4", 1, $f::<(bool, u16, Option<u32>, String)>),
                    ("Duration", 1, $f::<Duration>), ("SystemTime", 1, $f::<SystemTime>),
                    ("mix", 2, $f::<Vec<(Option<HashMap<String, [u16; 2]>>, Box<BTreeSet<i8>>)>>), ("mix2", 1, $f::<BTreeMap<String, Vec<Option<(u8, f32)>>>>), ("mix3", 1, $f::<[Vec<LinkedList<Duration>>; 2]>), ("mix4", 1, $f::<(Vec<f64>, [(); 2], BTreeMap<String, ()>)>),
                ]
            };
        }
        #[allow(dead_code)]
        fn misplaced<X: T>(c: &mut Ctx) -> Res {
            // a token where it does not belong is an error
            set_finite(true);
            let v = X::gen(&mut c.r, c.size.min(8));
            set_finite(false);
            let ts = toks(&v.$ser());
            let at: Vec<usize> = (0..ts.len()).filter(|k| [",", ":", "]", "}", ")"].contains(&ts[*k].as_str())).collect();
            if at.is_empty() {
                return Ok(());
            }
            let k = *c.r.pick(&at);
            let mut out = ts.clone();
            let t = ts[k].as_str();
            let trailing = t == "," && ts.get(k + 1).is_some_and(|n| ["]", "}", ")"].contains(&n.as_str()));
            let sep = t == "," || t == ":";
            match c.r.n(4) {
                0 if sep => out.insert(k, t.to_string()),
                1 if sep && !trailing => out[k] = " ".into(),
                2 if sep => out[k] = (if t == "," { ":" } else { "," }).into(),
                3 if sep => out.insert(k, (*c.r.pick(&[":", ";", "="])).into()),
                _ if sep => out.insert(k + 1, (*c.r.pick(&[":", ",", ";"])).into()),
                0 | 1 => out[k] = (*["]", "}", ")"].iter().filter(|x| **x != t).nth(c.r.n(2)).unwrap()).into(),
                2 => out.insert(k, ":".into()),
                _ => {
                    let twice = ts[k - 1] == "," || ["[", "{", "("].contains(&ts[k - 1].as_str());
                    for _ in 0..if twice { 1 } else { 2 } {
                        out.insert(k, ",".into())
                    }
                }
            }
            let text = if c.r.b() { spaced(&mut c.r, &out) } else { out.join(" ") };
            c.note(format!("type {} from {:?}, the right text was {:?}", std::any::type_name::<X>(), text, ts.concat()));
            c.mark(text.as_bytes(), true);
            if let Ok(w) = de::<X>(&text) {
                return Err(format!("accepted as {:?}", w));
            }
            Ok(())
        }
        #[allow(dead_code)]
        pub fn misplaced_subs() -> Vec<Sub> {
            types!(misplaced)
        }
        pub fn round() -> Vec<Sub> {
            let mut v: Vec<Sub> = types!(rt);
            v.push(("slice", 1, slices));
            v.push(("length", 2, lengths));
            v
        }
        pub fn blank_subs() -> Vec<Sub> {
            types!(blanks)
        }
        pub fn total_subs() -> Vec<Sub> {
            let mut v: Vec<Sub> = types!(total);
            v.push(("many", 1, many));
            v
        }
        #[allow(dead_code)]
        pub fn prefix_subs() -> Vec<Sub> {
            types!(prefixes)
        }
        #[allow(dead_code)]
        pub fn trailing_subs() -> Vec<Sub> {
            types!(trailing)
        }
    };
}
