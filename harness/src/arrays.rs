//! C20: fixed-size arrays own each decoded element exactly once
use crate::{chk, Ctx, Res, Sub};
use nanoserde::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::str::Chars;

thread_local! {
    // live elements: serial number -> value
    static LIVE: RefCell<BTreeMap<u64, u8>> = const { RefCell::new(BTreeMap::new()) };
    static NEXT: RefCell<u64> = const { RefCell::new(1) };
    static BAD: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}
const MAGIC: u64 = 0x5eed_cafe_f00d_1234;
/// an element that registers its creation and its drop
pub struct E {
    magic: u64,
    id: u64,
    v: u8,
}
impl E {
    fn new(v: u8) -> E {
        let id = NEXT.with(|n| {
            let mut n = n.borrow_mut();
            *n += 1;
            *n
        });
        LIVE.with(|l| l.borrow_mut().insert(id, v));
        E { magic: MAGIC ^ id, id, v }
    }
}
impl Drop for E {
    fn drop(&mut self) {
        if self.magic != MAGIC ^ self.id {
            BAD.with(|b| b.borrow_mut().push(format!("dropped something that was never decoded ({:#x}, {})", self.magic, self.id)));
            return;
        }
        let known = LIVE.with(|l| l.borrow_mut().remove(&self.id).is_some());
        if !known {
            BAD.with(|b| b.borrow_mut().push(format!("element {} dropped twice", self.v)));
        }
    }
}
// 250 and above do not decode
impl DeBin for E {
    fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
        let v = u8::de_bin(o, d)?;
        if v >= 250 {
            return Err(DeBinErr::new(*o, 1, 0));
        }
        Ok(E::new(v))
    }
}
impl DeJson for E {
    fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<Self, DeJsonErr> {
        let v = u8::de_json(s, i)?;
        if v >= 250 {
            return Err(s.err_range("E"));
        }
        Ok(E::new(v))
    }
}
impl DeRon for E {
    fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<Self, DeRonErr> {
        let v = u8::de_ron(s, i)?;
        if v >= 250 {
            return Err(s.err_range("E"));
        }
        Ok(E::new(v))
    }
}
/// zero-sized element
pub struct Z;
thread_local! { static ZS: RefCell<(i64, i64)> = const { RefCell::new((0, 0)) }; }
impl Drop for Z {
    fn drop(&mut self) {
        ZS.with(|z| z.borrow_mut().1 += 1)
    }
}
impl DeBin for Z {
    fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
        u8::de_bin(o, d)?;
        ZS.with(|z| z.borrow_mut().0 += 1);
        Ok(Z)
    }
}
impl DeJson for Z {
    fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<Self, DeJsonErr> {
        u8::de_json(s, i)?;
        ZS.with(|z| z.borrow_mut().0 += 1);
        Ok(Z)
    }
}
impl DeRon for Z {
    fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<Self, DeRonErr> {
        u8::de_ron(s, i)?;
        ZS.with(|z| z.borrow_mut().0 += 1);
        Ok(Z)
    }
}

fn clear() {
    LIVE.with(|l| l.borrow_mut().clear());
    BAD.with(|b| b.borrow_mut().clear());
    ZS.with(|z| *z.borrow_mut() = (0, 0));
}
fn bad() -> Res {
    let b = BAD.with(|b| b.borrow().clone());
    chk!(b.is_empty(), "{}", b.join("; "));
    Ok(())
}
fn live() -> Vec<u8> {
    LIVE.with(|l| l.borrow().values().cloned().collect())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum F {
    Bin,
    Json,
    Ron,
}
fn dec<X: DeBin + DeJson + DeRon>(f: F, bytes: &[u8], text: &str) -> Result<X, String> {
    match f {
        F::Bin => X::deserialize_bin(bytes).map_err(|e| format!("{:?}", e)),
        F::Json => X::deserialize_json(text).map_err(|e| format!("{:?}", e)),
        F::Ron => X::deserialize_ron(text).map_err(|e| format!("{:?}", e)),
    }
}

fn arr<const N: usize>(c: &mut Ctx, f: F) -> Res {
    clear();
    let n = if c.r.b() { N } else { c.r.n(N + 3) };
    let failing = c.r.b();
    let vals: Vec<u8> = (0..n).map(|_| if failing && c.r.one_in(N + 2) { 250 } else { c.r.n(200) as u8 }).collect();
    let (op, cl) = if f == F::Json { ("[", "]") } else { ("(", ")") };
    let mut text = op.to_string();
    let mut intact = true;
    for (k, v) in vals.iter().enumerate() {
        if k > 0 {
            if failing && c.r.one_in(10) {
                intact = false;
                text.push_str(*c.r.pick(&["", " ", ":", ";", ",,", "]", ")"]))
            } else {
                text.push(',')
            }
        }
        text.push_str(&v.to_string());
    }
    text.push_str(if failing && c.r.one_in(3) { *c.r.pick(&["", ",", "}", ")", "]", " @", ",@", ": "]) } else { cl });
    if !failing && c.r.one_in(4) {
        text.push_str(*c.r.pick(&[" @", "/*", "\"", " x", " 'q"]));
    }
    let mut b = vals.clone();
    if failing && c.r.one_in(3) {
        b.truncate(c.r.n(n + 1));
    }
    c.note(format!("[E; {}] in {:?} from {:?} / {:?}", N, f, text, b));
    c.mark(text.as_bytes(), true);
    match dec::<[E; N]>(f, &b, &text) {
        Ok(a) => {
            bad()?;
            let got: Vec<u8> = a.iter().map(|e| if e.magic == MAGIC ^ e.id { e.v } else { 255 }).collect();
            let want = &vals[..N.min(vals.len())];
            chk!(got == want || f != F::Bin && !intact, "the array holds {:?}", got);
            chk!(live().len() == N, "{} elements are alive, the array holds {}", live().len(), N);
            drop(a);
            bad()?;
            chk!(live().is_empty(), "elements {:?} leaked", live());
        }
        Err(_) => {
            bad()?;
            chk!(live().is_empty(), "decoding failed; elements {:?} leaked", live());
        }
    }
    // the same with zero-sized elements
    clear();
    let r = dec::<[Z; N]>(f, &b, &text);
    let (made, gone) = ZS.with(|z| *z.borrow());
    chk!(made - gone == if r.is_ok() { N as i64 } else { 0 }, "zero-sized: {} decoded, {} dropped, success {}", made, gone, r.is_ok());
    drop(r);
    let (made, gone) = ZS.with(|z| *z.borrow());
    chk!(made == gone, "zero-sized: {} decoded, {} dropped at the end", made, gone);
    Ok(())
}
/// a large element
pub struct G(E, [u64; 600]);
impl DeBin for G {
    fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
        Ok(G(E::de_bin(o, d)?, [7; 600]))
    }
}
impl DeJson for G {
    fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<Self, DeJsonErr> {
        Ok(G(E::de_json(s, i)?, [7; 600]))
    }
}
impl DeRon for G {
    fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<Self, DeRonErr> {
        Ok(G(E::de_ron(s, i)?, [7; 600]))
    }
}
fn large(c: &mut Ctx, f: F) -> Res {
    clear();
    let failing = c.r.b();
    let vals: Vec<u8> = (0..5).map(|_| if failing && c.r.one_in(6) { 250 } else { c.r.n(200) as u8 }).collect();
    let (op, cl) = if f == F::Json { ("[", "]") } else { ("(", ")") };
    let mut text = format!("{op}{},{},{},{},{}{cl}", vals[0], vals[1], vals[2], vals[3], vals[4]);
    let mut b = vals.clone();
    if failing && c.r.b() {
        b.truncate(c.r.n(6));
        text.truncate(c.r.n(text.len() + 1));
    }
    c.note(format!("[G; 5] (large elements) in {:?} from {:?} / {:?}", f, text, b));
    c.mark(text.as_bytes(), true);
    if let Ok(a) = dec::<[G; 5]>(f, &b, &text) {
        bad()?;
        let got: Vec<u8> = a.iter().filter(|g| g.1 == [7; 600]).map(|g| g.0.v).collect();
        chk!(got == vals, "the array holds {:?}", got);
        chk!(live().len() == 5, "{} elements alive", live().len());
    }
    bad()?;
    chk!(live().is_empty(), "elements {:?} leaked", live());
    Ok(())
}
fn nested(c: &mut Ctx, f: F) -> Res {
    clear();
    let failing = c.r.b();
    let vals: Vec<u8> = (0..6).map(|_| if failing && c.r.one_in(6) { 250 } else { c.r.n(200) as u8 }).collect();
    let (op, cl) = if f == F::Json { ("[", "]") } else { ("(", ")") };
    let text = format!("{op}{op}{},{}{cl},{op}{},{}{cl},{op}{},{}{cl}{cl}", vals[0], vals[1], vals[2], vals[3], vals[4], vals[5]);
    let mut b = vals.clone();
    let mut text = text;
    if failing && c.r.b() {
        b.truncate(c.r.n(7));
        text.truncate(c.r.n(text.len() + 1));
    }
    c.note(format!("[[Box<E>; 2]; 3] in {:?} from {:?} / {:?}", f, text, b));
    c.mark(text.as_bytes(), true);
    match dec::<[[Box<E>; 2]; 3]>(f, &b, &text) {
        Ok(a) => {
            bad()?;
            let got: Vec<u8> = a.iter().flatten().map(|e| e.v).collect();
            chk!(got == vals, "the arrays hold {:?}", got);
            chk!(live().len() == 6, "{} elements alive", live().len());
            drop(a);
        }
        Err(_) => {}
    }
    bad()?;
    chk!(live().is_empty(), "elements {:?} leaked", live());
    // strings own memory: a wrong drop shows in the allocator's balance
    let before = crate::held();
    {
        let s: Vec<String> = vals.iter().map(|v| format!("\"{}\"", "x".repeat(*v as usize))).collect();
        let t = format!("{op}{}{cl}", s[..4].join(","));
        let t2: String = if failing { t.chars().take(c.r.n(t.len() + 1)).collect() } else { t };
        let mut sb = vec![];
        for v in &vals[..4] {
            "x".repeat(*v as usize).ser_bin(&mut sb);
        }
        if failing {
            sb.truncate(c.r.n(sb.len() + 1));
        }
        let a = dec::<[String; 4]>(f, &sb, &t2);
        if let Ok(a) = &a {
            chk!(a.iter().zip(&vals).all(|(a, v)| a.len() == *v as usize), "strings {:?}", a);
        }
    }
    let after = crate::held();
    chk!(after == before, "{} bytes are still allocated after decoding [String; 4]", after - before);
    Ok(())
}
macro_rules! subs { ($($n:literal $f:expr;)*) => { vec![$(
    (concat!($n, "0"), 1, |c| arr::<0>(c, $f)), (concat!($n, "1"), 1, |c| arr::<1>(c, $f)), (concat!($n, "2"), 2, |c| arr::<2>(c, $f)), (concat!($n, "3"), 2, |c| arr::<3>(c, $f)), (concat!($n, "8"), 1, |c| arr::<8>(c, $f)), (concat!($n, "17"), 1, |c| arr::<17>(c, $f)), (concat!($n, "40"), 1, |c| arr::<40>(c, $f)), (concat!($n, "70"), 1, |c| arr::<70>(c, $f)), (concat!($n, "300"), 1, |c| arr::<300>(c, $f)), (concat!($n, "large"), 1, |c| large(c, $f)), (concat!($n, "nested"), 2, |c| nested(c, $f)),
)*] }; }
pub fn c20() -> Vec<Sub> {
    subs! { "bin" F::Bin; "json" F::Json; "ron" F::Ron; }
}
