use crate::gen::*;
use crate::{chk, Ctx, Res, Sub};
use nanoserde::{DeBin, SerBin};
use std::collections::*;
use std::fmt::Debug;
use std::time::{Duration, SystemTime};

/// the wire format, written down independently
pub trait Wire {
    fn wire(&self, o: &mut Vec<u8>);
}
macro_rules! wi { ($($t:ident $n:expr),*) => {$( impl Wire for $t { fn wire(&self, o: &mut Vec<u8>) { let mut v = *self as u128; for _ in 0..$n { o.push((v & 0xff) as u8); v >>= 8; } } } )*}; }
wi!(u8 1, u16 2, u32 4, u64 8, u128 16, usize 8, i8 1, i16 2, i32 4, i64 8, i128 16);
impl Wire for f64 {
    fn wire(&self, o: &mut Vec<u8>) {
        self.to_bits().wire(o)
    }
}
impl Wire for f32 {
    fn wire(&self, o: &mut Vec<u8>) {
        self.to_bits().wire(o)
    }
}
impl Wire for bool {
    fn wire(&self, o: &mut Vec<u8>) {
        o.push(if *self { 1 } else { 0 })
    }
}
impl Wire for () {
    fn wire(&self, _: &mut Vec<u8>) {}
}
impl Wire for String {
    fn wire(&self, o: &mut Vec<u8>) {
        (self.bytes().count() as u64).wire(o);
        for b in self.bytes() {
            o.push(b)
        }
    }
}
macro_rules! ws { ($($t:ident),*) => {$( impl<T: Wire> Wire for $t<T> { fn wire(&self, o: &mut Vec<u8>) { (self.iter().count() as u64).wire(o); for x in self.iter() { x.wire(o) } } } )*}; }
ws!(Vec, LinkedList, HashSet, BTreeSet);
macro_rules! wm { ($($t:ident),*) => {$( impl<K: Wire, V: Wire> Wire for $t<K, V> { fn wire(&self, o: &mut Vec<u8>) { (self.iter().count() as u64).wire(o); for (k, v) in self.iter() { k.wire(o); v.wire(o) } } } )*}; }
wm!(HashMap, BTreeMap);
impl<T: Wire, const N: usize> Wire for [T; N] {
    fn wire(&self, o: &mut Vec<u8>) {
        for x in self.iter() {
            x.wire(o)
        }
    }
}
impl<T: Wire> Wire for Option<T> {
    fn wire(&self, o: &mut Vec<u8>) {
        match self {
            None => o.push(0),
            Some(x) => {
                o.push(1);
                x.wire(o)
            }
        }
    }
}
impl<T: Wire> Wire for Box<T> {
    fn wire(&self, o: &mut Vec<u8>) {
        (**self).wire(o)
    }
}
impl<A: Wire, B: Wire> Wire for (A, B) {
    fn wire(&self, o: &mut Vec<u8>) {
        self.0.wire(o);
        self.1.wire(o)
    }
}
impl<A: Wire, B: Wire, C: Wire> Wire for (A, B, C) {
    fn wire(&self, o: &mut Vec<u8>) {
        self.0.wire(o);
        self.1.wire(o);
        self.2.wire(o)
    }
}
impl<A: Wire, B: Wire, C: Wire, D: Wire> Wire for (A, B, C, D) {
    fn wire(&self, o: &mut Vec<u8>) {
        self.0.wire(o);
        self.1.wire(o);
        self.2.wire(o);
        self.3.wire(o)
    }
}
impl Wire for Duration {
    fn wire(&self, o: &mut Vec<u8>) {
        self.as_secs().wire(o);
        self.subsec_nanos().wire(o)
    }
}
impl Wire for SystemTime {
    fn wire(&self, o: &mut Vec<u8>) {
        self.duration_since(SystemTime::UNIX_EPOCH).ok().wire(o)
    }
}

pub trait All: SerBin + DeBin + Wire + Gen + Same + Debug {}
impl<T: SerBin + DeBin + Wire + Gen + Same + Debug> All for T {}

fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    let m = r.n(n + 1);
    let small = r.b();
    (0..m).map(|_| if small { r.n(4) as u8 } else { r.next() as u8 }).collect()
}
fn noise(c: &mut Ctx) -> Vec<u8> {
    let n = 2 * c.size;
    bytes(&mut c.r, n)
}

fn rt<T: All>(c: &mut Ctx) -> Res {
    let v = T::gen(&mut c.r, c.size);
    let pre = noise(c);
    let post = noise(c);
    c.note(format!("value {:?} of type {} between {:?} and {:?}", v, std::any::type_name::<T>(), pre, post));
    let mut b = pre.clone();
    v.ser_bin(&mut b);
    c.mark(&b, b.len() > pre.len());
    chk!(b.starts_with(&pre), "encoding changed the bytes already in the buffer");
    let n = b.len();
    chk!(b[pre.len()..] == v.serialize_bin()[..], "serialize_bin and ser_bin disagree");
    b.extend_from_slice(&post);
    let mut o = pre.len();
    let w = T::de_bin(&mut o, &b).map_err(|e| format!("decoding failed: {:?}", e))?;
    chk!(v.same(&w), "decoded {:?}", w);
    chk!(o == n, "consumed {} bytes of {}", o as i64 - pre.len() as i64, n - pre.len());
    let w = T::deserialize_bin(&b[pre.len()..]).map_err(|e| format!("decoding failed: {:?}", e))?;
    chk!(v.same(&w), "deserialize_bin gave {:?}", w);
    Ok(())
}

/// bytes that look like an encoding of T, damaged
fn damaged<T: All>(c: &mut Ctx) -> Vec<u8> {
    if c.r.one_in(5) {
        let n = 6 * c.size;
        return bytes(&mut c.r, n);
    }
    let v = T::gen(&mut c.r, c.size);
    let mut b = vec![];
    v.wire(&mut b);
    for _ in 0..c.r.n(4) {
        let k = c.r.n(b.len() + 1);
        match c.r.n(7) {
            0 => b.truncate(k),
            1 if k < b.len() => b[k] = c.r.next() as u8,
            2 if k < b.len() => b[k] = b[k].wrapping_add(1),
            3 => b.insert(k.min(b.len()), c.r.next() as u8),
            4 if k < b.len() => b[k] = *c.r.pick(&[0, 1, 2, 0x7f, 0x80, 0xff]),
            5 => {
                // a huge length or count somewhere
                let x: u64 = *c.r.pick(&[u64::MAX, u64::MAX - 7, i64::MAX as u64, 1 << 32, 1 << 40, 1 << 20, u64::MAX / 2 + 1]);
                let x = x.wrapping_sub(c.r.n(24) as u64);
                for (i, y) in x.to_le_bytes().iter().enumerate() {
                    if k + i < b.len() {
                        b[k + i] = *y
                    }
                }
            }
            _ => {
                // long length at an aligned place
                if b.len() >= 8 {
                    let x: u64 = *c.r.pick(&[u64::MAX, u64::MAX - 8, u64::MAX - 15, 1 << 30, 1 << 62, b.len() as u64, b.len() as u64 + 1]);
                    b[..8].copy_from_slice(&x.to_le_bytes());
                }
            }
        }
    }
    b
}

fn total<T: All>(c: &mut Ctx) -> Res {
    let b = damaged::<T>(c);
    let o0 = if c.r.one_in(3) { c.r.n(b.len() + 1) } else { 0 };
    c.note(format!("decoding {} from {:?} at {}", std::any::type_name::<T>(), b, o0));
    c.mark(&b, !b.is_empty());
    let mut o = o0;
    let cur = crate::CUR.load(std::sync::atomic::Ordering::Relaxed);
    crate::PEAK.store(cur, std::sync::atomic::Ordering::Relaxed);
    let r = T::de_bin(&mut o, &b);
    let peak = crate::PEAK.load(std::sync::atomic::Ordering::Relaxed).saturating_sub(cur);
    chk!(o >= o0 && o <= b.len(), "offset went from {} to {} of {}", o0, o, b.len());
    // elements may be some hundred bytes wide
    chk!(peak <= 4096 * (b.len() + 4), "{} bytes were allocated to decode {} bytes", peak, b.len());
    drop(r);
    let _ = T::deserialize_bin(&b);
    Ok(())
}

fn trunc<T: All>(c: &mut Ctx) -> Res {
    let b = if c.r.b() {
        let v = T::gen(&mut c.r, c.size);
        let mut b = vec![];
        v.wire(&mut b);
        b
    } else {
        damaged::<T>(c)
    };
    let mut n = 0;
    c.note(format!("{} from {:?}", std::any::type_name::<T>(), b));
    let v = match T::de_bin(&mut n, &b) {
        Ok(v) => v,
        Err(_) => return Ok(()),
    };
    c.mark(&b, n > 0);
    for t in 0..n {
        if n > 64 && t % 7 != 0 && t + 16 < n {
            continue;
        }
        let mut o = 0;
        if let Ok(w) = T::de_bin(&mut o, &b[..t]) {
            return Err(format!("the first {} of {} consumed bytes decode to {:?}", t, n, w));
        }
    }
    let mut x = b[..n].to_vec();
    let post = noise(c);
    x.extend_from_slice(&post);
    let mut o = 0;
    match T::de_bin(&mut o, &x) {
        Ok(w) => chk!(o == n && v.same(&w), "with {:?} after the {} consumed bytes: {:?} ending at {}", post, n, w, o),
        Err(e) => return Err(format!("with {:?} after the {} consumed bytes: {:?}", post, n, e)),
    }
    let pre = noise(c);
    let mut y = pre.clone();
    y.extend_from_slice(&b[..n]);
    let mut o = pre.len();
    match T::de_bin(&mut o, &y) {
        Ok(w) => chk!(o == n + pre.len() && v.same(&w), "after {:?}: {:?}", pre, w),
        Err(e) => return Err(format!("after {:?}: {:?}", pre, e)),
    }
    Ok(())
}

fn wire<T: All>(c: &mut Ctx) -> Res {
    let v = T::gen(&mut c.r, c.size);
    c.note(format!("{:?} of type {}", v, std::any::type_name::<T>()));
    let mut w = vec![];
    v.wire(&mut w);
    let b = v.serialize_bin();
    c.mark(&w, !w.is_empty());
    chk!(b == w, "encoded as {:?}, the layout is {:?}", b, w);
    let mut o = 0;
    let x = T::de_bin(&mut o, &w).map_err(|e| format!("layout {:?} rejected: {:?}", w, e))?;
    chk!(x.same(&v) && o == w.len(), "layout {:?} decoded to {:?}", w, x);
    Ok(())
}
fn wire_misc(c: &mut Ctx) -> Res {
    let b = c.r.next() as u8;
    c.note(format!("byte {}", b));
    c.mark(&[b], true);
    chk!(bool::deserialize_bin(&[b]).map(|x| x == (b != 0)).unwrap_or(false), "bool from {}", b);
    let s = {
        let n = 4 * c.size;
        let mut s = if c.r.b() { String::gen(&mut c.r, c.size).into_bytes() } else { bytes(&mut c.r, n) };
        if c.r.b() && !s.is_empty() {
            let k = c.r.n(s.len());
            s[k] = c.r.next() as u8;
        }
        s
    };
    c.mark(&s, true);
    let mut w = vec![];
    (s.len() as u64).wire(&mut w);
    w.extend_from_slice(&s);
    c.note(format!("String from {:?}", w));
    match (String::deserialize_bin(&w), String::from_utf8(s.clone())) {
        (Ok(a), Ok(b)) => chk!(a == b, "decoded {:?}", a),
        (Err(_), Err(_)) => {}
        (Ok(a), Err(_)) => return Err(format!("invalid UTF-8 accepted as {:?}", a)),
        (Err(e), Ok(_)) => return Err(format!("valid UTF-8 rejected: {:?}", e)),
    }
    // slices: only the elements
    let v = Vec::<u16>::gen(&mut c.r, c.size);
    let mut a = vec![];
    v[..].ser_bin(&mut a);
    let mut b = vec![];
    for x in &v {
        x.wire(&mut b)
    }
    c.note(format!("slice {:?}", v));
    chk!(a == b, "encoded as {:?}", a);
    Ok(())
}

macro_rules! types {
    ($f:ident) => {
        vec![
            (concat!(stringify!($f), "<u8>"), 1, $f::<u8>), ("u16", 1, $f::<u16>), ("u32", 1, $f::<u32>), ("u64", 1, $f::<u64>), ("u128", 1, $f::<u128>), ("usize", 1, $f::<usize>),
            ("i8", 1, $f::<i8>), ("i16", 1, $f::<i16>), ("i32", 1, $f::<i32>), ("i64", 1, $f::<i64>), ("i128", 1, $f::<i128>),
            ("f32", 1, $f::<f32>), ("f64", 1, $f::<f64>), ("bool", 1, $f::<bool>), ("unit", 1, $f::<()>), ("String", 2, $f::<String>),
            ("Option", 1, $f::<Option<u16>>), ("Option2", 1, $f::<Option<Option<String>>>), ("Option3", 1, $f::<(Option<u8>, Option<u8>)>), ("Box", 1, $f::<Box<u32>>), ("Vec", 2, $f::<Vec<u8>>), ("VecString", 2, $f::<Vec<String>>),
            ("VecVec", 1, $f::<Vec<Vec<i16>>>), ("VecF", 1, $f::<Vec<f32>>), ("A0", 1, $f::<[u8; 0]>), ("A1", 1, $f::<[u16; 1]>), ("A3", 1, $f::<[String; 3]>), ("A33", 1, $f::<[i8; 33]>), ("AA", 1, $f::<[[u16; 2]; 3]>),
            ("LinkedList", 2, $f::<LinkedList<String>>), ("LL2", 1, $f::<LinkedList<u32>>), ("HashSet", 2, $f::<HashSet<String>>), ("HashSet2", 1, $f::<HashSet<i32>>), ("BTreeSet", 2, $f::<BTreeSet<u16>>), ("BTreeSet2", 1, $f::<BTreeSet<String>>),
            ("HashMap", 2, $f::<HashMap<String, u32>>), ("HashMap2", 1, $f::<HashMap<u8, Vec<String>>>), ("BTreeMap", 2, $f::<BTreeMap<u16, String>>), ("BTreeMap2", 1, $f::<BTreeMap<String, f64>>),
            ("T2", 1, $f::<(u8, u32)>), ("T2s", 1, $f::<(String, u16)>), ("T3", 1, $f::<(u8, String, i64)>), ("T4", 1, $f::<(bool, u16, u32, String)>),
            ("Duration", 2, $f::<Duration>), ("SystemTime", 1, $f::<SystemTime>),
            ("mix", 2, $f::<Vec<(Option<HashMap<String, [u16; 2]>>, Box<BTreeSet<i8>>)>>), ("mix2", 1, $f::<BTreeMap<String, Vec<Option<(u8, f32)>>>>), ("mix3", 1, $f::<[Vec<LinkedList<Duration>>; 2]>),
        ]
    };
}
pub fn c01() -> Vec<Sub> {
    types!(rt)
}
pub fn c02() -> Vec<Sub> {
    types!(total)
}
pub fn c03() -> Vec<Sub> {
    types!(trunc)
}
pub fn c04() -> Vec<Sub> {
    let mut v: Vec<Sub> = types!(wire);
    v.push(("misc", 4, wire_misc));
    v
}
