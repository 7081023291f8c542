use std::collections::*;
use std::time::{Duration, SystemTime};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x853c49e6748fea9b);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn b(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.n(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len())]
    }
    pub fn u128(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
}

/// literals that the source under test has and the baseline had not (empty on the unchanged tree)
pub struct Dict {
    pub ints: Vec<u128>,
    pub chars: Vec<char>,
    pub strs: Vec<String>,
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { ints: vec![], chars: vec![], strs: vec![] };
        let t = std::env::var("NSH_DICT").ok().and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
        for l in serde_json::from_str::<Vec<String>>(&t).unwrap_or_default() {
            let x = &l[1..];
            match l.as_bytes()[0] {
                b'i' => d.ints.extend(x.parse::<u128>()),
                b'c' => d.chars.extend(x.chars().next()),
                _ => {
                    d.strs.push(x.to_string());
                    if x.chars().count() == 1 {
                        d.chars.extend(x.chars())
                    }
                }
            }
        }
        for k in 0..d.ints.len() {
            if let Some(c) = u32::try_from(d.ints[k]).ok().and_then(char::from_u32) {
                d.chars.push(c)
            }
        }
        d
    })
}
thread_local! { static BIG: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
/// start of a case
pub fn new_case() {
    BIG.with(|b| b.set(0))
}
/// a number near one of the dictionary, sometimes
pub fn dint(r: &mut Rng, one_in: usize) -> Option<u128> {
    let d = dict();
    if d.ints.is_empty() || !r.one_in(one_in) {
        return None;
    }
    let x = *r.pick(&d.ints);
    Some(x.wrapping_add(r.n(3) as u128).wrapping_sub(1))
}
/// a length near one of the dictionary; at most two per case, as such values are big
pub fn dlen(r: &mut Rng, one_in: usize, max: u128) -> Option<usize> {
    let x = dint(r, one_in)?;
    if x > max || BIG.with(|b| b.get()) >= 2 {
        return None;
    }
    BIG.with(|b| b.set(b.get() + 1));
    Some(x as usize)
}
pub fn dchar(r: &mut Rng, one_in: usize) -> Option<char> {
    let d = dict();
    if d.chars.is_empty() || !r.one_in(one_in) {
        return None;
    }
    Some(*r.pick(&d.chars))
}
pub fn dstr(r: &mut Rng, one_in: usize) -> Option<String> {
    let d = dict();
    if d.strs.is_empty() || !r.one_in(one_in) {
        return None;
    }
    Some(r.pick(&d.strs).clone())
}

pub trait Gen: Sized {
    fn gen(r: &mut Rng, size: usize) -> Self;
}
macro_rules! gi {
    ($($t:ident $bits:expr),*) => {$(
        impl Gen for $t {
            fn gen(r: &mut Rng, _s: usize) -> $t {
                if let Some(x) = dint(r, 6) {
                    return if r.one_in(4) { (0 as $t).wrapping_sub(x as $t) } else { x as $t };
                }
                match r.n(6) {
                    0 => [$t::MIN, $t::MAX, 0 as $t, 1 as $t, $t::MAX - 1, $t::MIN + 1, (0 as $t).wrapping_sub(1), 10 as $t, 99 as $t, 100 as $t, $t::MAX / 10, $t::MIN / 10, $t::MAX / 2, $t::MAX / 2 + 1][r.n(14)],
                    1 => ((1 as $t).wrapping_shl(r.n($bits) as u32)).wrapping_add(r.n(3) as $t).wrapping_sub(1),
                    2 => (r.n(300) as $t).wrapping_sub(r.n(300) as $t),
                    3 => (r.u128() as $t) >> r.n($bits),
                    4 => { let mut x = 1 as $t; for _ in 0..r.n(40) { x = x.wrapping_mul(10); } x.wrapping_add(r.n(3) as $t).wrapping_sub(1) }
                    _ => r.u128() as $t,
                }
            }
        }
    )*};
}
gi!(u8 8, u16 16, u32 32, u64 64, u128 128, usize 64, i8 8, i16 16, i32 32, i64 64, i128 128, isize 64);

thread_local! { static FINITE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// while set, only finite floats are generated
pub fn set_finite(b: bool) {
    FINITE.with(|f| f.set(b))
}
fn finite() -> bool {
    FINITE.with(|f| f.get())
}
impl Gen for f64 {
    fn gen(r: &mut Rng, s: usize) -> f64 {
        loop {
            let x = any64(r, s);
            if x.is_finite() || !finite() {
                return x;
            }
        }
    }
}
fn any64(r: &mut Rng, _s: usize) -> f64 {
        if let Some(x) = dint(r, 6) {
            return x as f64;
        }
        match r.n(8) {
            0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, f64::MIN, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, 0.1, 1e21, 1e-7, 9007199254740993.0, 1e308]),
            1 => r.n(1000) as f64 / 8.0,
            2 => (i64::gen(r, 1)) as f64,
            3 => (r.n(100000) as f64 - 50000.0) / 1000.0,
            4 => f64::from_bits((r.next() & 0x800f_ffff_ffff_ffff) | ((1023 - 60 + r.n(120) as u64) << 52)),
            _ => f64::from_bits(r.next()),
        }
}
impl Gen for f32 {
    fn gen(r: &mut Rng, s: usize) -> f32 {
        loop {
            let x = any32(r, s);
            if x.is_finite() || !finite() {
                return x;
            }
        }
    }
}
fn any32(r: &mut Rng, _s: usize) -> f32 {
        if let Some(x) = dint(r, 6) {
            return if r.b() { f32::from_bits(x as u32) } else { x as f32 };
        }
        match r.n(8) {
            0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, f32::MIN, f32::MAX, f32::MIN_POSITIVE, f32::EPSILON, f32::INFINITY, f32::NAN, 1e-45, 0.1, 16777217.0, 1e20, 7.038531e-26]),
            1 => r.n(1000) as f32 / 8.0,
            2 => i32::gen(r, 1) as f32,
            _ => f32::from_bits(r.next() as u32),
        }
}
impl Gen for bool {
    fn gen(r: &mut Rng, _s: usize) -> bool {
        r.b()
    }
}
impl Gen for () {
    fn gen(_r: &mut Rng, _s: usize) {}
}
pub fn gchar(r: &mut Rng) -> char {
    if let Some(c) = dchar(r, 5) {
        return c;
    }
    match r.n(10) {
        0 => *r.pick(&['"', '\\', '/', '\n', '\r', '\t', '\u{8}', '\u{c}', '\0', '\'', '*', '#', '[', ']', '{', '}', ',', ':', '(', ')', '=', '.', ' ']),
        1 => char::from_u32(r.n(0x20) as u32).unwrap(),
        2 => *r.pick(&['\u{7f}', '\u{80}', '\u{9f}', '\u{a0}', '\u{7ff}', '\u{800}', '\u{2028}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{1f600}']),
        3 => loop {
            if let Some(c) = char::from_u32(r.n(0x110000) as u32) {
                break c;
            }
        },
        4 => *r.pick(&['u', 'n', 'r', 't', 'b', 'f', '0', '9', 'd', 'D', '8', 'e', 'E', '+', '-']),
        _ => (32 + r.n(95)) as u8 as char,
    }
}
impl Gen for char {
    fn gen(r: &mut Rng, _s: usize) -> char {
        gchar(r)
    }
}
impl Gen for String {
    fn gen(r: &mut Rng, s: usize) -> String {
        let n = if r.one_in(4) { 0 } else { r.n(s + 1) };
        let n = dlen(r, 8, 70_000).unwrap_or(n);
        let simple = r.one_in(3);
        let mut t: String = (0..n).map(|_| if simple { (b'a' + r.n(26) as u8) as char } else { gchar(r) }).collect();
        if let Some(d) = dstr(r, 4) {
            if r.b() {
                t.clear()
            }
            t.push_str(&d);
        }
        if r.one_in(6) {
            t.push_str(r.pick(&["//", "/*", "*/", "#", "\\", "\\u", "/* x */", "None", "null", ", ]", "}:{"]));
        }
        t
    }
}
fn len(r: &mut Rng, s: usize) -> usize {
    let max = if r.one_in(4) { 70_000 } else { 3000 };
    if let Some(n) = dlen(r, 6, max) {
        return n;
    }
    match r.n(4) {
        0 => 0,
        1 => 1,
        _ => r.n(s.min(12) + 1),
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(r: &mut Rng, s: usize) -> Self {
        let n = len(r, s);
        (0..n).map(|_| T::gen(r, s / 2)).collect()
    }
}
impl<T: Gen> Gen for LinkedList<T> {
    fn gen(r: &mut Rng, s: usize) -> Self {
        let n = len(r, s);
        (0..n).map(|_| T::gen(r, s / 2)).collect()
    }
}
impl<T: Gen + Eq + std::hash::Hash> Gen for HashSet<T> {
    fn gen(r: &mut Rng, s: usize) -> Self {
        let n = len(r, s);
        (0..n).map(|_| T::gen(r, s / 2)).collect()
    }
}
impl<T: Gen + Ord> Gen for BTreeSet<T> {
    fn gen(r: &mut Rng, s: usize) -> Self {
        let n = len(r, s);
        (0..n).map(|_| T::gen(r, s / 2)).collect()
    }
}
impl<K: Gen + Eq + std::hash::Hash, V: Gen> Gen for HashMap<K, V> {
    fn gen(r: &mut Rng, s: usize) -> Self {
        let n = len(r, s);
        (0..n).map(|_| (K::gen(r, s / 2), V::gen(r, s / 2))).collect()
    }
}
impl<K: Gen + Ord, V: Gen> Gen for BTreeMap<K, V> {
    fn gen(r: &mut Rng, s: usize) -> Self {
        let n = len(r, s);
        (0..n).map(|_| (K::gen(r, s / 2), V::gen(r, s / 2))).collect()
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen(r: &mut Rng, s: usize) -> Self {
        if r.one_in(3) {
            None
        } else {
            Some(T::gen(r, s))
        }
    }
}
impl<T: Gen> Gen for Box<T> {
    fn gen(r: &mut Rng, s: usize) -> Self {
        Box::new(T::gen(r, s))
    }
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    fn gen(r: &mut Rng, s: usize) -> Self {
        std::array::from_fn(|_| T::gen(r, s / 2))
    }
}
macro_rules! gt { ($($($t:ident)*;)*) => {$( impl<$($t: Gen),*> Gen for ($($t,)*) { fn gen(r: &mut Rng, s: usize) -> Self { ($($t::gen(r, s),)*) } } )*}; }
gt! { A B; A B C; A B C D; }
impl Gen for Duration {
    fn gen(r: &mut Rng, s: usize) -> Self {
        let n = *r.pick(&[0, 1, 999_999_999, 500_000_000, 7]);
        let n = if r.b() { n } else { r.n(1_000_000_000) as u32 };
        let n = dint(r, 4).map_or(n, |x| (x % 1_000_000_000) as u32);
        Duration::new(u64::gen(r, s), n)
    }
}
impl Gen for SystemTime {
    fn gen(r: &mut Rng, s: usize) -> Self {
        loop {
            let d = Duration::gen(r, s);
            let k = r.n(64) as u32;
            let d = Duration::new(d.as_secs() >> k, d.subsec_nanos());
            if let Some(t) = SystemTime::UNIX_EPOCH.checked_add(d) {
                return t;
            }
        }
    }
}

/// equality that distinguishes float bit patterns
pub trait Same {
    fn same(&self, o: &Self) -> bool;
}
macro_rules! se { ($($t:ty),*) => {$( impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } } )*}; }
se!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, bool, (), String, char, Duration, SystemTime);
impl Same for f64 {
    fn same(&self, o: &f64) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Same for f32 {
    fn same(&self, o: &f32) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl<T: Same> Same for Vec<T> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}
impl<T: Same> Same for LinkedList<T> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}
impl<T: Same, const N: usize> Same for [T; N] {
    fn same(&self, o: &Self) -> bool {
        self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}
impl<T: Eq + std::hash::Hash> Same for HashSet<T> {
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl<T: Eq> Same for BTreeSet<T> {
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl<K: Eq + std::hash::Hash, V: Same> Same for HashMap<K, V> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|w| v.same(w)))
    }
}
impl<K: Ord, V: Same> Same for BTreeMap<K, V> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|w| v.same(w)))
    }
}
impl<T: Same> Same for Option<T> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
}
impl<T: Same> Same for Box<T> {
    fn same(&self, o: &Self) -> bool {
        (**self).same(&**o)
    }
}
impl<A: Same, B: Same> Same for (A, B) {
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
impl<A: Same, B: Same, C: Same> Same for (A, B, C) {
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
impl<A: Same, B: Same, C: Same, D: Same> Same for (A, B, C, D) {
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3)
    }
}
