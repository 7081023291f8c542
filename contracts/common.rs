#![allow(redundant_semicolons, unused_imports, dead_code, unused_variables, unused_mut, unused_parens, non_snake_case, unused_assignments, unused_must_use, unreachable_code, unused_braces, unused_unsafe, non_camel_case_types)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::utf8::*;
use std::collections::{HashMap, HashSet, BTreeMap, BTreeSet, LinkedList};
use std::time::{Duration, SystemTime};
use std::mem::{size_of, swap};
use std::hash::{Hash, BuildHasher};
use std::str::FromStr;
verus! {
global size_of usize == 8;
global size_of f64 == 8;
global size_of f32 == 4;

// ------------------------------------------------------------------ trusted shim: core::mem::take
pub trait VTake: Sized { spec fn sp_nil(self) -> bool; }
impl VTake for String { open spec fn sp_nil(self) -> bool { self@.len() == 0 } }
impl<T> VTake for Vec<T> { open spec fn sp_nil(self) -> bool { self@.len() == 0 } }
#[verifier::external_body]
pub fn take<T: VTake>(x: &mut T) -> (r: T)
    ensures r == *old(x), final(x).sp_nil()
{ unimplemented!() }
// ------------------------------------------------------------------ trusted shims: iteration
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { x: Vec<T> }
impl<T> VIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> (r is None && final(self)@ == old(self)@),
            old(self)@.len() > 0 ==> (r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VIter<(usize, T)>)
        ensures r@ == Seq::new(self@.len(), |i: int| (i as usize, self@[i])), self@.len() <= usize::MAX
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VIter<T>)
        ensures r@ == (if self@.len() <= n { self@ } else { self@.take(n as int) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VIter<T>)
        ensures r@ == (if self@.len() <= n { Seq::empty() } else { self@.skip(n as int) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VIter<T>)
        ensures r@ == self@.reverse()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_zip<I: VIntoIter>(self, o: I) -> (r: VIter<(T, I::It)>)
        ensures
            r@.len() == (if self@.len() <= o.v_items().len() { self@.len() } else { o.v_items().len() }),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (self@[i], o.v_items()[i]),
    { unimplemented!() }
}
pub trait VIntoIter: Sized {
    type It;
    spec fn v_items(self) -> Seq<Self::It>;
}
impl<T> VIntoIter for VIter<T> {
    type It = T;
    open spec fn v_items(self) -> Seq<T> { self@ }
}
impl<'a, T> VIntoIter for &'a Vec<T> {
    type It = &'a T;
    open spec fn v_items(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
}
impl<'a, T> VIntoIter for &'a [T] {
    type It = &'a T;
    open spec fn v_items(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
}
impl VIntoIter for core::ops::Range<usize> {
    type It = usize;
    open spec fn v_items(self) -> Seq<usize> {
        Seq::new(if self.end >= self.start { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as usize)
    }
}
impl VIntoIter for core::ops::Range<i32> {
    type It = i32;
    open spec fn v_items(self) -> Seq<i32> {
        Seq::new(if self.end >= self.start { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as i32)
    }
}
pub trait VZip: VIntoIter {
    fn v_zip<I: VIntoIter>(self, o: I) -> (r: VIter<(Self::It, I::It)>)
        ensures
            r@.len() == (if self.v_items().len() <= o.v_items().len() { self.v_items().len() } else { o.v_items().len() }),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (self.v_items()[i], o.v_items()[i]);
}
impl VZip for core::ops::Range<usize> {
    #[verifier::external_body]
    fn v_zip<I: VIntoIter>(self, o: I) -> (r: VIter<(usize, I::It)>) { unimplemented!() }
}

// ------------------------------------------------------------------ trusted shims: MaybeUninit
// The ledger counts the values that sit in raw slots (MaybeUninit): Rust never drops those by itself. `balanced` contracts
// (the ledger is the same after the call, on every path) say that each value put into a raw slot was taken out of it, once.
pub struct VLed { pub n: Ghost<int> }
impl VLed {
    pub fn new() -> VLed { VLed { n: Ghost(0) } }
}
/// one raw slot
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VMu<T> { x: std::mem::MaybeUninit<T> }
impl<T> VMu<T> {
    pub uninterp spec fn view(&self) -> Option<T>;
    #[verifier::external_body]
    pub fn v_assume_init(self, led: &mut VLed) -> (r: T)
        requires self@ is Some /*#C20*/
        ensures r == self@->0, final(led).n@ == old(led).n@ - 1
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_mu_new<T>(v: T, led: &mut VLed) -> (r: VMu<T>)
    ensures r@ == Some(v), final(led).n@ == old(led).n@ + 1
{ unimplemented!() }
/// an array of raw slots; writing a slot forgets what was there
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VMuArr<T, const N: usize> { x: [std::mem::MaybeUninit<T>; N] }
pub open spec fn slots<T>(s: Seq<VMu<T>>) -> Seq<T> { Seq::new(s.len(), |i: int| s[i]@->0) }
impl<T, const N: usize> VMuArr<T, N> {
    pub uninterp spec fn view(&self) -> Seq<VMu<T>>;
    #[verifier::external_body]
    pub fn v_uninit() -> (r: VMuArr<T, N>)
        ensures r@.len() == N, forall|i: int| 0 <= i < N ==> (#[trigger] r@[i])@ is None
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_set(&mut self, i: usize, v: VMu<T>)
        requires i < old(self)@.len()
        ensures final(self)@ == old(self)@.update(i as int, v)
    { unimplemented!() }
    /// bitwise copy of all slots out of the array, which must not be used as values again
    #[verifier::external_body]
    pub fn v_read_all(&mut self, led: &mut VLed) -> (r: [T; N])
        requires forall|i: int| 0 <= i < N ==> (#[trigger] old(self)@[i])@ is Some /*#C20*/
        ensures r@ == slots(old(self)@), forall|i: int| 0 <= i < N ==> (#[trigger] final(self)@[i])@ is None, final(self)@.len() == N, final(led).n@ == old(led).n@ - N
    { unimplemented!() }
}
impl<T, const N: usize> VIntoIter for VMuArr<T, N> {
    type It = VMu<T>;
    open spec fn v_items(self) -> Seq<VMu<T>> { self@ }
}
#[verifier::external_body]
pub fn v_into_iter<I: VIntoIter>(x: I) -> (r: VIter<I::It>)
    ensures r@ == x.v_items()
{ unimplemented!() }
pub trait VIterable {
    type Elem;
    spec fn v_elems(&self) -> Seq<Self::Elem>;
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a Self::Elem>)
        ensures r@ == Seq::new(self.v_elems().len(), |i: int| &self.v_elems()[i]);
}
impl<T> VIterable for [T] {
    type Elem = T;
    open spec fn v_elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
}

// ------------------------------------------------------------------ trusted shims: collections
// iteration order of an unordered or ordered collection: some sequence of its contents
pub uninterp spec fn items_ll<T>(m: LinkedList<T>) -> Seq<T>;
pub uninterp spec fn items_hs<T>(m: HashSet<T>) -> Seq<T>;
pub uninterp spec fn items_bs<T>(m: BTreeSet<T>) -> Seq<T>;
pub uninterp spec fn items_hm<K, V, S>(m: HashMap<K, V, S>) -> Seq<(K, V)>;
pub uninterp spec fn items_bm<K, V>(m: BTreeMap<K, V>) -> Seq<(K, V)>;

pub open spec fn keys<K, V>(s: Seq<(K, V)>) -> Seq<K> { s.map_values(|p: (K, V)| p.0) }

impl<'a, K, V, S> VIntoIter for &'a HashMap<K, V, S> {
    type It = (&'a K, &'a V);
    open spec fn v_items(self) -> Seq<(&'a K, &'a V)> { Seq::new(items_hm(*self).len(), |i: int| (&items_hm(*self)[i].0, &items_hm(*self)[i].1)) }
}
impl<'a, K, V> VIntoIter for &'a BTreeMap<K, V> {
    type It = (&'a K, &'a V);
    open spec fn v_items(self) -> Seq<(&'a K, &'a V)> { Seq::new(items_bm(*self).len(), |i: int| (&items_bm(*self)[i].0, &items_bm(*self)[i].1)) }
}
impl<'a, T> VIntoIter for &'a HashSet<T> {
    type It = &'a T;
    open spec fn v_items(self) -> Seq<&'a T> { Seq::new(items_hs(*self).len(), |i: int| &items_hs(*self)[i]) }
}
impl<'a, T> VIntoIter for &'a BTreeSet<T> {
    type It = &'a T;
    open spec fn v_items(self) -> Seq<&'a T> { Seq::new(items_bs(*self).len(), |i: int| &items_bs(*self)[i]) }
}
impl<'a, T> VIntoIter for &'a LinkedList<T> {
    type It = &'a T;
    open spec fn v_items(self) -> Seq<&'a T> { Seq::new(items_ll(*self).len(), |i: int| &items_ll(*self)[i]) }
}
impl<T> VIterable for LinkedList<T> {
    type Elem = T;
    open spec fn v_elems(&self) -> Seq<T> { items_ll(*self) }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
}
impl<T> VIterable for HashSet<T> {
    type Elem = T;
    open spec fn v_elems(&self) -> Seq<T> { items_hs(*self) }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
}
impl<T> VIterable for BTreeSet<T> {
    type Elem = T;
    open spec fn v_elems(&self) -> Seq<T> { items_bs(*self) }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
}

pub trait VMapIterable { type K; type V; spec fn v_kvs(&self) -> Seq<(Self::K, Self::V)>;
    fn v_iter<'a>(&'a self) -> (r: VIter<(&'a Self::K, &'a Self::V)>) ensures r@ == Seq::new(self.v_kvs().len(), |i: int| (&self.v_kvs()[i].0, &self.v_kvs()[i].1)); }
impl<K, V, S> VMapIterable for HashMap<K, V, S> { type K = K; type V = V; open spec fn v_kvs(&self) -> Seq<(K, V)> { items_hm(*self) }
    #[verifier::external_body] fn v_iter<'a>(&'a self) -> (r: VIter<(&'a K, &'a V)>) { unimplemented!() } }
impl<K, V> VMapIterable for BTreeMap<K, V> { type K = K; type V = V; open spec fn v_kvs(&self) -> Seq<(K, V)> { items_bm(*self) }
    #[verifier::external_body] fn v_iter<'a>(&'a self) -> (r: VIter<(&'a K, &'a V)>) { unimplemented!() } }
pub trait VIsEmpty { spec fn sp_e(&self) -> int; fn v_is_empty(&self) -> (r: bool) ensures r <==> self.sp_e() == 0; }
impl<T> VIsEmpty for HashSet<T> { open spec fn sp_e(&self) -> int { items_hs(*self).len() as int } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<T> VIsEmpty for BTreeSet<T> { open spec fn sp_e(&self) -> int { items_bs(*self).len() as int } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<T> VIsEmpty for LinkedList<T> { open spec fn sp_e(&self) -> int { items_ll(*self).len() as int } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<T> VIsEmpty for Vec<T> { open spec fn sp_e(&self) -> int { self@.len() as int } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<T> VIsEmpty for [T] { open spec fn sp_e(&self) -> int { self@.len() as int } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<K, V, S> VIsEmpty for HashMap<K, V, S> { open spec fn sp_e(&self) -> int { items_hm(*self).len() as int } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<K, V> VIsEmpty for BTreeMap<K, V> { open spec fn sp_e(&self) -> int { items_bm(*self).len() as int } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl VIsEmpty for String { open spec fn sp_e(&self) -> int { self@.len() as int } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl VIsEmpty for str { open spec fn sp_e(&self) -> int { self@.len() as int } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
pub trait VLen { spec fn sp_len(&self) -> int; fn v_len(&self) -> (r: usize) ensures r as int == self.sp_len(); }
impl<T> VLen for Vec<T> { open spec fn sp_len(&self) -> int { self@.len() as int } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } }
impl<T> VLen for [T] { open spec fn sp_len(&self) -> int { self@.len() as int } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } }
impl VLen for String { open spec fn sp_len(&self) -> int { encode_utf8(self@).len() as int } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } }
impl VLen for str { open spec fn sp_len(&self) -> int { encode_utf8(self@).len() as int } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } }
impl<T> VLen for LinkedList<T> { open spec fn sp_len(&self) -> int { items_ll(*self).len() as int } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } }
impl<T> VLen for HashSet<T> { open spec fn sp_len(&self) -> int { items_hs(*self).len() as int } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } }
impl<T> VLen for BTreeSet<T> { open spec fn sp_len(&self) -> int { items_bs(*self).len() as int } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } }
impl<K, V, S> VLen for HashMap<K, V, S> { open spec fn sp_len(&self) -> int { items_hm(*self).len() as int } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } }
impl<K, V> VLen for BTreeMap<K, V> { open spec fn sp_len(&self) -> int { items_bm(*self).len() as int } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } }

// more of std (what its documentation says), so that other ways of writing the same thing stay within reach
pub assume_specification<T> [ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T, F: FnOnce() -> Option<T>> [ Option::<T>::or_else::<F> ](a: Option<T>, f: F) -> (r: Option<T>) requires a is None ==> f.requires(()) ensures a is Some ==> r == a, a is None ==> f.ensures((), r);
pub assume_specification<T, F: FnOnce(&T) -> bool> [ Option::<T>::filter::<F> ](a: Option<T>, f: F) -> (r: Option<T>) requires a is Some ==> f.requires((&a->0,)) ensures match a { None => r is None, Some(x) => (r == a && f.ensures((&x,), true)) || (r is None && f.ensures((&x,), false)) };
pub assume_specification<T, F: FnOnce(T) -> bool> [ Option::<T>::is_some_and ](a: Option<T>, f: F) -> (r: bool) requires a is Some ==> f.requires((a->0,)) ensures match a { None => !r, Some(x) => f.ensures((x,), r) };
pub assume_specification<T: Copy> [ Option::<&T>::copied ](a: Option<&T>) -> (r: Option<T>) ensures r == (match a { Some(x) => Some(*x), None => None });
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [ Result::<T, E>::and_then::<U, F> ](a: Result<T, E>, f: F) -> (r: Result<U, E>) requires a is Ok ==> f.requires((a->Ok_0,)) ensures match a { Ok(x) => f.ensures((x,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r <==> '0' <= *c && *c <= '9';
pub assume_specification[ char::is_ascii_hexdigit ](c: &char) -> (r: bool) ensures r <==> ('0' <= *c && *c <= '9') || ('a' <= *c && *c <= 'f') || ('A' <= *c && *c <= 'F');
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool) ensures r <==> ('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z');
pub assume_specification[ char::is_ascii_uppercase ](c: &char) -> (r: bool) ensures r <==> ('A' <= *c && *c <= 'Z');
pub assume_specification[ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r <==> ('a' <= *c && *c <= 'z');
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool) ensures r <==> ('0' <= *c && *c <= '9') || ('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z');
pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool) ensures r <==> (*c as u32) < 0x80;
pub assume_specification[ char::to_digit ](c: char, radix: u32) -> (r: Option<u32>) requires 2 <= radix <= 36 ensures r == ({
    let d = if '0' <= c && c <= '9' { c as u32 - 0x30 } else if 'a' <= c && c <= 'z' { c as u32 - 0x61 + 10 } else if 'A' <= c && c <= 'Z' { c as u32 - 0x41 + 10 } else { 99 };
    if d < radix { Some(d as u32) } else { None } });
pub assume_specification[ char::is_digit ](c: char, radix: u32) -> (r: bool) requires 2 <= radix <= 36 ensures r <==> ({
    let d = if '0' <= c && c <= '9' { c as u32 - 0x30 } else if 'a' <= c && c <= 'z' { c as u32 - 0x61 + 10 } else if 'A' <= c && c <= 'Z' { c as u32 - 0x41 + 10 } else { 99 };
    d < radix });
pub assume_specification<T> [ core::mem::replace::<T> ](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification[ i64::unsigned_abs ](a: i64) -> (r: u64) ensures r == if a < 0 { -(a as int) } else { a as int };
pub assume_specification[ u64::wrapping_neg ](a: u64) -> (r: u64) ensures r == if a == 0 { 0 } else { 0x1_0000_0000_0000_0000 - a };

// lengths of real collections fit in a machine word
#[verifier::external_body] pub proof fn ax_len_ll<T>(m: LinkedList<T>) ensures items_ll(m).len() <= usize::MAX {}
#[verifier::external_body] pub proof fn ax_len_hs<T>(m: HashSet<T>) ensures items_hs(m).len() <= usize::MAX {}
#[verifier::external_body] pub proof fn ax_len_bs<T>(m: BTreeSet<T>) ensures items_bs(m).len() <= usize::MAX {}
#[verifier::external_body] pub proof fn ax_len_hm<K, V, S>(m: HashMap<K, V, S>) ensures items_hm(m).len() <= usize::MAX {}
#[verifier::external_body] pub proof fn ax_len_bm<K, V>(m: BTreeMap<K, V>) ensures items_bm(m).len() <= usize::MAX {}
#[verifier::external_body] pub proof fn ax_len_vec<T>(m: Vec<T>) ensures m@.len() <= usize::MAX {}
#[verifier::external_body] pub proof fn ax_len_string(m: String) ensures encode_utf8(m@).len() <= isize::MAX {}

#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(A)]
pub struct ExLL<T, A: std::alloc::Allocator>(LinkedList<T, A>);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExSysTime(SystemTime);

// ------------------------------------------------------------------ values
/// the mathematical value of a Rust value: two values are equal (==) iff their models are
pub trait Model { type M; spec fn model(&self) -> Self::M; }
pub open spec fn models<T: Model>(s: Seq<T>) -> Seq<T::M> { Seq::new(s.len(), |i: int| s[i].model()) }
pub open spec fn kvmodels<K: Model, V: Model>(s: Seq<(K, V)>) -> Seq<(K::M, V::M)> { Seq::new(s.len(), |i: int| (s[i].0.model(), s[i].1.model())) }
pub open spec fn fold_set<T>(s: Seq<T>) -> Set<T> decreases s.len() { if s.len() == 0 { Set::empty() } else { fold_set(s.drop_last()).insert(s.last()) } }
pub open spec fn fold_map<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { fold_map(s.drop_last()).insert(s.last().0, s.last().1) } }

impl<T: Model> Model for Vec<T> { type M = Seq<T::M>; open spec fn model(&self) -> Seq<T::M> { models(self@) } }
impl<T: Model> Model for [T] { type M = Seq<T::M>; open spec fn model(&self) -> Seq<T::M> { models(self@) } }
impl<T: Model, const N: usize> Model for [T; N] { type M = Seq<T::M>; open spec fn model(&self) -> Seq<T::M> { models(self@) } }
impl<T: Model> Model for LinkedList<T> { type M = Seq<T::M>; open spec fn model(&self) -> Seq<T::M> { models(items_ll(*self)) } }
impl<T: Model> Model for HashSet<T> { type M = Set<T::M>; open spec fn model(&self) -> Set<T::M> { fold_set(models(items_hs(*self))) } }
impl<T: Model> Model for BTreeSet<T> { type M = Set<T::M>; open spec fn model(&self) -> Set<T::M> { fold_set(models(items_bs(*self))) } }
impl<K: Model, V: Model, S> Model for HashMap<K, V, S> { type M = Map<K::M, V::M>; open spec fn model(&self) -> Map<K::M, V::M> { fold_map(kvmodels(items_hm(*self))) } }
impl<K: Model, V: Model> Model for BTreeMap<K, V> { type M = Map<K::M, V::M>; open spec fn model(&self) -> Map<K::M, V::M> { fold_map(kvmodels(items_bm(*self))) } }
impl<T: Model> Model for Option<T> { type M = Option<T::M>; open spec fn model(&self) -> Option<T::M> { match self { Some(x) => Some(x.model()), None => None } } }
impl<T: Model> Model for Box<T> { type M = T::M; open spec fn model(&self) -> T::M { (**self).model() } }
impl<'a, T: Model + ?Sized> Model for &'a T { type M = T::M; open spec fn model(&self) -> T::M { (**self).model() } }
impl Model for () { type M = (); open spec fn model(&self) -> () { () } }
impl<A: Model, B: Model> Model for (A, B) { type M = (A::M, B::M); open spec fn model(&self) -> Self::M { (self.0.model(), self.1.model()) } }
impl<A: Model, B: Model, C: Model> Model for (A, B, C) { type M = (A::M, B::M, C::M); open spec fn model(&self) -> Self::M { (self.0.model(), self.1.model(), self.2.model()) } }
impl<A: Model, B: Model, C: Model, D: Model> Model for (A, B, C, D) { type M = (A::M, B::M, C::M, D::M); open spec fn model(&self) -> Self::M { (self.0.model(), self.1.model(), self.2.model(), self.3.model()) } }
impl Model for String { type M = Seq<char>; open spec fn model(&self) -> Seq<char> { self@ } }
impl Model for str { type M = Seq<char>; open spec fn model(&self) -> Seq<char> { self@ } }
impl Model for bool { type M = bool; open spec fn model(&self) -> bool { *self } }
//@MODEL_INTS
pub uninterp spec fn bits64(f: f64) -> u64;
pub uninterp spec fn bits32(f: f32) -> u32;
impl Model for f64 { type M = u64; open spec fn model(&self) -> u64 { bits64(*self) } }
impl Model for f32 { type M = u32; open spec fn model(&self) -> u32 { bits32(*self) } }

// durations: whole seconds and nanoseconds below one billion
pub uninterp spec fn dsecs(d: Duration) -> u64;
pub uninterp spec fn dnanos(d: Duration) -> u32;
#[verifier::external_body] pub proof fn ax_dnanos(d: Duration) ensures dnanos(d) < 1_000_000_000 {}
impl Model for Duration { type M = (u64, u32); open spec fn model(&self) -> (u64, u32) { (dsecs(*self), dnanos(*self)) } }
pub open spec fn dur_total(d: Duration) -> int { dsecs(d) * 1_000_000_000 + dnanos(d) }
#[verifier::external_body]
pub fn v_duration_new(s: u64, n: u32) -> (r: Duration)
    requires s + n as int / 1_000_000_000 <= u64::MAX  // Duration::new panics otherwise
    ensures dsecs(r) == s + n as int / 1_000_000_000, dnanos(r) == n % 1_000_000_000
{ unimplemented!() }
pub trait VDur {
    spec fn sp_d(&self) -> Duration;
    fn v_as_secs(&self) -> (r: u64) ensures r == dsecs(self.sp_d());
    fn v_subsec_nanos(&self) -> (r: u32) ensures r == dnanos(self.sp_d()), r < 1_000_000_000;
}
impl VDur for Duration { open spec fn sp_d(&self) -> Duration { *self }
    #[verifier::external_body] fn v_as_secs(&self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn v_subsec_nanos(&self) -> (r: u32) { unimplemented!() } }
// system times: nanoseconds since the epoch, on a platform-dependent range that contains the epoch
pub uninterp spec fn st_ns(t: SystemTime) -> int;
pub uninterp spec fn st_repr(ns: int) -> bool;
pub open spec fn ns_of(m: (u64, u32)) -> int { m.0 * 1_000_000_000 + m.1 }
#[verifier::external_body] pub proof fn ax_st_repr(t: SystemTime) ensures st_repr(st_ns(t)), st_ns(t) <= u64::MAX * 1_000_000_000 {}
impl Model for SystemTime { type M = int; open spec fn model(&self) -> int { st_ns(*self) } }
#[verifier::external_body]
pub fn v_unix_epoch() -> (r: SystemTime) ensures st_ns(r) == 0 { unimplemented!() }
#[derive(Debug)]
pub struct VErr {}
pub trait VSt {
    spec fn sp_t(&self) -> int;
    fn v_duration_since(&self, e: SystemTime) -> (r: Result<Duration, VErr>)
        ensures match r { Ok(d) => self.sp_t() >= st_ns(e) && dur_total(d) == self.sp_t() - st_ns(e), Err(_) => self.sp_t() < st_ns(e) };
    fn v_checked_add(&self, d: Duration) -> (r: Option<SystemTime>)
        ensures match r { Some(t) => st_ns(t) == self.sp_t() + dur_total(d) && st_repr(st_ns(t)), None => !st_repr(self.sp_t() + dur_total(d)) };
}
impl VSt for SystemTime { open spec fn sp_t(&self) -> int { st_ns(*self) }
    #[verifier::external_body] fn v_duration_since(&self, e: SystemTime) -> (r: Result<Duration, VErr>) { unimplemented!() }
    #[verifier::external_body] fn v_checked_add(&self, d: Duration) -> (r: Option<SystemTime>) { unimplemented!() } }

// inserting into collections (laws of std's collections; Eq, Ord and Hash are taken to agree with the model)
pub trait VSetIns<T: Model> { spec fn sp_set(&self) -> Set<T::M>; fn v_insert(&mut self, x: T) -> (r: bool) ensures final(self).sp_set() == old(self).sp_set().insert(x.model()); }
impl<T: Model + Eq + Hash> VSetIns<T> for HashSet<T> { open spec fn sp_set(&self) -> Set<T::M> { self.model() } #[verifier::external_body] fn v_insert(&mut self, x: T) -> (r: bool) { unimplemented!() } }
impl<T: Model + Ord> VSetIns<T> for BTreeSet<T> { open spec fn sp_set(&self) -> Set<T::M> { self.model() } #[verifier::external_body] fn v_insert(&mut self, x: T) -> (r: bool) { unimplemented!() } }
pub trait VMapIns<K: Model, V: Model> { spec fn sp_map(&self) -> Map<K::M, V::M>; fn v_insert(&mut self, k: K, v: V) -> (r: Option<V>)
    ensures final(self).sp_map() == old(self).sp_map().insert(k.model(), v.model()), r is Some <==> old(self).sp_map().contains_key(k.model()), r is Some ==> r->0.model() == old(self).sp_map()[k.model()]; }
impl<K: Model + Eq + Hash, V: Model, S: std::hash::BuildHasher> VMapIns<K, V> for HashMap<K, V, S> { open spec fn sp_map(&self) -> Map<K::M, V::M> { self.model() } #[verifier::external_body] fn v_insert(&mut self, k: K, v: V) -> (r: Option<V>) { unimplemented!() } }
impl<K: Model + Ord, V: Model> VMapIns<K, V> for BTreeMap<K, V> { open spec fn sp_map(&self) -> Map<K::M, V::M> { self.model() } #[verifier::external_body] fn v_insert(&mut self, k: K, v: V) -> (r: Option<V>) { unimplemented!() } }
pub trait VPushBack<T> { fn v_push_back(&mut self, x: T); }
impl<T> VPushBack<T> for LinkedList<T> { #[verifier::external_body] fn v_push_back(&mut self, x: T) ensures items_ll(*final(self)) == items_ll(*old(self)).push(x) { unimplemented!() } }
#[verifier::external_body] pub fn v_ll_new<T>() -> (r: LinkedList<T>) ensures items_ll(r) == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body] pub fn v_hs_new<T>() -> (r: HashSet<T>) ensures items_hs(r) == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body] pub fn v_bs_new<T>() -> (r: BTreeSet<T>) ensures items_bs(r) == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body] pub fn v_hm_new<K, V>() -> (r: HashMap<K, V>) ensures items_hm(r) == Seq::<(K, V)>::empty() { unimplemented!() }
#[verifier::external_body] pub fn v_hm_with_hasher<K, V, S>(s: S) -> (r: HashMap<K, V, S>) ensures items_hm(r) == Seq::<(K, V)>::empty() { unimplemented!() }
#[verifier::external_body] pub fn v_bm_new<K, V>() -> (r: BTreeMap<K, V>) ensures items_bm(r) == Seq::<(K, V)>::empty() { unimplemented!() }

/// bound on memory reserved ahead of time (elements); decoders may assume it is at least their input's length
pub uninterp spec fn cap_limit() -> int;
#[verifier::external_body] pub fn v_vec_with_capacity<T>(n: usize) -> (r: Vec<T>) requires n <= cap_limit() + 1024 /*#CAP*/ ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body] pub fn v_hs_with_capacity<T>(n: usize) -> (r: HashSet<T>) requires n <= cap_limit() + 1024 /*#CAP*/ ensures items_hs(r) == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body] pub fn v_hm_with_capacity<K, V>(n: usize) -> (r: HashMap<K, V>) requires n <= cap_limit() + 1024 /*#CAP*/ ensures items_hm(r) == Seq::<(K, V)>::empty() { unimplemented!() }
#[verifier::external_body] pub fn v_string_with_capacity(n: usize) -> (r: String) requires n <= cap_limit() + 1024 /*#CAP*/ ensures r@ == Seq::<char>::empty() { unimplemented!() }
pub trait VReserve { fn v_reserve(&mut self, n: usize) requires n <= cap_limit() + 1024 /*#CAP*/; }
impl<T> VReserve for Vec<T> { #[verifier::external_body] fn v_reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() } }

// UTF-8
pub trait VBytes { spec fn sp_str(&self) -> Seq<char>; fn v_as_bytes(&self) -> (r: &[u8]) ensures r@ == encode_utf8(self.sp_str()); }
impl VBytes for str { open spec fn sp_str(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
impl VBytes for String { open spec fn sp_str(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
#[verifier::external_body]
pub fn v_from_utf8(b: &[u8]) -> (r: Result<&str, VErr>)
    ensures match r { Ok(s) => valid_utf8(b@) && s@ == decode_utf8(b@), Err(_) => !valid_utf8(b@) }
{ unimplemented!() }

/// a panic: reachable only if this can be proved unreachable
#[verifier::external_body]
pub fn v_panic() -> ! requires false { unimplemented!() }
