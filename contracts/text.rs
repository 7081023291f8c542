// ------------------------------------------------------------------ trusted shims: characters and text
#[verifier::external_body]
pub struct VChars { x: u8 }
impl VChars {
    /// the whole text, and how much of it has been read
    pub uninterp spec fn full(&self) -> Seq<char>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn view(&self) -> Seq<char> { self.full().skip(self.pos()) }
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.full().len() <= isize::MAX }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures
            final(self).full() == old(self).full(), old(self).wf() ==> final(self).wf(),
            old(self).pos() >= old(self).full().len() ==> (r is None && final(self).pos() == old(self).pos()),
            old(self).pos() < old(self).full().len() ==> (r == Some(old(self).full()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1),
    { unimplemented!() }
}
pub trait VStr { spec fn sp_s(&self) -> Seq<char>; }
impl VStr for str { open spec fn sp_s(&self) -> Seq<char> { self@ } }
impl VStr for String { open spec fn sp_s(&self) -> Seq<char> { self@ } }
impl<'a, T: VStr + ?Sized> VStr for &'a T { open spec fn sp_s(&self) -> Seq<char> { (**self).sp_s() } }
impl<'a, T: VStr + ?Sized> VStr for &'a mut T { open spec fn sp_s(&self) -> Seq<char> { (**self).sp_s() } }
#[verifier::external_body]
pub fn v_seq<A: VStr + ?Sized, B: VStr + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r <==> a.sp_s() == b.sp_s() { unimplemented!() }
pub trait VText {
    spec fn sp_t(&self) -> Seq<char>;
    fn v_chars(&self) -> (r: VChars) ensures r.full() == self.sp_t(), r.pos() == 0, r.wf();
    fn v_as_ref(&self) -> (r: &str) ensures r@ == self.sp_t();
}
impl VText for str { open spec fn sp_t(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_chars(&self) -> (r: VChars) { unimplemented!() } #[verifier::external_body] fn v_as_ref(&self) -> (r: &str) { unimplemented!() } }
impl VText for String { open spec fn sp_t(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_chars(&self) -> (r: VChars) { unimplemented!() } #[verifier::external_body] fn v_as_ref(&self) -> (r: &str) { unimplemented!() } }
impl VIntoIter for VChars { type It = char; open spec fn v_items(self) -> Seq<char> { self@ } }
pub trait VTrunc { fn v_truncate(&mut self, n: usize); }
impl VTrunc for String { #[verifier::external_body] fn v_truncate(&mut self, n: usize) ensures n == 0 ==> final(self)@ == Seq::<char>::empty() { unimplemented!() } }
pub assume_specification[ char::is_ascii_control ](c: &char) -> (r: bool) ensures r <==> (*c as u32 <= 0x1f || *c as u32 == 0x7f);
pub open spec fn scalar(x: int) -> bool { 0 <= x < 0xd800 || 0xe000 <= x <= 0x10ffff }
#[verifier::external_body]
pub fn from_u32(x: u32) -> (r: Option<char>) ensures match r { Some(c) => scalar(x as int) && c as u32 == x, None => !scalar(x as int) } { unimplemented!() }
pub assume_specification<T, E> [ Result::<T, E>::unwrap_or ](r: Result<T, E>, d: T) -> (o: T) ensures o == (match r { Ok(x) => x, Err(_) => d });
pub fn must_use<T>(x: T) -> (r: T) ensures r == x { x }
/// the nesting depth handed to ser_* functions (never used for anything): taken not to overflow
#[verifier::external_body]
pub fn v_deeper(d: usize, n: usize) -> (r: usize) { unimplemented!() }

// formatting
pub open spec fn digit(d: int) -> char { (d + 0x30) as char }
pub open spec fn udec(n: int) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { udec(n / 10).push(digit(n % 10)) } }
pub open spec fn idec(n: int) -> Seq<char> { if n < 0 { seq!['-'] + udec(-n) } else { udec(n) } }
pub open spec fn hexd(d: int) -> char { if d < 10 { (d + 0x30) as char } else { (d - 10 + 0x61) as char } }
pub open spec fn hex4(x: int) -> Seq<char> { seq![hexd(x / 4096 % 16), hexd(x / 256 % 16), hexd(x / 16 % 16), hexd(x % 16)] }
/// what `{:?}` prints for a float (shortest decimal that reads back)
pub uninterp spec fn fmt64(f: f64) -> Seq<char>;
pub uninterp spec fn fmt32(f: f32) -> Seq<char>;
pub trait VDisp { spec fn sp_disp(&self) -> Seq<char>; }
impl VDisp for str { open spec fn sp_disp(&self) -> Seq<char> { self@ } }
impl VDisp for String { open spec fn sp_disp(&self) -> Seq<char> { self@ } }
impl VDisp for char { open spec fn sp_disp(&self) -> Seq<char> { seq![*self] } }
impl<'a, T: VDisp + ?Sized> VDisp for &'a T { open spec fn sp_disp(&self) -> Seq<char> { (**self).sp_disp() } }
//@DISP_INTS
pub trait VDebug { spec fn sp_dbg(&self) -> Seq<char>; }
impl VDebug for f64 { open spec fn sp_dbg(&self) -> Seq<char> { fmt64(*self) } }
impl VDebug for f32 { open spec fn sp_dbg(&self) -> Seq<char> { fmt32(*self) } }
impl<'a, T: VDebug + ?Sized> VDebug for &'a T { open spec fn sp_dbg(&self) -> Seq<char> { (**self).sp_dbg() } }
#[verifier::external_body] pub fn v_fmt_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn v_fmt_lit(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body] pub fn v_fmt_display<T: VDisp + ?Sized>(s: &mut String, t: &T) ensures final(s)@ == old(s)@ + t.sp_disp() { unimplemented!() }
#[verifier::external_body] pub fn v_fmt_debug<T: VDebug + ?Sized>(s: &mut String, t: &T) ensures final(s)@ == old(s)@ + t.sp_dbg() { unimplemented!() }
#[verifier::external_body] pub fn v_fmt_04x(s: &mut String, t: &u32) ensures *t < 0x10000 ==> final(s)@ == old(s)@ + hex4(*t as int) { unimplemented!() }
pub fn v_fmt_ok() -> Result<(), VErr> { Ok(()) }
pub trait VToString: VDisp { fn v_to_string(&self) -> (r: String) ensures r@ == self.sp_disp(); }
impl<T: VDisp + ?Sized> VToString for T { #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }

// conversions to floats
/// the float nearest to an integer
pub uninterp spec fn f_int(n: int) -> f64;
pub uninterp spec fn f32_int(n: int) -> f32;
pub uninterp spec fn narrow(f: f64) -> f32;
pub uninterp spec fn widen(f: f32) -> f64;
pub trait VToF { spec fn sp_f64(&self) -> f64; spec fn sp_f32(&self) -> f32; }
impl VToF for f64 { open spec fn sp_f64(&self) -> f64 { *self } open spec fn sp_f32(&self) -> f32 { narrow(*self) } }
impl VToF for f32 { open spec fn sp_f64(&self) -> f64 { widen(*self) } open spec fn sp_f32(&self) -> f32 { *self } }
//@TOF_INTS
#[verifier::external_body] pub fn v_as_f64<T: VToF>(x: T) -> (r: f64) ensures r == x.sp_f64() { unimplemented!() }
#[verifier::external_body] pub fn v_as_f32<T: VToF>(x: T) -> (r: f32) ensures r == x.sp_f32() { unimplemented!() }

// reading numbers (what std's from_str accepts)
pub open spec fn isdig(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn alldig(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> isdig(#[trigger] s[i]) }
pub open spec fn dval(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dval(s.drop_last()) * 10 + (s.last() as int - 0x30) } }
pub open spec fn body_u(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s } }
pub open spec fn body_i(s: Seq<char>) -> Seq<char> { if s.len() > 0 && (s[0] == '+' || s[0] == '-') { s.skip(1) } else { s } }
pub open spec fn val_i(s: Seq<char>) -> int { if s.len() > 0 && s[0] == '-' { -dval(s.skip(1)) } else { dval(body_i(s)) } }
pub uninterp spec fn pf64(s: Seq<char>) -> Option<f64>;
pub uninterp spec fn pf32(s: Seq<char>) -> Option<f32>;
/// every decimal integer is also a decimal number; f32 and f64 read the same texts
#[verifier::external_body] pub proof fn ax_pf(s: Seq<char>) ensures alldig(body_i(s)) ==> pf64(s) is Some, pf64(s) is Some <==> pf32(s) is Some {}
pub proof fn lemma_dval_pos(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> isdig(#[trigger] s[i]) ensures dval(s) >= 0 decreases s.len() { if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies isdig(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } lemma_dval_pos(s.drop_last()); assert(isdig(s[s.len() - 1])); } }
pub trait VFromStr: Sized { spec fn sp_from(s: Seq<char>) -> Option<Self>; }
impl VFromStr for u64 { open spec fn sp_from(s: Seq<char>) -> Option<u64> { if alldig(body_u(s)) && dval(body_u(s)) <= u64::MAX { Some(dval(body_u(s)) as u64) } else { None } } }
impl VFromStr for i64 { open spec fn sp_from(s: Seq<char>) -> Option<i64> { if alldig(body_i(s)) && i64::MIN <= val_i(s) <= i64::MAX { Some(val_i(s) as i64) } else { None } } }
impl VFromStr for f64 { open spec fn sp_from(s: Seq<char>) -> Option<f64> { pf64(s) } }
impl VFromStr for f32 { open spec fn sp_from(s: Seq<char>) -> Option<f32> { pf32(s) } }
pub trait VParse { spec fn sp_ps(&self) -> Seq<char>; fn v_parse<F: VFromStr>(&self) -> (r: Result<F, VErr>) ensures match r { Ok(v) => F::sp_from(self.sp_ps()) == Some(v), Err(_) => F::sp_from(self.sp_ps()) is None }; }
impl VParse for String { open spec fn sp_ps(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_parse<F: VFromStr>(&self) -> (r: Result<F, VErr>) { unimplemented!() } }
impl VParse for str { open spec fn sp_ps(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_parse<F: VFromStr>(&self) -> (r: Result<F, VErr>) { unimplemented!() } }
pub proof fn lemma_udec(n: int) requires n >= 0 ensures alldig(udec(n)), dval(udec(n)) == n, udec(n).len() > 0 decreases n
{
    if n >= 10 {
        lemma_udec(n / 10);
        assert(udec(n).drop_last() =~= udec(n / 10));
        assert forall|i: int| 0 <= i < udec(n).len() implies isdig(#[trigger] udec(n)[i]) by { if i < udec(n / 10).len() { assert(udec(n)[i] == udec(n / 10)[i]); } }
    } else { assert(udec(n).drop_last() =~= Seq::empty()); assert(dval(Seq::<char>::empty()) == 0); }
}

// ------------------------------------------------------------------ the unread text
/// trailing NULs are indistinguishable from the end of the text (the readers use NUL for the end)
pub open spec fn norm(q: Seq<char>) -> Seq<char> decreases q.len() { if q.len() > 0 && q.last() == '\0' { norm(q.drop_last()) } else { q } }
pub open spec fn hd(q: Seq<char>) -> char { if q.len() == 0 { '\0' } else { q[0] } }
pub open spec fn tl(q: Seq<char>) -> Seq<char> { if q.len() == 0 { q } else { q.skip(1) } }
pub proof fn lemma_norm(q: Seq<char>)
    ensures hd(norm(q)) == hd(q), tl(norm(q)) == norm(tl(q)), norm(q).len() <= q.len()
    decreases q.len()
{
    if q.len() > 0 && q.last() == '\0' {
        lemma_norm(q.drop_last());
        if q.len() == 1 { assert(q.drop_last() =~= Seq::empty()); assert(q.skip(1) =~= Seq::empty()); }
        else { assert(q.skip(1).drop_last() =~= q.drop_last().skip(1)); assert(q.skip(1).last() == q.last()); }
    } else if q.len() > 0 { 
        if q.len() > 1 { assert(q.skip(1).last() == q.last()); }
    }
}
#[verifier::opaque] pub open spec fn unread(cur: char, i: VChars) -> Seq<char> { norm(seq![cur] + i@) }
/// one more character read
pub proof fn lemma_unread(cur: char, i: VChars, cur2: char, i2: VChars)
    requires
        i.wf(), i2.full() == i.full(),
        i.pos() < i.full().len() ==> (cur2 == i.full()[i.pos()] && i2.pos() == i.pos() + 1),
        i.pos() >= i.full().len() ==> (cur2 == '\0' && i2.pos() == i.pos()),
    ensures unread(cur2, i2) == tl(unread(cur, i)), hd(unread(cur2, i2)) == cur2, i2.wf()
{
    reveal(unread);
    let q = seq![cur] + i@;
    lemma_norm(q);
    lemma_norm(seq![cur2] + i2@);
    if i.pos() < i.full().len() { assert(q.skip(1) =~= seq![cur2] + i2@); }
    else {
        assert(q.skip(1) =~= Seq::<char>::empty());
        assert((seq![cur2] + i2@).drop_last() =~= Seq::<char>::empty());
        assert(norm(Seq::<char>::empty()) =~= Seq::<char>::empty());
        assert(norm(seq![cur2] + i2@) =~= norm((seq![cur2] + i2@).drop_last()));
    }
}
/// the start of a text
pub proof fn lemma_unread_start(t: Seq<char>, cur: char, i: VChars)
    requires i.full() == t, t.len() > 0 ==> (cur == t[0] && i.pos() == 1), t.len() == 0 ==> (cur == '\0' && i.pos() == 0), i.wf()
    ensures unread(cur, i) == norm(t), hd(norm(t)) == cur
{
    reveal(unread);
    lemma_norm(t);
    if t.len() > 0 { assert(seq![cur] + i@ =~= t); }
    else { assert((seq![cur] + i@).drop_last() =~= t); assert(t =~= Seq::<char>::empty()); }
}

// ------------------------------------------------------------------ positions: newlines so far, characters since the last one
pub open spec fn nl(t: Seq<char>) -> int decreases t.len() { if t.len() == 0 { 0 } else { nl(t.drop_last()) + if t.last() == '\n' { 1int } else { 0 } } }
pub open spec fn cl(t: Seq<char>) -> int decreases t.len() { if t.len() == 0 || t.last() == '\n' { 0 } else { cl(t.drop_last()) + 1 } }
#[verifier::opaque] pub open spec fn atpos(line: int, col: int, t: Seq<char>, k: int) -> bool { 0 <= k <= t.len() && line == nl(t.take(k)) && col == cl(t.take(k)) }
pub proof fn lemma_pos_bound(t: Seq<char>) ensures 0 <= nl(t) <= t.len(), 0 <= cl(t) <= t.len() decreases t.len() { if t.len() > 0 { lemma_pos_bound(t.drop_last()); } }
pub proof fn lemma_pos_step(t: Seq<char>, k: int) requires 0 <= k < t.len()
    ensures nl(t.take(k + 1)) == nl(t.take(k)) + if t[k] == '\n' { 1int } else { 0 }, cl(t.take(k + 1)) == if t[k] == '\n' { 0 } else { cl(t.take(k)) + 1 }, 0 <= nl(t.take(k)) <= k, 0 <= cl(t.take(k)) <= k
{ assert(t.take(k + 1).drop_last() =~= t.take(k)); assert(t.take(k + 1).last() == t[k]); lemma_pos_bound(t.take(k)); }
/// an error position is that of a character that was read, no earlier than `lo`
pub open spec fn errin(line: int, col: int, t: Seq<char>, lo: int, hi: int) -> bool { exists|k: int| lo <= k <= hi && #[trigger] atpos(line, col, t, k) }
pub open spec fn moved(a: VChars, b: VChars) -> bool { a.full() == b.full() && a.pos() <= b.pos() }
