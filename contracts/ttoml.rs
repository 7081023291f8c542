// ------------------------------------------------------------------ TOML: more of std
pub uninterp spec fn f64nan() -> f64;
pub uninterp spec fn f64inf() -> f64;
pub uninterp spec fn fneg(f: f64) -> f64;
#[verifier::external_body] pub fn v_f64_nan() -> (r: f64) ensures r == f64nan() { unimplemented!() }
#[verifier::external_body] pub fn v_f64_inf() -> (r: f64) ensures r == f64inf() { unimplemented!() }
#[verifier::external_body] pub fn v_f64_ninf() -> (r: f64) ensures r == fneg(f64inf()) { unimplemented!() }
#[verifier::external_body] pub fn v_fneg(f: f64) -> (r: f64) ensures r == fneg(f) { unimplemented!() }
pub uninterp spec fn dispf(f: f64) -> Seq<char>;
impl VDisp for f64 { open spec fn sp_disp(&self) -> Seq<char> { dispf(*self) } }
impl VDisp for bool { open spec fn sp_disp(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k] as u32) < 0x80 }
/// &s[n..], of ASCII text
#[verifier::external_body] pub fn v_from(s: &String, n: usize) -> (r: &str) requires ascii(s@), n <= s@.len() ensures r@ == s@.skip(n as int) { unimplemented!() }
pub open spec fn prefix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub trait VStrOps { spec fn sp_o(&self) -> Seq<char>;
    fn v_strip_prefix(&self, p: &str) -> (r: Option<&str>) ensures match r { Some(x) => prefix(p@, self.sp_o()) && x@ == self.sp_o().skip(p@.len() as int), None => !prefix(p@, self.sp_o()) };
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r <==> prefix(p.sp_p(), self.sp_o());
}
impl VStrOps for str { open spec fn sp_o(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_strip_prefix(&self, p: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() } }
impl VStrOps for String { open spec fn sp_o(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_strip_prefix(&self, p: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() } }
/// what a text may be searched for
pub trait VPat { spec fn sp_p(&self) -> Seq<char>; }
impl VPat for char { open spec fn sp_p(&self) -> Seq<char> { seq![*self] } }
impl<'a> VPat for &'a str { open spec fn sp_p(&self) -> Seq<char> { (**self)@ } }
impl<'a> VPat for &'a String { open spec fn sp_p(&self) -> Seq<char> { (**self)@ } }
pub trait VClone: Sized { spec fn cl(a: Self, b: Self) -> bool; fn v_clone(&self) -> (r: Self) ensures Self::cl(*self, r); }
impl VClone for usize { open spec fn cl(a: usize, b: usize) -> bool { a == b } #[verifier::external_body] fn v_clone(&self) -> (r: usize) { unimplemented!() } }
impl VClone for String { open spec fn cl(a: String, b: String) -> bool { a@ == b@ } #[verifier::external_body] fn v_clone(&self) -> (r: String) { unimplemented!() } }
impl<A: VClone, B: VClone> VClone for (A, B) { open spec fn cl(a: (A, B), b: (A, B)) -> bool { A::cl(a.0, b.0) && B::cl(a.1, b.1) } #[verifier::external_body] fn v_clone(&self) -> (r: (A, B)) { unimplemented!() } }
impl<A: VClone> VClone for Option<A> { open spec fn cl(a: Option<A>, b: Option<A>) -> bool { match (a, b) { (Some(x), Some(y)) => A::cl(x, y), (None, None) => true, _ => false } } #[verifier::external_body] fn v_clone(&self) -> (r: Option<A>) { unimplemented!() } }
pub trait VClear { fn v_clear(&mut self); }
impl VClear for String { #[verifier::external_body] fn v_clear(&mut self) ensures final(self)@ == Seq::<char>::empty() { unimplemented!() } }
pub trait VBmOps<V: Model>: Sized { spec fn sp_bm(&self) -> Map<Seq<char>, V::M>;
    fn v_contains_key(&self, k: &str) -> (r: bool) ensures r <==> self.sp_bm().dom().contains(k@);
    fn v_get_mut(&mut self, k: &str) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self).sp_bm().dom().contains(k@) && (*v).model() == old(self).sp_bm()[k@] && final(self).sp_bm() == old(self).sp_bm().insert(k@, (*final(v)).model()), None => *final(self) == *old(self) && !old(self).sp_bm().dom().contains(k@) };
}
impl<V: Model> VBmOps<V> for BTreeMap<String, V> { open spec fn sp_bm(&self) -> Map<Seq<char>, V::M> { self.model() }
    #[verifier::external_body] fn v_contains_key(&self, k: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_get_mut(&mut self, k: &str) -> (r: Option<&mut V>) { unimplemented!() } }

// ------------------------------------------------------------------ TOML: values
pub ghost enum TVal { Str(Seq<char>), Bool(bool), Num(f64), Date(Seq<char>), Array(Seq<Map<Seq<char>, TVal>>), Simple(Seq<TVal>) }
pub uninterp spec fn tv(t: Toml) -> TVal;
impl Model for Toml { type M = TVal; open spec fn model(&self) -> TVal { tv(*self) } }
/// the mathematical value of a Toml, by its definition (a Toml is finite, so this is well-founded)
pub broadcast axiom fn ax_tv(t: Toml) ensures #[trigger] tv(t) == (match t { Toml::Str(s) => TVal::Str(s@), Toml::Bool(b) => TVal::Bool(b), Toml::Num(f) => TVal::Num(f), Toml::Date(s) => TVal::Date(s@),
    Toml::Array(a) => TVal::Array(models(a@)), Toml::SimpleArray(a) => TVal::Simple(models(a@)) });

pub broadcast proof fn lemma_ins_same<K, V>(m: Map<K, V>, k: K, v: V) requires m.dom().contains(k), v == m[k] ensures #[trigger] m.insert(k, v) == m { assert(m.insert(k, v) =~= m); }
pub broadcast proof fn lemma_ins_ins<K, V>(m: Map<K, V>, k: K, v: V, w: V) ensures #[trigger] m.insert(k, v).insert(k, w) == m.insert(k, w) { assert(m.insert(k, v).insert(k, w) =~= m.insert(k, w)); }
pub broadcast proof fn lemma_models_push<T: Model>(s: Seq<T>, x: T) ensures #[trigger] models(s.push(x)) == models(s).push(x.model()) { assert(models(s.push(x)) =~= models(s).push(x.model())); }
pub broadcast proof fn lemma_models_upd<T: Model>(s: Seq<T>, n: int, x: T) requires 0 <= n < s.len() ensures #[trigger] models(s.update(n, x)) == models(s).update(n, x.model()) { assert(models(s.update(n, x)) =~= models(s).update(n, x.model())); }
pub broadcast proof fn lemma_bm_nil<K: Model, V: Model>(m: BTreeMap<K, V>) requires #[trigger] items_bm(m) == Seq::<(K, V)>::empty() ensures m.model() == Map::<K::M, V::M>::empty() { assert(kvmodels(items_bm(m)) =~= Seq::empty()); }
pub broadcast proof fn lemma_models_len<T: Model>(s: Seq<T>) ensures (#[trigger] models(s)).len() == s.len() { }
pub broadcast proof fn lemma_models_nil<T: Model>(s: Seq<T>) requires s.len() == 0 ensures #[trigger] models(s) == Seq::<T::M>::empty() { assert(models(s) =~= Seq::empty()); }

pub proof fn lemma_fullkey(s: Seq<char>, k: Seq<char>) ensures Seq::<char>::empty() + s + "."@ + k == s + seq!['.'] + k { reveal_strlit("."); assert(Seq::<char>::empty() + s + "."@ + k =~= s + seq!['.'] + k); }

// ------------------------------------------------------------------ TOML: tokens
pub enum TT { Ident(Seq<char>), Str(Seq<char>), U64(u64), I64(i64), F64(f64), Bool(bool), Nan(bool), Inf(bool), Date(Seq<char>), Equals, BlockOpen, BlockClose, Comma, Eof }
pub open spec fn tt(t: TomlTok) -> TT { match t { TomlTok::Ident(s) => TT::Ident(s@), TomlTok::Str(s) => TT::Str(s@), TomlTok::U64(n) => TT::U64(n), TomlTok::I64(n) => TT::I64(n), TomlTok::F64(n) => TT::F64(n), TomlTok::Bool(n) => TT::Bool(n),
    TomlTok::Nan(n) => TT::Nan(n), TomlTok::Inf(n) => TT::Inf(n), TomlTok::Date(s) => TT::Date(s@), TomlTok::Equals => TT::Equals, TomlTok::BlockOpen => TT::BlockOpen, TomlTok::BlockClose => TT::BlockClose, TomlTok::Comma => TT::Comma, TomlTok::Eof => TT::Eof } }
pub uninterp spec fn feq(a: f64, b: f64) -> bool;
pub open spec fn teq(a: TomlTok, b: TomlTok) -> bool { match (a, b) { (TomlTok::F64(x), TomlTok::F64(y)) => feq(x, y), _ => tt(a) == tt(b) } }
impl PartialEqSpecImpl for TomlTok { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &TomlTok) -> bool { teq(*self, *o) } }
// derived
impl PartialEq for TomlTok { #[verifier::external_body] fn eq(&self, o: &TomlTok) -> bool { unimplemented!() } }
pub uninterp spec fn tokdbg(t: TomlTok) -> Seq<char>;
impl VDebug for TomlTok { open spec fn sp_dbg(&self) -> Seq<char> { tokdbg(*self) } }
#[verifier::external_body] pub fn v_toml_default() -> (r: TomlParser) ensures r.cur == '\0', r.line == 0, r.col == 0 { unimplemented!() }
/// a token as (part of) a key
pub open spec fn ttext(t: TT) -> Seq<char> { match t { TT::Ident(s) => s, TT::Str(s) => s, TT::U64(n) => udec(n as int), TT::I64(n) => idec(n as int), TT::F64(f) => dispf(f), TT::Bool(b) => if b { "true"@ } else { "false"@ },
    TT::Nan(n) => if n { "-nan"@ } else { "nan"@ }, TT::Inf(n) => if n { "-inf"@ } else { "inf"@ }, TT::Date(s) => s, TT::Equals => seq!['='], TT::BlockOpen => seq!['['], TT::BlockClose => seq![']'], TT::Comma => seq![','], TT::Eof => seq!['\0'] } }
impl FromSpecImpl<TomlTok> for String { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: TomlTok) -> String { arbitrary() } }
pub trait VInto<T> { fn v_into(self) -> T; }
impl VInto<String> for TomlTok { fn v_into(self) -> (r: String) ensures r@ == ttext(tt(self)) { <String as From<TomlTok>>::from(self) } }

pub open spec fn jq(s: TomlParser, i: VChars) -> Seq<char> { unread(s.cur, i) }
/// invariant of a reader on a text
pub open spec fn inv(s: TomlParser, i: VChars) -> bool { i.wf() && s.cur == hd(jq(s, i)) && jq(s, i).len() <= i.full().len() - i.pos() + 1 && atpos(s.line as int, s.col as int, i.full(), i.pos()) }
/// an error reports the place of the last character read
pub open spec fn terr(e: TomlErr, a: VChars, b: VChars) -> bool { atpos(e.line as int, e.col as int, b.full(), b.pos()) }

// ------------------------------------------------------------------ TOML: the lexical grammar
pub open spec fn isws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }
/// the rest of a text after its first line
pub open spec fn lend(q: Seq<char>) -> Seq<char> decreases q.len() { if hd(q) == '\n' || hd(q) == '\0' { q } else { lend(tl(q)) } }
/// white space and comments
pub open spec fn tgap(q: Seq<char>) -> Seq<char> decreases q.len() {
    if isws(hd(q)) { tgap(tl(q)) } else if hd(q) == '#' && lend(q).len() < q.len() { tgap(lend(q)) } else { q }
}
/// characters of a bare key
pub open spec fn isk(c: char) -> bool {
    let n = c as u32;
    'A' <= c && c <= 'Z' || 'a' <= c && c <= 'z' || '0' <= c && c <= '9' || c == '-' || c == '_' || n == 0xb2 || n == 0xb3 || n == 0xb9 || 0xbc <= n <= 0xbe || 0xc0 <= n <= 0xd6 || 0xd8 <= n <= 0xf6
    || 0xf8 <= n <= 0x37d || 0x37f <= n <= 0x1fff || n == 0x200c || n == 0x200d || n == 0x203f || n == 0x2040 || 0x2070 <= n <= 0x218f || 0x2460 <= n <= 0x24ff || 0x2c00 <= n <= 0x2fef || 0x3001 <= n <= 0xd7ff
    || 0xf900 <= n <= 0xfdcf || 0xfdf0 <= n <= 0xfffd || 0x10000 <= n <= 0xeffff
}
pub open spec fn isend(c: char) -> bool { isws(c) || c == '\0' || c == '=' || c == ']' || c == ',' || c == '#' }
pub open spec fn idn(q: Seq<char>, acc: Seq<char>) -> (Seq<char>, Seq<char>) decreases q.len() { if q.len() > 0 && (isk(q[0]) || q[0] == '.') { idn(tl(q), acc.push(q[0])) } else { (acc, q) } }
pub open spec fn word(s: Seq<char>) -> TT { if s == "true"@ { TT::Bool(true) } else if s == "false"@ { TT::Bool(false) } else if s == "inf"@ { TT::Inf(false) } else if s == "nan"@ { TT::Nan(false) } else { TT::Ident(s) } }
pub open spec fn lex_id(q: Seq<char>, start: Seq<char>) -> Option<(TT, Seq<char>)> { let p = idn(q, start); if isend(hd(p.1)) { Some((word(p.0), p.1)) } else { None } }
pub open spec fn isnum(c: char) -> bool { isdig(c) || c == '_' }
/// digits without the underscores between them
pub open spec fn digu(q: Seq<char>, acc: Seq<char>) -> (Seq<char>, Seq<char>) decreases q.len() { if isnum(hd(q)) { digu(tl(q), if hd(q) == '_' { acc } else { acc.push(hd(q)) }) } else { (acc, q) } }
pub open spec fn isdate(c: char) -> bool { isdig(c) || c == ':' || c == '-' || c == 'T' }
pub open spec fn dats(q: Seq<char>, acc: Seq<char>) -> (Seq<char>, Seq<char>) decreases q.len() { if isdate(hd(q)) { dats(tl(q), acc.push(hd(q))) } else { (acc, q) } }
pub open spec fn sign(q: Seq<char>) -> (Seq<char>, Seq<char>) { if hd(q) == '-' { (seq!['-'], tl(q)) } else if hd(q) == '+' { (seq![], tl(q)) } else { (seq![], q) } }
/// as much of the three letters as there is
pub open spec fn three(p: (Seq<char>, Seq<char>), a: char, b: char, c: char) -> (Seq<char>, Seq<char>, bool) {
    let (s, q) = p;
    if hd(q) != a { (s, q, false) } else if hd(tl(q)) != b { (s.push(a), tl(q), false) } else if hd(tl(tl(q))) != c { (s.push(a).push(b), tl(tl(q)), false) } else { (s.push(a).push(b).push(c), tl(tl(tl(q))), true) }
}
pub open spec fn three_nan(q: Seq<char>) -> (Seq<char>, Seq<char>, bool) { three(sign(q), 'n', 'a', 'n') }
pub open spec fn three_inf(q: Seq<char>) -> (Seq<char>, Seq<char>, bool) { three(sign(q), 'i', 'n', 'f') }
#[verifier::opaque] pub open spec fn lex_num(q: Seq<char>) -> Option<(TT, Seq<char>)> {
    let neg = hd(q) == '-';
    let n = three_nan(q); let i = three_inf(q);
    if n.2 && isend(hd(n.1)) { Some((TT::Nan(neg), n.1)) }
    else if i.2 && isend(hd(i.1)) { Some((TT::Inf(neg), i.1)) }
    else { num_rest(neg, if hd(sign(q).1) == 'n' { (n.0, n.1) } else { (i.0, i.1) }) }
}
pub open spec fn num_rest(neg: bool, p: (Seq<char>, Seq<char>)) -> Option<(TT, Seq<char>)> {
    let d = digu(p.1, p.0);
    if hd(d.1) == '.' { let f = digu(tl(d.1), d.0.push('.')); match pf64(f.0) { Some(x) => Some((TT::F64(x), f.1)), None => None } }
    else if hd(d.1) == '-' { let t = dats(tl(d.1), d.0.push('-')); Some((TT::Date(t.0), t.1)) }
    else if isk(hd(d.1)) { lex_id(d.1, d.0) }
    else { match i64::sp_from(d.0) { None => None, Some(x) => Some((if neg { TT::I64(x) } else { TT::U64(x as u64) }, d.1)) } }
}
pub open spec fn unesc(c: char) -> char { if c == 'n' { '\n' } else if c == 'r' { '\r' } else if c == 't' { '\t' } else if c == 'b' { '\x08' } else if c == 'f' { '\x0c' } else { c } }
pub open spec fn hexv(c: char) -> Option<int> { if isdig(c) { Some(c as int - 0x30) } else if 'a' <= c && c <= 'f' { Some(c as int - 0x61 + 10) } else if 'A' <= c && c <= 'F' { Some(c as int - 0x41 + 10) } else { None } }
pub open spec fn hexn(q: Seq<char>, k: int, acc: int) -> Option<(int, Seq<char>)> decreases k {
    if k <= 0 { Some((acc, q)) } else { match hexv(hd(q)) { None => None, Some(v) => hexn(tl(q), k - 1, acc * 16 + v) } }
}
/// what follows \\u or \\U: the code of a character in that many hex digits
pub open spec fn ucode(q: Seq<char>, k: int) -> Option<(char, Seq<char>)> { match hexn(q, k, 0) { Some((a, r)) => if scalar(a) { Some((a as char, r)) } else { None }, None => None } }
/// what follows a backslash
pub open spec fn esc1(q: Seq<char>) -> Option<(char, Seq<char>)> { if hd(q) == '\0' { None } else if hd(q) == 'u' { ucode(tl(q), 4) } else if hd(q) == 'U' { ucode(tl(q), 8) } else { Some((unesc(hd(q)), tl(q))) } }
pub open spec fn pow16(k: int) -> int decreases k { if k <= 0 { 1 } else { 16 * pow16(k - 1) } }
pub proof fn lemma_hexn(q: Seq<char>, k: int, acc: int) requires k >= 0 ensures hexn(q, k, acc) is Some ==> (hexn(q, k, acc)->0).1.len() == q.len() - k decreases k { if k > 0 { if let Some(v) = hexv(hd(q)) { lemma_hexn(tl(q), k - 1, acc * 16 + v); } } }
pub proof fn lemma_esc1(q: Seq<char>) ensures esc1(q) is Some ==> (esc1(q)->0).1.len() < q.len() { lemma_hexn(tl(q), 4, 0); lemma_hexn(tl(q), 8, 0); }
/// a string up to its closing quote
pub open spec fn sstr(q: Seq<char>, acc: Seq<char>) -> Option<(Seq<char>, Seq<char>)> decreases q.len() {
    if hd(q) == '"' { Some((acc, tl(q))) }
    else if hd(q) == '\\' { match esc1(tl(q)) { None => None, Some((c, r)) => if r.len() < q.len() { sstr(r, acc.push(c)) } else { None } } }
    else if hd(q) == '\0' { None }
    else { sstr(tl(q), acc.push(hd(q))) }
}
/// quotes at the start of a text, and what follows them
pub open spec fn quo(q: Seq<char>, n: int) -> (int, Seq<char>) decreases q.len() { if hd(q) == '"' { quo(tl(q), n + 1) } else { (n, q) } }
pub open spec fn quotes(n: int) -> Seq<char> { Seq::new(if n < 0 { 0 } else { n as nat }, |k: int| '"') }
/// a multi-line string up to the last three quotes of the first run of three or more
pub open spec fn mstr(q: Seq<char>, acc: Seq<char>) -> Option<(Seq<char>, Seq<char>)> decreases q.len() {
    if hd(q) == '"' { let p = quo(q, 0); if p.0 >= 3 { Some((acc + quotes(p.0 - 3), p.1)) } else if p.1.len() < q.len() { mstr(p.1, acc + quotes(p.0)) } else { None } }
    else if hd(q) == '\\' { match esc1(tl(q)) { None => None, Some((c, r)) => if r.len() < q.len() { mstr(r, acc.push(c)) } else { None } } }
    else if hd(q) == '\0' { None }
    else { mstr(tl(q), acc.push(hd(q))) }
}
pub open spec fn lex_str(q: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let r = tl(q);
    if hd(r) != '"' { sstr(r, seq![]) } else if hd(tl(r)) != '"' { Some((seq![], tl(r))) } else { mstr(tl(tl(r)), seq![]) }
}
pub open spec fn lex1(q: Seq<char>) -> Option<(TT, Seq<char>)> {
    let c = hd(q);
    if c == '\0' { Some((TT::Eof, q)) }
    else if c == ',' { Some((TT::Comma, tl(q))) } else if c == '[' { Some((TT::BlockOpen, tl(q))) } else if c == ']' { Some((TT::BlockClose, tl(q))) } else if c == '=' { Some((TT::Equals, tl(q))) }
    else if c == '+' || c == '-' || isdig(c) { lex_num(q) }
    else if c == '"' { match lex_str(q) { None => None, Some((s, r)) => Some((TT::Str(s), r)) } }
    else if isk(c) { lex_id(q, seq![]) }
    else { None }
}
#[verifier::opaque] pub open spec fn lex(q: Seq<char>) -> Option<(TT, Seq<char>)> { lex1(tgap(q)) }

// every token takes text
pub proof fn lemma_lend(q: Seq<char>) ensures lend(q).len() <= q.len(), hd(lend(q)) == '\n' || hd(lend(q)) == '\0', hd(q) != '\n' && hd(q) != '\0' ==> lend(q).len() < q.len() decreases q.len() { if hd(q) == '\n' || hd(q) == '\0' { } else { lemma_lend(tl(q)); } }
pub proof fn lemma_gap(q: Seq<char>) ensures tgap(q).len() <= q.len(), !isws(hd(tgap(q))), hd(tgap(q)) != '#' decreases q.len() { lemma_lend(q); if isws(hd(q)) { lemma_gap(tl(q)); } else if hd(q) == '#' { lemma_gap(lend(q)); } }
pub proof fn lemma_digu(q: Seq<char>, a: Seq<char>) ensures digu(q, a).1.len() <= q.len(), isnum(hd(q)) ==> digu(q, a).1.len() < q.len(), !isnum(hd(digu(q, a).1)) decreases q.len() { if isnum(hd(q)) { lemma_digu(tl(q), if hd(q) == '_' { a } else { a.push(hd(q)) }); } }
pub proof fn lemma_dats(q: Seq<char>, a: Seq<char>) ensures dats(q, a).1.len() <= q.len() decreases q.len() { if isdate(hd(q)) { lemma_dats(tl(q), a.push(hd(q))); } }
pub proof fn lemma_idn(q: Seq<char>, a: Seq<char>) ensures idn(q, a).1.len() <= q.len(), isk(hd(q)) && hd(q) != '\0' ==> idn(q, a).1.len() < q.len() decreases q.len() { if q.len() > 0 && (isk(q[0]) || q[0] == '.') { lemma_idn(tl(q), a.push(hd(q))); } }
pub proof fn lemma_quo(q: Seq<char>, n: int) ensures quo(q, n).1.len() <= q.len(), quo(q, n).0 == n + q.len() - quo(q, n).1.len(), hd(q) == '"' ==> quo(q, n).1.len() < q.len(), hd(quo(q, n).1) != '"' decreases q.len() { if hd(q) == '"' { lemma_quo(tl(q), n + 1); } }
pub proof fn lemma_sstr(q: Seq<char>, a: Seq<char>) ensures sstr(q, a) is Some ==> (sstr(q, a)->0).1.len() < q.len() decreases q.len() {
    if hd(q) == '"' { } else if hd(q) == '\\' { lemma_esc1(tl(q)); if let Some((c, r)) = esc1(tl(q)) { lemma_sstr(r, a.push(c)); } } else if hd(q) == '\0' { } else { lemma_sstr(tl(q), a.push(hd(q))); }
}
pub proof fn lemma_mstr(q: Seq<char>, a: Seq<char>) ensures mstr(q, a) is Some ==> (mstr(q, a)->0).1.len() < q.len() decreases q.len() {
    if hd(q) == '"' { lemma_quo(q, 0); let p = quo(q, 0); if p.0 < 3 { lemma_mstr(p.1, a + quotes(p.0)); } } else if hd(q) == '\\' { lemma_esc1(tl(q)); if let Some((c, r)) = esc1(tl(q)) { lemma_mstr(r, a.push(c)); } } else if hd(q) == '\0' { } else { lemma_mstr(tl(q), a.push(hd(q))); }
}
pub proof fn lemma_num(q: Seq<char>) requires hd(q) == '+' || hd(q) == '-' || isdig(hd(q)) ensures lex_num(q) is Some ==> (lex_num(q)->0).1.len() < q.len() && (lex_num(q)->0).0 != TT::Eof { reveal(lex_num);
    let n = three_nan(q); let i = three_inf(q); let p = if hd(sign(q).1) == 'n' { (n.0, n.1) } else { (i.0, i.1) };
    lemma_digu(p.1, p.0); let d = digu(p.1, p.0); lemma_digu(tl(d.1), d.0.push('.')); lemma_dats(tl(d.1), d.0.push('-')); lemma_idn(d.1, d.0);
}
pub proof fn lemma_lex(q: Seq<char>) ensures match lex(q) { Some((t, r)) => r.len() <= q.len() && (t == TT::Eof ==> hd(r) == '\0') && (t != TT::Eof ==> r.len() < q.len()), None => true } { reveal(lex);
    lemma_gap(q); let r = tgap(q);
    if hd(r) == '+' || hd(r) == '-' || isdig(hd(r)) { lemma_num(r); }
    lemma_idn(r, seq![]); lemma_sstr(tl(r), seq![]); lemma_mstr(tl(tl(tl(r))), seq![]);
}
// ------------------------------------------------------------------ TOML: values and lines
pub open spec fn tval(t: TT, q: Seq<char>, d: int) -> Option<(TVal, Seq<char>)> decreases q.len(), 2int {
    match t {
        TT::BlockOpen => if d >= 128 { None } else { tarr(q, d, seq![]) },
        TT::Str(s) => Some((TVal::Str(s), q)), TT::U64(n) => Some((TVal::Num(f_int(n as int)), q)), TT::I64(n) => Some((TVal::Num(f_int(n as int)), q)), TT::F64(f) => Some((TVal::Num(f), q)), TT::Bool(b) => Some((TVal::Bool(b), q)),
        TT::Nan(n) => Some((TVal::Num(if n { fneg(f64nan()) } else { f64nan() }), q)), TT::Inf(n) => Some((TVal::Num(if n { fneg(f64inf()) } else { f64inf() }), q)), TT::Date(s) => Some((TVal::Date(s), q)),
        _ => None,
    }
}
/// the rest of an array
pub open spec fn tarr(q: Seq<char>, d: int, acc: Seq<TVal>) -> Option<(TVal, Seq<char>)> decreases q.len(), 1int {
    match lex(q) { None => None, Some((t, r)) =>
        if t == TT::BlockClose { Some((TVal::Simple(acc), r)) }
        else if r.len() >= q.len() { None }
        else if t == TT::Comma { tarr(r, d, acc) }
        else { match tval(t, r, d + 1) { None => None, Some((v, r2)) => if r2.len() < q.len() { tarr(r2, d, acc.push(v)) } else { None } } } }
}
pub open spec fn tve(x: Option<(TVal, Seq<char>)>) -> Seq<char> { match x { Some((_, r)) => r, None => seq![] } }
pub proof fn lemma_tval(t: TT, q: Seq<char>, d: int) ensures tve(tval(t, q, d)).len() <= q.len() decreases q.len(), 2int { if t == TT::BlockOpen && d < 128 { lemma_tarr(q, d, seq![]); } }
pub proof fn lemma_tarr(q: Seq<char>, d: int, acc: Seq<TVal>) ensures tve(tarr(q, d, acc)).len() <= q.len() decreases q.len(), 1int {
    lemma_lex(q);
    if let Some((t, r)) = lex(q) { if t != TT::BlockClose && r.len() < q.len() { if t == TT::Comma { lemma_tarr(r, d, acc); } else { lemma_tval(t, r, d + 1); if let Some((v, r2)) = tval(t, r, d + 1) { if r2.len() < q.len() { lemma_tarr(r2, d, acc.push(v)); } } } } }
}
/// a document being read: the tables so far, the element of an array of tables that keys go to, and the section
pub ghost struct TDoc { pub out: Map<Seq<char>, TVal>, pub act: Option<(Seq<char>, int)>, pub scope: Seq<char> }
pub open spec fn inside(name: Seq<char>, t: Seq<char>) -> bool { prefix(t.push('.'), name) }
pub open spec fn section(d: TDoc, name: Seq<char>) -> TDoc { TDoc { out: d.out, act: match d.act { Some((t, n)) if inside(name, t) => Some((t, n)), _ => None }, scope: name } }
pub proof fn lemma_inside(name: Seq<char>, t: Seq<char>) ensures inside(name, t) <==> (prefix(t, name) && prefix(seq!['.'], name.skip(t.len() as int))) {
    let n = t.len() as int; let p = t.push('.');
    if prefix(p, name) { assert(name.take(n + 1).take(n) =~= name.take(n)); assert(p.take(n) =~= t); assert(name.skip(n)[0] == name.take(n + 1)[n]); assert(name.skip(n).take(1) =~= seq!['.']); }
    if prefix(t, name) && prefix(seq!['.'], name.skip(n)) { assert(name.skip(n)[0] == name.skip(n).take(1)[0]); assert(name.take(n + 1) =~= name.take(n).push(name[n])); }
}
pub open spec fn elem(v: TVal, n: int) -> Map<Seq<char>, TVal> { v->Array_0[n] }
pub open spec fn start_arr(out: Map<Seq<char>, TVal>, key: Seq<char>) -> Option<Map<Seq<char>, TVal>> {
    let o = if out.dom().contains(key) { out[key] } else { TVal::Array(seq![]) };
    match o { TVal::Array(a) => Some(out.insert(key, TVal::Array(a.push(Map::empty())))), _ => None }
}
pub open spec fn arr_len(out: Map<Seq<char>, TVal>, key: Seq<char>) -> int { if out.dom().contains(key) { match out[key] { TVal::Array(a) => a.len() as int, _ => 0 } } else { 0 } }
/// where keys go
pub open spec fn table(d: TDoc) -> Map<Seq<char>, TVal> { match d.act { Some((t, n)) => elem(d.out[t], n), None => d.out } }
pub open spec fn put(d: TDoc, m: Map<Seq<char>, TVal>) -> TDoc { match d.act { Some((t, n)) => TDoc { out: d.out.insert(t, TVal::Array(d.out[t]->Array_0.update(n, m))), ..d }, None => TDoc { out: m, ..d } } }
pub open spec fn dinv(d: TDoc) -> bool { match d.act { Some((t, n)) => d.out.dom().contains(t) && d.out[t] is Array && 0 <= n < d.out[t]->Array_0.len(), None => true } }
pub open spec fn eat(x: Option<(TT, Seq<char>)>, t: TT) -> Option<Seq<char>> { match x { Some((u, r)) => if u == t { Some(r) } else { None }, None => None } }
pub open spec fn scalar_tok(t: TT) -> bool { match t { TT::Ident(_) | TT::U64(_) | TT::I64(_) | TT::F64(_) | TT::Bool(_) | TT::Nan(_) | TT::Inf(_) | TT::Date(_) => true, _ => false } }
pub open spec fn fullkey(scope: Seq<char>, key: Seq<char>) -> Seq<char> { if scope.len() > 0 { scope + seq!['.'] + key } else { key } }
/// "= value"
pub open spec fn tkv(q: Seq<char>) -> Option<(TVal, Seq<char>)> { match eat(lex(q), TT::Equals) { None => None, Some(r) => match lex(r) { None => None, Some((t, r2)) => tval(t, r2, 0) } } }
/// one header or key/value pair: whether there was one, the rest, and the document after it
#[verifier::opaque] pub open spec fn tline(q: Seq<char>, d: TDoc) -> Option<(bool, Seq<char>, TDoc)> {
    match lex(q) { None => None, Some((t, r)) => match t {
        TT::Eof => Some((false, r, d)),
        TT::BlockOpen => match lex(r) { None => None, Some((t2, r2)) => match t2 {
            TT::Str(k) => match eat(lex(r2), TT::BlockClose) { None => None, Some(r3) => Some((true, r3, section(d, k))) },
            TT::Ident(k) => match eat(lex(r2), TT::BlockClose) { None => None, Some(r3) => Some((true, r3, section(d, k))) },
            TT::BlockOpen => match lex(r2) { None => None, Some((t3, r3)) => if !scalar_tok(t3) { None } else {
                match eat(lex(r3), TT::BlockClose) { None => None, Some(r4) => match eat(lex(r4), TT::BlockClose) { None => None, Some(r5) =>
                    match start_arr(d.out, ttext(t3)) { None => None, Some(o) => Some((true, r5, TDoc { out: o, act: Some((ttext(t3), arr_len(d.out, ttext(t3)))), scope: seq![] })) } } } } },
            _ => None,
        } },
        _ => if scalar_tok(t) || t is Str { match tkv(r) { None => None, Some((v, r2)) => Some((true, r2, put(d, table(d).insert(fullkey(d.scope, ttext(t)), v)))) } } else { None },
    } }
}
pub open spec fn tdoc(q: Seq<char>, d: TDoc) -> Option<TDoc> decreases q.len() {
    match tline(q, d) { None => None, Some((more, r, d2)) => if !more { Some(d2) } else if r.len() < q.len() { tdoc(r, d2) } else { None } }
}
pub open spec fn tdoc0() -> TDoc { TDoc { out: Map::empty(), act: None, scope: seq![] } }
/// what a TOML text means
pub open spec fn toml_of(t: Seq<char>) -> Option<Map<Seq<char>, TVal>> { match tdoc(norm(t), tdoc0()) { Some(d) => Some(d.out), None => None } }
pub open spec fn odoc(o: Out, scope: Seq<char>) -> TDoc { TDoc { out: o.out.model(), act: match o.active_array_element { Some((t, n)) => Some((t@, n as int)), None => None }, scope: scope } }
pub proof fn lemma_start(t: Seq<char>) ensures hd(norm(seq!['\0'] + t)) == '\0', tl(norm(seq!['\0'] + t)) == norm(t), atpos(0, 0, t, 0), norm(seq!['\0'] + t).len() <= t.len() + 1
{ reveal(atpos); lemma_norm(seq!['\0'] + t); assert((seq!['\0'] + t).skip(1) =~= t); assert(t.take(0) =~= Seq::empty()); }
pub proof fn lemma_tline(q: Seq<char>, d: TDoc) ensures match tline(q, d) { Some((more, r, d2)) => r.len() <= q.len() && (more ==> r.len() < q.len()) && (dinv(d) ==> dinv(d2)), None => true } { reveal(tline);
    lemma_lex(q);
    if let Some((t, r)) = lex(q) {
        lemma_lex(r);
        if let Some((t2, r2)) = lex(r) { lemma_lex(r2); if let Some((t3, r3)) = lex(r2) { lemma_lex(r3); lemma_tval(t3, r3, 0); if let Some((t4, r4)) = lex(r3) { lemma_lex(r4); } } }
    }
}
