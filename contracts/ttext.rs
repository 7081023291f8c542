// ------------------------------------------------------------------ JSON: tokens
//@if json
pub enum Tk { Str(Seq<char>), U64(u64, Seq<char>), I64(i64, Seq<char>), F64(f64, Seq<char>), Bool(bool), Null, Colon, CurlyOpen, CurlyClose, BlockOpen, BlockClose, Comma, Eof, Other, Bad }
//@if ron
pub enum Tk { Str(Seq<char>), Ident(Seq<char>), Char(char), U64(u64, Seq<char>), I64(i64, Seq<char>), F64(f64, Seq<char>), Bool(bool), Colon, CurlyOpen, CurlyClose, ParenOpen, ParenClose, BlockOpen, BlockClose, Comma, Eof, Other, Bad }
//@end
pub uninterp spec fn feq(a: f64, b: f64) -> bool;
pub open spec fn teq(a: DeJsonTok, b: DeJsonTok) -> bool { match (a, b) { (DeJsonTok::F64(x), DeJsonTok::F64(y)) => feq(x, y), _ => a == b } }
impl PartialEqSpecImpl for DeJsonTok { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &DeJsonTok) -> bool { teq(*self, *o) } }
// derived
impl PartialEq for DeJsonTok { #[verifier::external_body] fn eq(&self, o: &DeJsonTok) -> bool { unimplemented!() } }
impl Clone for DeJsonTok { #[verifier::external_body] fn clone(&self) -> (r: DeJsonTok) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn v_json_default() -> (r: DeJsonState) ensures r.cur == '\0', r.line == 0, r.col == 0, r.tok is Bof { unimplemented!() }
pub open spec fn tk(s: DeJsonState) -> Tk { match s.tok {
    DeJsonTok::Str => Tk::Str(s.strbuf@), DeJsonTok::U64(v) => Tk::U64(v, s.numbuf@), DeJsonTok::I64(v) => Tk::I64(v, s.numbuf@), DeJsonTok::F64(v) => Tk::F64(v, s.numbuf@),
//@if json
    DeJsonTok::Null => Tk::Null,
//@if ron
    DeJsonTok::Ident => Tk::Ident(s.identbuf@), DeJsonTok::Char(c) => Tk::Char(c), DeJsonTok::ParenOpen => Tk::ParenOpen, DeJsonTok::ParenClose => Tk::ParenClose,
//@end
    DeJsonTok::Bool(b) => Tk::Bool(b), DeJsonTok::Colon => Tk::Colon, DeJsonTok::CurlyOpen => Tk::CurlyOpen, DeJsonTok::CurlyClose => Tk::CurlyClose,
    DeJsonTok::BlockOpen => Tk::BlockOpen, DeJsonTok::BlockClose => Tk::BlockClose, DeJsonTok::Comma => Tk::Comma, DeJsonTok::Eof => Tk::Eof, _ => Tk::Other } }
pub open spec fn jq(s: DeJsonState, i: VChars) -> Seq<char> { unread(s.cur, i) }
/// invariant of a reader on a text
pub open spec fn inv(s: DeJsonState, i: VChars) -> bool { inv0(s, i) && numok(tk(s)) }
pub open spec fn inv0(s: DeJsonState, i: VChars) -> bool { i.wf() && s.cur == hd(jq(s, i)) && jq(s, i).len() <= i.full().len() - i.pos() + 1 && atpos(s.line as int, s.col as int, i.full(), i.pos()) }
/// numbers: the digits kept beside a numeric token read as a float, too; a signed token is never positive
pub open spec fn numok(t: Tk) -> bool { match t { Tk::U64(_, n) | Tk::F64(_, n) => pf64(n) is Some && pf32(n) is Some, Tk::I64(v, n) => v <= 0 && pf64(n) is Some && pf32(n) is Some, _ => true } }
/// an error reports the place of the last character read
pub open spec fn jerr(e: DeJsonErr, a: VChars, b: VChars) -> bool { atpos(e.line as int, e.col as int, b.full(), b.pos()) }

// ------------------------------------------------------------------ JSON: the lexical grammar
pub open spec fn isws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }
pub open spec fn lend(q: Seq<char>) -> Seq<char> decreases q.len() { if hd(q) == '\n' || hd(q) == '\0' { q } else { lend(tl(q)) } }
pub open spec fn cend(q: Seq<char>, last: char) -> Option<Seq<char>> decreases q.len() {
    if hd(q) == '\0' { None } else if last == '*' && hd(q) == '/' { Some(tl(q)) } else { cend(tl(q), hd(q)) }
}
pub open spec fn skip_gap(q: Seq<char>) -> Option<Seq<char>> decreases q.len() {
    if q.len() == 0 { Some(q) }
    else if isws(q[0]) { skip_gap(tl(q)) }
    else if q[0] == '/' {
        if hd(tl(q)) == '/' { if lend(tl(q)).len() < q.len() { skip_gap(lend(tl(q))) } else { None } }
        else if hd(tl(q)) == '*' { match cend(tl(tl(q)), '\0') { None => None, Some(r) => if r.len() < q.len() { skip_gap(r) } else { None } } }
        else { None }
    } else { Some(q) }
}
/// digits, appended to acc
pub open spec fn digs(q: Seq<char>, acc: Seq<char>) -> (Seq<char>, Seq<char>) decreases q.len() { if isdig(hd(q)) { digs(tl(q), acc.push(hd(q))) } else { (acc, q) } }
pub open spec fn sign(q: Seq<char>) -> (Seq<char>, Seq<char>) { if hd(q) == '-' || hd(q) == '+' { (seq![hd(q)], tl(q)) } else { (seq![], q) } }
pub open spec fn frac(p: (Seq<char>, Seq<char>)) -> (Seq<char>, Seq<char>) { if hd(p.1) == '.' { digs(tl(p.1), p.0.push('.')) } else { p } }
pub open spec fn expo(p: (Seq<char>, Seq<char>)) -> (Seq<char>, Seq<char>) {
    if hd(p.1) == 'e' || hd(p.1) == 'E' {
        let a = p.0.push(hd(p.1)); let r = tl(p.1);
        if hd(r) == '-' || hd(r) == '+' { digs(tl(r), a.push(hd(r))) } else { digs(r, a) }
    } else { p }
}
#[verifier::opaque] pub open spec fn lex_num(q: Seq<char>) -> Option<(Tk, Seq<char>)> {
    let i = digs(sign(q).1, sign(q).0);
    let f = frac(i);
    let e = expo(f);
    let isf = hd(i.1) == '.' || hd(f.1) == 'e' || hd(f.1) == 'E';
    if isf { match pf64(e.0) { Some(x) => Some((Tk::F64(x, e.0), e.1)), None => None } }
    else if hd(q) == '-' { match i64::sp_from(e.0) { Some(x) => Some((Tk::I64(x, e.0), e.1)), None => None } }
    else { match u64::sp_from(e.0) { Some(x) => Some((Tk::U64(x, e.0), e.1)), None => None } }
}
pub open spec fn isid(c: char) -> bool { 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c == '_' }
//@if json
pub open spec fn iscont(c: char) -> bool { isid(c) }
//@if ron
pub open spec fn iscont(c: char) -> bool { isid(c) || isdig(c) }
//@end
pub open spec fn idn(q: Seq<char>, acc: Seq<char>) -> (Seq<char>, Seq<char>) decreases q.len() { if iscont(hd(q)) { idn(tl(q), acc.push(hd(q))) } else { (acc, q) } }
//@if json
#[verifier::opaque] pub open spec fn lex_id(q: Seq<char>) -> Option<(Tk, Seq<char>)> {
    let p = idn(q, seq![]);
    if p.0 == "true"@ { Some((Tk::Bool(true), p.1)) } else if p.0 == "false"@ { Some((Tk::Bool(false), p.1)) } else if p.0 == "null"@ { Some((Tk::Null, p.1)) } else { None }
}
pub open spec fn numstart(c: char) -> bool { c == '-' || c == '+' || isdig(c) }
//@if ron
#[verifier::opaque] pub open spec fn lex_id(q: Seq<char>) -> Option<(Tk, Seq<char>)> {
    let p = idn(q, seq![]);
    if p.0 == "true"@ { Some((Tk::Bool(true), p.1)) } else if p.0 == "false"@ { Some((Tk::Bool(false), p.1)) } else { Some((Tk::Ident(p.0), p.1)) }
}
pub open spec fn numstart(c: char) -> bool { c == '-' || c == '+' || c == '.' || isdig(c) }
/// 'c' or '\\c'
pub open spec fn lex_char(q: Seq<char>) -> Option<(Tk, Seq<char>)> { let r = if hd(q) == '\\' { tl(q) } else { q }; if hd(tl(r)) == '\'' { Some((Tk::Char(hd(r)), tl(tl(r)))) } else { None } }
//@end
pub open spec fn hexv(c: char) -> Option<int> { if isdig(c) { Some(c as int - 0x30) } else if 'a' <= c && c <= 'f' { Some(c as int - 0x61 + 10) } else if 'A' <= c && c <= 'F' { Some(c as int - 0x41 + 10) } else { None } }
pub open spec fn hexn(q: Seq<char>, k: int, acc: int) -> Option<(int, Seq<char>)> decreases k {
    if k <= 0 { Some((acc, q)) } else { match hexv(hd(q)) { None => None, Some(v) => hexn(tl(q), k - 1, acc * 16 + v) } }
}
/// what follows \u: a code unit, or a surrogate pair
pub open spec fn uesc(q: Seq<char>) -> Option<(char, Seq<char>)> {
    match hexn(q, 4, 0) { None => None, Some((a, r)) =>
        if scalar(a) { Some((a as char, r)) }
        else if a < 0xdc00 && hd(r) == '\\' && hd(tl(r)) == 'u' {
            match hexn(tl(tl(r)), 4, 0) { None => None, Some((b, r2)) =>
                if 0xdc00 <= b < 0xe000 { Some((((a - 0xd800) * 0x400 + (b - 0xdc00) + 0x10000) as char, r2)) } else { None } }
        } else { None } }
}
pub open spec fn unesc(c: char) -> char { if c == 'n' { '\n' } else if c == 'r' { '\r' } else if c == 't' { '\t' } else if c == 'b' { '\x08' } else if c == 'f' { '\x0c' } else if c == '0' { '\0' } else { c } }
pub open spec fn lex_str(q: Seq<char>, acc: Seq<char>) -> Option<(Seq<char>, Seq<char>)> decreases q.len() {
    if hd(q) == '"' { Some((acc, tl(q))) }
    else if hd(q) == '\\' {
        let r = tl(q);
        if hd(r) == '\0' { None }
        else if hd(r) == 'u' { match uesc(tl(r)) { None => None, Some((c, r2)) => if r2.len() < q.len() { lex_str(r2, acc.push(c)) } else { None } } }
        else { lex_str(tl(r), acc.push(unesc(hd(r)))) }
    }
    else if hd(q) == '\0' { None }
    else { lex_str(tl(q), acc.push(hd(q))) }
}
pub open spec fn lex1(q: Seq<char>) -> Option<(Tk, Seq<char>)> {
    let c = hd(q);
    if c == '\0' { Some((Tk::Eof, q)) }
    else if c == ':' { Some((Tk::Colon, tl(q))) } else if c == ',' { Some((Tk::Comma, tl(q))) }
    else if c == '[' { Some((Tk::BlockOpen, tl(q))) } else if c == ']' { Some((Tk::BlockClose, tl(q))) }
    else if c == '{' { Some((Tk::CurlyOpen, tl(q))) } else if c == '}' { Some((Tk::CurlyClose, tl(q))) }
//@if ron
    else if c == '(' { Some((Tk::ParenOpen, tl(q))) } else if c == ')' { Some((Tk::ParenClose, tl(q))) }
    else if c == '\'' { lex_char(tl(q)) }
//@end
    else if numstart(c) { lex_num(q) }
    else if isid(c) { lex_id(q) }
    else if c == '"' { match lex_str(tl(q), seq![]) { None => None, Some((s, r)) => Some((Tk::Str(s), r)) } }
    else { None }
}
#[verifier::opaque] pub open spec fn lex(q: Seq<char>) -> Option<(Tk, Seq<char>)> { match skip_gap(q) { None => None, Some(r) => lex1(r) } }

// every token takes text
pub proof fn lemma_lend(q: Seq<char>) ensures lend(q).len() <= q.len(), hd(lend(q)) == '\n' || hd(lend(q)) == '\0' decreases q.len() { if hd(q) == '\n' || hd(q) == '\0' { } else { lemma_lend(tl(q)); } }
pub proof fn lemma_cend(q: Seq<char>, l: char) ensures cend(q, l) is Some ==> cend(q, l)->0.len() < q.len() decreases q.len() { if hd(q) == '\0' || (l == '*' && hd(q) == '/') { } else { lemma_cend(tl(q), hd(q)); } }
//@if ron
pub proof fn lemma_cend_last(q: Seq<char>, l: char) ensures cend(q, l) == cend(q, if l == '*' { '*' } else { '\0' }) { }
//@end
pub proof fn lemma_skip(q: Seq<char>) ensures skip_gap(q) is Some ==> (skip_gap(q)->0.len() <= q.len() && !isws(hd(skip_gap(q)->0)) && hd(skip_gap(q)->0) != '/') decreases q.len() {
    if q.len() == 0 { } else if isws(q[0]) { lemma_skip(tl(q)); } else if q[0] == '/' {
        lemma_lend(tl(q)); lemma_cend(tl(tl(q)), '\0');
        if hd(tl(q)) == '/' { lemma_skip(lend(tl(q))); } else if hd(tl(q)) == '*' { if let Some(r) = cend(tl(tl(q)), '\0') { lemma_skip(r); } }
    }
}
pub proof fn lemma_digs(q: Seq<char>, a: Seq<char>) ensures digs(q, a).1.len() <= q.len(), !isdig(hd(digs(q, a).1)), isdig(hd(q)) ==> digs(q, a).1.len() < q.len() decreases q.len() { if isdig(hd(q)) { lemma_digs(tl(q), a.push(hd(q))); } }
pub proof fn lemma_idn(q: Seq<char>, a: Seq<char>) ensures idn(q, a).1.len() <= q.len(), iscont(hd(q)) ==> idn(q, a).1.len() < q.len() decreases q.len() { if iscont(hd(q)) { lemma_idn(tl(q), a.push(hd(q))); } }
pub proof fn lemma_hexn(q: Seq<char>, k: int, acc: int) requires k >= 0, acc >= 0 ensures hexn(q, k, acc) is Some ==> ((hexn(q, k, acc)->0).1.len() == q.len() - k && 0 <= (hexn(q, k, acc)->0).0 < (acc + 1) * pow16(k)) decreases k {
    lemma_pow16(k - 1);
    if k > 0 { if let Some(v) = hexv(hd(q)) { lemma_hexn(tl(q), k - 1, acc * 16 + v); assert((acc * 16 + v + 1) * pow16(k - 1) <= (acc + 1) * 16 * pow16(k - 1)) by(nonlinear_arith) requires 0 <= v < 16, pow16(k - 1) >= 1, acc >= 0; assert((acc + 1) * 16 * pow16(k - 1) == (acc + 1) * (16 * pow16(k - 1))) by(nonlinear_arith); } } else { assert((acc + 1) * 1 > acc) by(nonlinear_arith); }
    lemma_pow16(k);
}
pub open spec fn pow16(k: int) -> int decreases k { if k <= 0 { 1 } else { 16 * pow16(k - 1) } }
pub proof fn lemma_pow16(k: int) ensures pow16(k) >= 1, pow16(4) == 0x10000 decreases k { reveal_with_fuel(pow16, 6); if k > 0 { lemma_pow16(k - 1); } }
pub proof fn lemma_uesc(q: Seq<char>) ensures uesc(q) is Some ==> (uesc(q)->0).1.len() < q.len() {
    lemma_hexn(q, 4, 0);
    if let Some((a, r)) = hexn(q, 4, 0) { lemma_hexn(tl(tl(r)), 4, 0); }
}
pub proof fn lemma_lex_str(q: Seq<char>, a: Seq<char>) ensures lex_str(q, a) is Some ==> (lex_str(q, a)->0).1.len() < q.len() decreases q.len() {
    if hd(q) == '"' { } else if hd(q) == '\\' {
        let r = tl(q);
        if hd(r) == '\0' { } else if hd(r) == 'u' { lemma_uesc(tl(r)); if let Some((c, r2)) = uesc(tl(r)) { lemma_lex_str(r2, a.push(c)); } } else { lemma_lex_str(tl(r), a.push(unesc(hd(r)))); }
    } else if hd(q) == '\0' { } else { lemma_lex_str(tl(q), a.push(hd(q))); }
}
pub proof fn lemma_lex_num(q: Seq<char>) requires numstart(hd(q)) ensures lex_num(q) is Some ==> (lex_num(q)->0).1.len() < q.len() { reveal(lex_num); 
    let i = digs(sign(q).1, sign(q).0); lemma_digs(sign(q).1, sign(q).0);
    let f = frac(i); lemma_digs(tl(i.1), i.0.push('.'));
    let a = f.0.push(hd(f.1)); let r = tl(f.1);
    lemma_digs(tl(r), a.push(hd(r))); lemma_digs(r, a);
}
pub proof fn lemma_lex(q: Seq<char>) ensures match lex(q) { Some((t, r)) => r.len() <= q.len() && t != Tk::Bad && (t == Tk::Eof ==> hd(r) == '\0' && lex(r) == Some((Tk::Eof, r))) && (t != Tk::Eof ==> r.len() < q.len()), None => true } { reveal(lex); reveal(lex_id); reveal(lex_num); 
    lemma_skip(q);
    if let Some(r) = skip_gap(q) { if numstart(hd(r)) { lemma_lex_num(r); } lemma_idn(r, seq![]); lemma_lex_str(tl(r), seq![]); }
}
/// the tokens of a text; ends with Eof or, where the text is not made of tokens, Bad
#[verifier::opaque] pub open spec fn stream(q: Seq<char>) -> Seq<Tk> decreases q.len() {
    match lex(q) { None => seq![Tk::Bad], Some((t, r)) => if t == Tk::Eof || r.len() >= q.len() { seq![Tk::Eof] } else { seq![t] + stream(r) } }
}
// ------------------------------------------------------------------ JSON: the reader as a token reader
pub struct JS { pub t: Tk, pub r: Seq<Tk> }
pub open spec fn mk(l: Seq<Tk>) -> JS { JS { t: l[0], r: if l[0] == Tk::Eof { l } else { l.skip(1) } } }
pub open spec fn jst(s: DeJsonState, i: VChars) -> JS { JS { t: tk(s), r: stream(jq(s, i)) } }
pub open spec fn adv(r: Seq<Tk>) -> Option<JS> { if r[0] == Tk::Bad { None } else { Some(mk(r)) } }
pub open spec fn mes(s: JS) -> int { if s.t == Tk::Eof { 0 } else { s.r.len() as int + 1 } }
pub proof fn lemma_stream(q: Seq<char>)
    ensures stream(q).len() >= 1, stream(q).len() <= q.len() + 1,
        match lex(q) { None => stream(q) == seq![Tk::Bad] && adv(stream(q)) is None, Some((t, r)) => adv(stream(q)) == Some(JS { t: t, r: stream(r) }) && mes(JS { t: t, r: stream(r) }) <= stream(q).len() },
    decreases q.len()
{ reveal(stream); 
    lemma_lex(q);
    if let Some((t, r)) = lex(q) {
        lemma_lex(r);
        if t != Tk::Eof { lemma_stream(r); assert(stream(q).skip(1) =~= stream(r)); }
        else { assert(stream(q) =~= seq![Tk::Eof]); assert(stream(r) =~= seq![Tk::Eof]); }
    }
}
/// what the tokenizer establishes, in both forms
pub open spec fn stf(q: Seq<char>) -> bool {
    lex(q) == (match skip_gap(q) { None => None, Some(r) => lex1(r) })
    && match lex(q) { None => adv(stream(q)) is None, Some((t, r)) => adv(stream(q)) == Some(JS { t: t, r: stream(r) }) }
}
pub proof fn lemma_stf(q: Seq<char>) ensures stf(q) { reveal(lex); lemma_stream(q); }
pub open spec fn eat_sep(s: JS, c: Tk) -> Option<JS> { if s.t == Tk::Comma { adv(s.r) } else if s.t == c { Some(s) } else { None } }
/// what closes fixed-size arrays and tuples
//@if json
pub open spec fn arr_c() -> Tk { Tk::BlockClose }
pub open spec fn arr_o() -> Tk { Tk::BlockOpen }
//@if ron
pub open spec fn arr_c() -> Tk { Tk::ParenClose }
pub open spec fn arr_o() -> Tk { Tk::ParenOpen }
//@end
pub open spec fn eat_block(s: JS) -> Option<JS> { eat_sep(s, Tk::BlockClose) }
pub open spec fn eat_curly(s: JS) -> Option<JS> { eat_sep(s, Tk::CurlyClose) }
pub open spec fn eat(s: JS, t: Tk) -> Option<JS> { if s.t == t { adv(s.r) } else { None } }
//@if json
/// what is skipped for a field nobody asked for: one value
pub open spec fn skip_value(s: JS) -> Option<JS> {
    match s.t { Tk::F64(..) | Tk::I64(..) | Tk::U64(..) | Tk::Str(..) | Tk::Bool(..) | Tk::Null => adv(s.r), Tk::BlockOpen | Tk::CurlyOpen => skip_nest(s, 0), _ => None }
}
pub open spec fn skip_nest(s: JS, d: int) -> Option<JS> decreases mes(s) {
    let d2 = if s.t == Tk::BlockOpen || s.t == Tk::CurlyOpen { d + 1 } else if s.t == Tk::BlockClose || s.t == Tk::CurlyClose { d - 1 } else { d };
    if s.t == Tk::Eof { None } else { match adv(s.r) { None => None, Some(s2) => if d2 == 0 { Some(s2) } else if mes(s2) < mes(s) { skip_nest(s2, d2) } else { None } } }
}
//@end
pub open spec fn se<M>(x: Option<(M, JS)>) -> JS { match x { Some((_, s)) => s, None => arbitrary() } }
pub open spec fn sm<M>(x: Option<(M, JS)>) -> M { match x { Some((m, _)) => m, None => arbitrary() } }
/// the elements of a list up to its closing bracket
pub open spec fn parse_elems<T: DeJson>(s: JS, acc: Seq<T::M>) -> Option<(Seq<T::M>, JS)> decreases mes(s) {
    if s.t == Tk::BlockClose { Some((acc, s)) } else {
        match T::parse(s) { None => None, Some((m, s1)) => match eat_block(s1) { None => None, Some(s2) => 
            if s2.t == Tk::BlockClose { Some((acc.push(m), s2)) } else if mes(s2) < mes(s) { parse_elems::<T>(s2, acc.push(m)) } else { None } } }
    }
}
pub open spec fn parse_list<T: DeJson>(s: JS) -> Option<(Seq<T::M>, JS)> {
    match eat(s, Tk::BlockOpen) { None => None, Some(s1) => match parse_elems::<T>(s1, Seq::empty()) { None => None, Some((m, s2)) => match eat(s2, Tk::BlockClose) { None => None, Some(s3) => Some((m, s3)) } } }
}
pub open spec fn parse_kvs<K: DeJson, V: DeJson>(s: JS, acc: Seq<(K::M, V::M)>) -> Option<(Seq<(K::M, V::M)>, JS)> decreases mes(s) {
    if s.t == Tk::CurlyClose { Some((acc, s)) } else {
        match K::parse(s) { None => None, Some((k, s1)) => match eat(s1, Tk::Colon) { None => None, Some(s2) => match V::parse(s2) { None => None, Some((v, s3)) => match eat_curly(s3) { None => None, Some(s4) =>
            if s4.t == Tk::CurlyClose { Some((acc.push((k, v)), s4)) } else if mes(s4) < mes(s) { parse_kvs::<K, V>(s4, acc.push((k, v))) } else { None } } } } }
    }
}
pub open spec fn parse_map<K: DeJson, V: DeJson>(s: JS) -> Option<(Seq<(K::M, V::M)>, JS)> {
    match eat(s, Tk::CurlyOpen) { None => None, Some(s1) => match parse_kvs::<K, V>(s1, Seq::empty()) { None => None, Some((m, s2)) => match eat(s2, Tk::CurlyClose) { None => None, Some(s3) => Some((m, s3)) } } }
}
/// exactly n elements, each followed by a comma or the closing bracket
pub open spec fn parse_fix<T: DeJson>(s: JS, n: nat, acc: Seq<T::M>) -> Option<(Seq<T::M>, JS)> decreases n {
    if n == 0 { Some((acc, s)) } else { match item::<T>(s) { None => None, Some((m, s2)) => parse_fix::<T>(s2, (n - 1) as nat, acc.push(m)) } }
}
pub open spec fn item<T: DeJson>(s: JS) -> Option<(T::M, JS)> { match T::parse(s) { None => None, Some((m, s1)) => match eat_sep(s1, arr_c()) { None => None, Some(s2) => Some((m, s2)) } } }
pub open spec fn parse_dur(s: JS, sec: Option<u64>, nan: Option<u32>) -> Option<(Option<u64>, Option<u32>, JS)> decreases mes(s) {
    if s.t == Tk::CurlyClose { Some((sec, nan, s)) } else {
        match String::parse(s) { None => None, Some((k, s1)) =>
            if k == "secs"@ { if sec is Some { None } else { match eat(s1, Tk::Colon) { None => None, Some(s2) => match u64::parse(s2) { None => None, Some((v, s3)) => match eat_curly(s3) { None => None, Some(s4) => if mes(s4) < mes(s) { parse_dur(s4, Some(v), nan) } else { None } } } } } }
            else if k == "nanos"@ { if nan is Some { None } else { match eat(s1, Tk::Colon) { None => None, Some(s2) => match u32::parse(s2) { None => None, Some((v, s3)) => match eat_curly(s3) { None => None, Some(s4) => if mes(s4) < mes(s) { parse_dur(s4, sec, Some(v)) } else { None } } } } } }
            else { None } }
    }
}

// ------------------------------------------------------------------ JSON: streams end, and advancing shortens them
pub open spec fn wfs(l: Seq<Tk>) -> bool { l.len() >= 1 && (l.last() == Tk::Eof || l.last() == Tk::Bad) }
pub broadcast proof fn lemma_wf_stream(q: Seq<char>) ensures wfs(#[trigger] stream(q)) decreases q.len() { reveal(stream); 
    lemma_lex(q);
    if let Some((t, r)) = lex(q) { if !(t == Tk::Eof || r.len() >= q.len()) { lemma_wf_stream(r); assert(stream(q).last() == stream(r).last()); } }
}
pub broadcast proof fn lemma_adv(l: Seq<Tk>) requires wfs(l) ensures #[trigger] adv(l) is Some ==> (wfs(adv(l)->0.r) && mes(adv(l)->0) <= l.len()) { if l[0] != Tk::Eof && l[0] != Tk::Bad { assert(l.skip(1).last() == l.last()); } }
pub proof fn lemma_mes_elems<T: DeJson>(s: JS, acc: Seq<T::M>) requires wfs(s.r) ensures parse_elems::<T>(s, acc) is Some ==> (wfs(se(parse_elems::<T>(s, acc)).r) && mes(se(parse_elems::<T>(s, acc))) <= mes(s)) decreases mes(s) { broadcast use {lemma_wf_stream, lemma_adv};
    if s.t != Tk::BlockClose { T::lemma_mes(s); if let Some((m, s1)) = T::parse(s) { if let Some(s2) = eat_block(s1) { if s2.t == Tk::BlockClose { } else if mes(s2) < mes(s) { lemma_mes_elems::<T>(s2, acc.push(m)); } } } }
}
pub proof fn lemma_mes_kvs<K: DeJson, V: DeJson>(s: JS, acc: Seq<(K::M, V::M)>) requires wfs(s.r) ensures parse_kvs::<K, V>(s, acc) is Some ==> (wfs(se(parse_kvs::<K, V>(s, acc)).r) && mes(se(parse_kvs::<K, V>(s, acc))) <= mes(s)) decreases mes(s) { broadcast use {lemma_wf_stream, lemma_adv};
    if s.t != Tk::CurlyClose { K::lemma_mes(s); if let Some((m, s1)) = K::parse(s) { if let Some(s2) = eat(s1, Tk::Colon) { V::lemma_mes(s2); if let Some((v, s3)) = V::parse(s2) { if let Some(s4) = eat_curly(s3) { if s4.t == Tk::CurlyClose { } else if mes(s4) < mes(s) { lemma_mes_kvs::<K, V>(s4, acc.push((m, v))); } } } } } }
}
pub proof fn lemma_mes_fix<T: DeJson>(s: JS, n: nat, acc: Seq<T::M>) requires wfs(s.r) ensures parse_fix::<T>(s, n, acc) is Some ==> (wfs(se(parse_fix::<T>(s, n, acc)).r) && mes(se(parse_fix::<T>(s, n, acc))) <= mes(s)) decreases n { broadcast use {lemma_wf_stream, lemma_adv};
    if n > 0 { T::lemma_mes(s); if let Some((m, s2)) = item::<T>(s) { lemma_mes_fix::<T>(s2, (n - 1) as nat, acc.push(m)); } }
}
//@if json
pub proof fn lemma_mes_nest(s: JS, d: int) requires wfs(s.r) ensures skip_nest(s, d) is Some ==> (wfs((skip_nest(s, d)->0).r) && mes(skip_nest(s, d)->0) <= mes(s)) decreases mes(s) { broadcast use {lemma_wf_stream, lemma_adv};
    if s.t != Tk::Eof { if let Some(s2) = adv(s.r) { if mes(s2) < mes(s) {
      let d2 = if s.t == Tk::BlockOpen || s.t == Tk::CurlyOpen { d + 1 } else if s.t == Tk::BlockClose || s.t == Tk::CurlyClose { d - 1 } else { d };
      lemma_mes_nest(s2, d2); } } }
}
//@end
pub proof fn lemma_mes_dur(s: JS, a: Option<u64>, b: Option<u32>) requires wfs(s.r) ensures parse_dur(s, a, b) is Some ==> (wfs((parse_dur(s, a, b)->0).2.r) && mes((parse_dur(s, a, b)->0).2) <= mes(s)) decreases mes(s) { broadcast use {lemma_wf_stream, lemma_adv};
    if s.t != Tk::CurlyClose { if let Some((k, s1)) = String::parse(s) {
        if let Some(s2) = eat(s1, Tk::Colon) {
            if let Some((v, s3)) = u64::parse(s2) { if let Some(s4) = eat_curly(s3) { if mes(s4) < mes(s) { lemma_mes_dur(s4, Some(v), b); } } }
            if let Some((v, s3)) = u32::parse(s2) { if let Some(s4) = eat_curly(s3) { if mes(s4) < mes(s) { lemma_mes_dur(s4, a, Some(v)); } } }
        } } }
}

// ------------------------------------------------------------------ how values are written
//@if json
/// whether the last entry of a map is followed by a comma, too
pub open spec fn mtr() -> bool { false }
/// one character of a string literal
pub open spec fn ec(c: char) -> Seq<char> {
    if c == '\x08' { seq!['\\', 'b'] } else if c == '\x0c' { seq!['\\', 'f'] } else if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] }
    else if c as u32 <= 0x1f || c as u32 == 0x7f { seq!['\\', 'u'] + hex4(c as int) } else if c == '\\' { seq!['\\', '\\'] } else if c == '"' { seq!['\\', '"'] } else { seq![c] }
}
//@if ron
/// whether the last entry of a map is followed by a comma, too
pub open spec fn mtr() -> bool { true }
/// one character of a string literal
pub open spec fn ec(c: char) -> Seq<char> {
    if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] } else if c == '\0' { seq!['\\', '0'] } else if c == '\\' { seq!['\\', '\\'] } else if c == '"' { seq!['\\', '"'] } else { seq![c] }
}
//@end
