// ================================================================== what the contracts imply
// ------------------------------------------------------------------ one token of text
pub open spec fn delim(q: Seq<char>) -> bool { !isdig(hd(q)) && !isid(hd(q)) && hd(q) != '.' }
pub proof fn lemma_one(a: Seq<char>, t: Tk, post: Seq<char>)
    requires lex(a + post) == Some((t, post)), t != Tk::Eof, a.len() > 0
    ensures stream(a + post) == seq![t] + stream(post)
{ reveal(stream); }
pub proof fn lemma_digs_all(d: Seq<char>, post: Seq<char>, acc: Seq<char>)
    requires forall|i: int| 0 <= i < d.len() ==> isdig(#[trigger] d[i]), !isdig(hd(post))
    ensures digs(d + post, acc) == (acc + d, post) decreases d.len()
{
    if d.len() > 0 {
        assert((d + post).skip(1) =~= d.skip(1) + post); assert(hd(d + post) == d[0]); assert(isdig(d[0]));
        assert forall|i: int| 0 <= i < d.skip(1).len() implies isdig(#[trigger] d.skip(1)[i]) by { assert(isdig(d[i + 1])); }
        lemma_digs_all(d.skip(1), post, acc.push(d[0]));
        assert(acc.push(d[0]) + d.skip(1) =~= acc + d);
    } else { assert(d + post =~= post); assert(acc + d =~= acc); }
}
pub proof fn lemma_idn_all(d: Seq<char>, post: Seq<char>, acc: Seq<char>)
    requires forall|i: int| 0 <= i < d.len() ==> iscont(#[trigger] d[i]), !iscont(hd(post))
    ensures idn(d + post, acc) == (acc + d, post) decreases d.len()
{
    if d.len() > 0 {
        assert((d + post).skip(1) =~= d.skip(1) + post); assert(hd(d + post) == d[0]); assert(iscont(d[0]));
        assert forall|i: int| 0 <= i < d.skip(1).len() implies iscont(#[trigger] d.skip(1)[i]) by { assert(iscont(d[i + 1])); }
        lemma_idn_all(d.skip(1), post, acc.push(d[0]));
        assert(acc.push(d[0]) + d.skip(1) =~= acc + d);
    } else { assert(d + post =~= post); assert(acc + d =~= acc); }
}
/// a decimal integer, whatever its magnitude, is one token with its exact value, or it is refused
#[verifier::rlimit(60)]
pub proof fn lemma_lex_int(d: Seq<char>, neg: bool, post: Seq<char>)
    requires alldig(d), delim(post)
    ensures ({ let text = if neg { seq!['-'] + d } else { d }; lex(text + post) ==
        if neg { if dval(d) <= 0x8000_0000_0000_0000 { Some((Tk::I64((-dval(d)) as i64, text), post)) } else { None } }
        else { if dval(d) <= u64::MAX { Some((Tk::U64(dval(d) as u64, text), post)) } else { None } } })
{
    reveal(lex); reveal(lex_num);
    let text = if neg { seq!['-'] + d } else { d };
    let q = text + post;
    assert(isdig(d[0]));
    assert(hd(q) == text[0]);
    assert(skip_gap(q) == Some(q));
    lemma_dval_pos(d);
    let s0 = sign(q).0;
    if neg { assert(q.skip(1) =~= d + post); assert(s0 =~= seq!['-']); } else { assert(s0 =~= seq![]); }
    lemma_digs_all(d, post, s0);
    assert(s0 + d =~= text);
    let i = digs(sign(q).1, s0);
    assert(i == (text, post));
    assert(frac(i) == i); assert(expo(i) == i);
    if neg { assert(text.skip(1) =~= d); assert(body_i(text) == d); assert(val_i(text) == -dval(d)); }
    else { assert(body_u(text) == d); }
}
//@if json
pub proof fn lemma_lex_word(w: Seq<char>, t: Tk, post: Seq<char>)
    requires delim(post), (w == "null"@ && t == Tk::Null) || (w == "true"@ && t == Tk::Bool(true)) || (w == "false"@ && t == Tk::Bool(false))
    ensures lex(w + post) == Some((t, post)), w.len() > 0, w.last() != '\0', stream(w + post) == seq![t] + stream(post)
{
    reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false");
    reveal(lex); reveal(lex_id);
    assert(hd(w + post) == w[0]);
    lemma_idn_all(w, post, seq![]);
    assert(Seq::<char>::empty() + w =~= w);
    lemma_one(w, t, post);
    if t == Tk::Bool(false) { assert("false"@[0] == 'f'); assert("true"@[0] == 't'); } 
    if t == Tk::Null { assert("null"@[0] == 'n'); assert("true"@[0] == 't'); assert("false"@[0] == 'f'); }
}
//@if ron
pub proof fn lemma_lex_word(w: Seq<char>, t: Tk, post: Seq<char>)
    requires delim(post), (w == "None"@ && t == Tk::Ident("None"@)) || (w == "true"@ && t == Tk::Bool(true)) || (w == "false"@ && t == Tk::Bool(false))
    ensures lex(w + post) == Some((t, post)), w.len() > 0, w.last() != '\0', stream(w + post) == seq![t] + stream(post)
{
    reveal_strlit("None"); reveal_strlit("true"); reveal_strlit("false");
    reveal(lex); reveal(lex_id);
    assert(hd(w + post) == w[0]);
    lemma_idn_all(w, post, seq![]);
    assert(Seq::<char>::empty() + w =~= w);
    if t == Tk::Bool(false) { assert("false"@[0] == 'f'); assert("true"@[0] == 't'); } 
    if t == Tk::Ident("None"@) { assert("None"@[0] == 'N'); assert("true"@[0] == 't'); assert("false"@[0] == 'f'); }
    lemma_one(w, t, post);
}
//@end
pub open spec fn punct(c: char) -> Tk { if c == ':' { Tk::Colon } else if c == ',' { Tk::Comma } else if c == '[' { Tk::BlockOpen } else if c == ']' { Tk::BlockClose } else if c == '{' { Tk::CurlyOpen } else if c == '}' { Tk::CurlyClose }
//@if ron
    else if c == '(' { Tk::ParenOpen } else if c == ')' { Tk::ParenClose }
//@end
    else { Tk::Bad } }
//@if json
pub open spec fn arr_oc() -> char { '[' }
pub open spec fn arr_cc() -> char { ']' }
//@if ron
pub open spec fn arr_oc() -> char { '(' }
pub open spec fn arr_cc() -> char { ')' }
//@end
pub proof fn lemma_punct(c: char, post: Seq<char>)
    requires punct(c) != Tk::Bad
    ensures stream(seq![c] + post) == seq![punct(c)] + stream(post), delim(seq![c] + post)
{ reveal(lex); assert((seq![c] + post).skip(1) =~= post); lemma_one(seq![c], punct(c), post); }

// ------------------------------------------------------------------ strings
//@if json
pub proof fn lemma_hex_arith(x: int) requires 0 <= x < 0x10000
    ensures ((((x / 4096 % 16) * 16) + x / 256 % 16) * 16 + x / 16 % 16) * 16 + x % 16 == x, 0 <= x / 4096 % 16 < 16, 0 <= x / 256 % 16 < 16, 0 <= x / 16 % 16 < 16, 0 <= x % 16 < 16
{
    let a = x / 16; let b = a / 16; let c = b / 16;
    assert(x / 16 / 16 == x / 256) by { vstd::arithmetic::div_mod::lemma_div_denominator(x, 16, 16); }
    assert(x / 256 / 16 == x / 4096) by { vstd::arithmetic::div_mod::lemma_div_denominator(x, 256, 16); }
    assert(x == a * 16 + x % 16); assert(a == b * 16 + a % 16); assert(b == c * 16 + b % 16); assert(c < 16);
}
pub proof fn lemma_hexd(d: int) requires 0 <= d < 16 ensures hexv(hexd(d)) == Some(d) {}
pub proof fn lemma_hex4(x: int, q: Seq<char>) requires 0 <= x < 0x10000 ensures hexn(hex4(x) + q, 4, 0) == Some((x, q)), hex4(x).len() == 4
{
    hide(hexn); hide(hexv); hide(hexd);
    lemma_hex_arith(x);
    lemma_hexd(x / 4096 % 16); lemma_hexd(x / 256 % 16); lemma_hexd(x / 16 % 16); lemma_hexd(x % 16);
    let h = hex4(x);
    assert(ishex(h)); assert(hex4of(h) == x);
    lemma_hexn4(h, q);
}
pub proof fn lemma_ec(c: char, q: Seq<char>, acc: Seq<char>) ensures lex_str(ec(c) + q, acc) == lex_str(q, acc.push(c)), ec(c).len() > 0
{
    let e = ec(c); let t = e + q;
    assert(hd(t) == e[0]);
    if c == '\x08' || c == '\x0c' || c == '\n' || c == '\r' || c == '\t' || c == '\\' || c == '"' {
        if !(c == '\\' || c == '"') || true {
            assert(t.skip(1) =~= seq![e[1]] + q); assert((seq![e[1]] + q).skip(1) =~= q);
            assert(tl(t) == seq![e[1]] + q); assert(hd(tl(t)) == e[1]);
        }
    } else if c as u32 <= 0x1f || c as u32 == 0x7f {
        let h = hex4(c as int);
        assert(t.skip(1) =~= seq!['u'] + h + q); assert((seq!['u'] + h + q).skip(1) =~= h + q);
        lemma_hex4(c as int, q);
        assert(hd(tl(t)) == 'u');
        assert(uesc(h + q) == Some((c, q)));
    } else { assert(t.skip(1) =~= q); }
}
//@if ron
pub proof fn lemma_ec(c: char, q: Seq<char>, acc: Seq<char>) ensures lex_str(ec(c) + q, acc) == lex_str(q, acc.push(c)), ec(c).len() > 0
{
    let e = ec(c); let t = e + q;
    assert(hd(t) == e[0]);
    if c == '\n' || c == '\r' || c == '\t' || c == '\0' || c == '\\' || c == '"' {
        assert(t.skip(1) =~= seq![e[1]] + q); assert((seq![e[1]] + q).skip(1) =~= q);
        assert(tl(t) == seq![e[1]] + q); assert(hd(tl(t)) == e[1]);
    } else { assert(t.skip(1) =~= q); }
}
//@end
pub proof fn lemma_esc(s: Seq<char>, q: Seq<char>, acc: Seq<char>) ensures lex_str(esc(s) + q, acc) == lex_str(q, acc + s) decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last(); let e = ec(s.last());
        assert(esc(s) + q =~= esc(p) + (e + q));
        lemma_esc(p, e + q, acc); lemma_ec(s.last(), q, acc + p);
        assert((acc + p).push(s.last()) =~= acc + s);
    } else { assert(esc(s) + q =~= q); assert(acc + s =~= acc); }
}
/// C05: a written string is one token, the same string, whatever follows
pub proof fn lemma_quoted(s: Seq<char>, post: Seq<char>)
    ensures lex(quoted(s) + post) == Some((Tk::Str(s), post)), stream(quoted(s) + post) == seq![Tk::Str(s)] + stream(post)
{
    reveal(lex);
    let t = quoted(s) + post;
    assert(hd(t) == '"'); assert(t.skip(1) =~= esc(s) + (seq!['"'] + post));
    lemma_esc(s, seq!['"'] + post, seq![]);
    assert(Seq::<char>::empty() + s =~= s);
    assert((seq!['"'] + post).skip(1) =~= post);
    lemma_one(quoted(s), Tk::Str(s), post);
}
//@if json
/// C05: inside the quotes there is no bare quote, no control character, and every backslash starts one of the escapes JSON defines
pub proof fn lemma_ec_safe(c: char)
    ensures forall|i: int| 0 <= i < ec(c).len() ==> !(#[trigger] ec(c)[i] as u32 <= 0x1f) && ec(c)[i] as u32 != 0x7f && (ec(c)[i] == '"' ==> i == 1 && ec(c)[0] == '\\') && (ec(c)[i] == '\\' ==> (i == 0 && ec(c).len() > 1) || (i == 1 && ec(c)[0] == '\\')),
      ec(c)[0] == '\\' ==> (ec(c)[1] == 'b' || ec(c)[1] == 'f' || ec(c)[1] == 'n' || ec(c)[1] == 'r' || ec(c)[1] == 't' || ec(c)[1] == '"' || ec(c)[1] == '\\' || (ec(c)[1] == 'u' && ec(c).len() == 6 && forall|i: int| 2 <= i < 6 ==> hexv(#[trigger] ec(c)[i]) is Some))
{
    if c as u32 <= 0x1f || c as u32 == 0x7f { let x = c as int; assert(x / 4096 % 16 == 0); assert(x / 256 % 16 == 0); assert(0 <= x / 16 % 16 < 16); assert(0 <= x % 16 < 16); }
}
//@end
/// C06: what an escape denotes
pub proof fn lemma_escapes(q: Seq<char>, acc: Seq<char>)
    ensures
        lex_str(seq!['\\', 'b'] + q, acc) == lex_str(q, acc.push('\x08')), lex_str(seq!['\\', 'f'] + q, acc) == lex_str(q, acc.push('\x0c')),
        lex_str(seq!['\\', 'n'] + q, acc) == lex_str(q, acc.push('\n')), lex_str(seq!['\\', 'r'] + q, acc) == lex_str(q, acc.push('\r')),
        lex_str(seq!['\\', 't'] + q, acc) == lex_str(q, acc.push('\t')), lex_str(seq!['\\', '"'] + q, acc) == lex_str(q, acc.push('"')),
        lex_str(seq!['\\', '\\'] + q, acc) == lex_str(q, acc.push('\\')), lex_str(seq!['\\', '/'] + q, acc) == lex_str(q, acc.push('/')),
{
    lemma_esc2('b', q, acc); lemma_esc2('f', q, acc); lemma_esc2('n', q, acc); lemma_esc2('r', q, acc); lemma_esc2('t', q, acc); lemma_esc2('"', q, acc); lemma_esc2('\\', q, acc); lemma_esc2('/', q, acc);
}
pub proof fn lemma_esc2(c: char, q: Seq<char>, acc: Seq<char>) requires c != 'u', c != '\0' ensures lex_str(seq!['\\', c] + q, acc) == lex_str(q, acc.push(unesc(c)))
{ let t = seq!['\\', c] + q; assert(t.skip(1) =~= seq![c] + q); assert((seq![c] + q).skip(1) =~= q); assert(hd(tl(t)) == c); }
/// C06: four hex digits (either case) denote that scalar value; a leading and a trailing surrogate the combined character; anything else is refused
pub open spec fn hex4of(h: Seq<char>) -> int { (((hexv(h[0])->0) * 16 + hexv(h[1])->0) * 16 + hexv(h[2])->0) * 16 + hexv(h[3])->0 }
pub open spec fn ishex(h: Seq<char>) -> bool { h.len() == 4 && hexv(h[0]) is Some && hexv(h[1]) is Some && hexv(h[2]) is Some && hexv(h[3]) is Some }
pub proof fn lemma_hexn4(h: Seq<char>, q: Seq<char>) requires h.len() == 4 ensures hexn(h + q, 4, 0) == (if ishex(h) { Some((hex4of(h), q)) } else { None })
{
    reveal_with_fuel(hexn, 5);
    assert((h + q).skip(1) =~= h.skip(1) + q); assert((h.skip(1) + q).skip(1) =~= h.skip(2) + q);
    assert((h.skip(2) + q).skip(1) =~= h.skip(3) + q); assert((h.skip(3) + q).skip(1) =~= q);
}
pub proof fn lemma_u_head(h: Seq<char>, q: Seq<char>, acc: Seq<char>) requires h.len() == 4
    ensures ({ let t = seq!['\\', 'u'] + h + q; hd(t) == '\\' && hd(tl(t)) == 'u' && tl(tl(t)) == h + q && t.len() == q.len() + 6 }),
      ishex(h) ==> 0 <= hex4of(h) < 0x10000 && hexn(h + q, 4, 0) == Some((hex4of(h), q)), !ishex(h) ==> hexn(h + q, 4, 0) is None
{
    let t = seq!['\\', 'u'] + h + q;
    assert(t.skip(1) =~= seq!['u'] + h + q); assert((seq!['u'] + h + q).skip(1) =~= h + q); assert(hd(t) == '\\'); assert(hd(tl(t)) == 'u');
    lemma_hexn4(h, q);
}
pub proof fn lemma_u1(h: Seq<char>, q: Seq<char>, acc: Seq<char>)
    requires h.len() == 4
    ensures
        ishex(h) && scalar(hex4of(h)) ==> lex_str(seq!['\\', 'u'] + h + q, acc) == lex_str(q, acc.push(hex4of(h) as char)),
        !ishex(h) ==> lex_str(seq!['\\', 'u'] + h + q, acc) is None,
        ishex(h) && 0xdc00 <= hex4of(h) < 0xe000 ==> lex_str(seq!['\\', 'u'] + h + q, acc) is None,
        ishex(h) && 0xd800 <= hex4of(h) < 0xdc00 && !(hd(q) == '\\' && hd(tl(q)) == 'u') ==> lex_str(seq!['\\', 'u'] + h + q, acc) is None
{ hide(hexn); hide(hex4of); hide(ishex); lemma_u_head(h, q, acc); }
pub proof fn lemma_u2(h: Seq<char>, g: Seq<char>, q: Seq<char>, acc: Seq<char>)
    requires h.len() == 4, g.len() == 4
    ensures
        ishex(h) && 0xd800 <= hex4of(h) < 0xdc00 ==> lex_str(seq!['\\', 'u'] + h + (seq!['\\', 'u'] + g + q), acc) ==
            (if ishex(g) && 0xdc00 <= hex4of(g) < 0xe000 { lex_str(q, acc.push((0x10000 + (hex4of(h) - 0xd800) * 0x400 + (hex4of(g) - 0xdc00)) as char)) } else { None })
{ hide(hexn); hide(hex4of); hide(ishex); lemma_u_head(h, seq!['\\', 'u'] + g + q, acc); lemma_u_head(g, q, acc); }
pub proof fn lemma_u(h: Seq<char>, g: Seq<char>, q: Seq<char>, acc: Seq<char>)
    requires h.len() == 4, g.len() == 4
    ensures
        ishex(h) && scalar(hex4of(h)) ==> lex_str(seq!['\\', 'u'] + h + q, acc) == lex_str(q, acc.push(hex4of(h) as char)),
        !ishex(h) ==> lex_str(seq!['\\', 'u'] + h + q, acc) is None,
        ishex(h) && 0xdc00 <= hex4of(h) < 0xe000 ==> lex_str(seq!['\\', 'u'] + h + q, acc) is None,
        ishex(h) && 0xd800 <= hex4of(h) < 0xdc00 && !(hd(q) == '\\' && hd(tl(q)) == 'u') ==> lex_str(seq!['\\', 'u'] + h + q, acc) is None,
        ishex(h) && 0xd800 <= hex4of(h) < 0xdc00 ==> lex_str(seq!['\\', 'u'] + h + (seq!['\\', 'u'] + g + q), acc) ==
            (if ishex(g) && 0xdc00 <= hex4of(g) < 0xe000 { lex_str(q, acc.push((0x10000 + (hex4of(h) - 0xd800) * 0x400 + (hex4of(g) - 0xdc00)) as char)) } else { None })
{ hide(hexn); hide(hex4of); hide(ishex); hide(lex_str); lemma_u1(h, q, acc); lemma_u2(h, g, q, acc); }
/// C06: a literal with no closing quote is refused
pub proof fn lemma_unclosed(q: Seq<char>, acc: Seq<char>) requires forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] != '"' ensures lex_str(q, acc) is None decreases q.len()
{
    if hd(q) == '\\' {
        let r = tl(q);
        if hd(r) == '\0' { } else if hd(r) == 'u' {
            lemma_uesc(tl(r));
            lemma_uesc_suffix(tl(r));
            if let Some((c, r2)) = uesc(tl(r)) {
                assert forall|i: int| 0 <= i < r2.len() implies #[trigger] r2[i] != '"' by { let k = q.len() - r2.len(); assert(r2 == q.skip(k)) by { let m = tl(r).len() - r2.len(); assert(tl(r).skip(m) =~= q.skip(k)); } assert(r2[i] == q[i + k]); }
                lemma_unclosed(r2, acc.push(c));
            }
        } else {
            assert forall|i: int| 0 <= i < tl(r).len() implies #[trigger] tl(r)[i] != '"' by { assert(tl(r)[i] == q[i + 2]); }
            lemma_unclosed(tl(r), acc.push(unesc(hd(r)))); }
    } else if hd(q) == '\0' { } else {
        assert forall|i: int| 0 <= i < tl(q).len() implies #[trigger] tl(q)[i] != '"' by { assert(tl(q)[i] == q[i + 1]); }
        lemma_unclosed(tl(q), acc.push(hd(q))); }
}
pub proof fn lemma_hexn_suffix(q: Seq<char>, k: int, acc: int) requires k >= 0 ensures hexn(q, k, acc) is Some ==> q.len() >= k && (hexn(q, k, acc)->0).1 == q.skip(k) decreases k
{ if k > 0 { if let Some(v) = hexv(hd(q)) { lemma_hexn_suffix(tl(q), k - 1, acc * 16 + v); if let Some((x, r)) = hexn(tl(q), k - 1, acc * 16 + v) { assert(q.len() > 0); assert(tl(q).skip(k - 1) =~= q.skip(k)); } } } else { assert(q.skip(0) =~= q); } }
pub proof fn lemma_uesc_suffix(q: Seq<char>) ensures uesc(q) is Some ==> (uesc(q)->0).1.len() < q.len() && (uesc(q)->0).1 == q.skip(q.len() - (uesc(q)->0).1.len())
{
    lemma_hexn_suffix(q, 4, 0);
    if let Some((a, r)) = hexn(q, 4, 0) { lemma_hexn_suffix(tl(tl(r)), 4, 0); if let Some((b, r2)) = hexn(tl(tl(r)), 4, 0) { if hd(r) == '\\' && hd(tl(r)) == 'u' { assert(r2 =~= q.skip(10)); } } }
}

// ------------------------------------------------------------------ C10: gaps
/// white space and comments: line comments up to their newline, block comments up to the first */
pub open spec fn isgap(g: Seq<char>) -> bool decreases g.len() {
    if g.len() == 0 { true }
    else if isws(g[0]) { isgap(tl(g)) }
    else if g[0] == '/' && g.len() >= 2 && g[1] == '/' { lend(tl(g)).len() < g.len() && hd(lend(tl(g))) == '\n' && isgap(lend(tl(g))) }
    else if g[0] == '/' && g.len() >= 2 && g[1] == '*' { match cend(tl(tl(g)), '\0') { None => false, Some(r) => r.len() < g.len() && isgap(r) } }
    else { false }
}
pub proof fn lemma_lend_app(x: Seq<char>, q: Seq<char>) requires hd(lend(x)) == '\n' ensures lend(x + q) == lend(x) + q decreases x.len()
{ if x.len() == 0 { } else if x[0] == '\n' || x[0] == '\0' { } else { assert((x + q).skip(1) =~= x.skip(1) + q); lemma_lend_app(tl(x), q); } }
pub proof fn lemma_cend_app(x: Seq<char>, l: char, q: Seq<char>) requires cend(x, l) is Some ensures cend(x + q, l) == Some(cend(x, l)->0 + q) decreases x.len()
{ if x.len() > 0 { assert((x + q).skip(1) =~= x.skip(1) + q); if x[0] == '\0' || (l == '*' && x[0] == '/') { } else { lemma_cend_app(tl(x), x[0], q); } } }
pub proof fn lemma_gap(g: Seq<char>, q: Seq<char>) requires isgap(g) ensures skip_gap(g + q) == skip_gap(q), lex(g + q) == lex(q), stream(g + q) == stream(q) decreases g.len()
{
    reveal(lex); reveal(stream);
    if g.len() == 0 { assert(g + q =~= q); }
    else {
        let t = g + q; assert(t[0] == g[0]); assert(t.skip(1) =~= g.skip(1) + q);
        if isws(g[0]) { lemma_gap(tl(g), q); }
        else if g[1] == '/' { assert(hd(tl(t)) == '/'); lemma_lend_app(tl(g), q); lemma_gap(lend(tl(g)), q); }
        else { assert(hd(tl(t)) == '*'); assert(t.skip(1).skip(1) =~= g.skip(1).skip(1) + q); lemma_cend_app(tl(tl(g)), '\0', q); lemma_gap(cend(tl(tl(g)), '\0')->0, q); }
        lemma_lex(q); lemma_lex(t);
    }
}
/// an unterminated block comment is an error
pub proof fn lemma_open_comment(q: Seq<char>) requires cend(q, '\0') is None ensures lex(seq!['/', '*'] + q) is None
{ reveal(lex); let t = seq!['/', '*'] + q; assert(t.skip(1) =~= seq!['*'] + q); assert((seq!['*'] + q).skip(1) =~= q); assert(hd(tl(t)) == '*'); assert(skip_gap(t) is None); }

// ------------------------------------------------------------------ values read back
pub proof fn lemma_mk(t: Tk, x: Seq<Tk>) requires t != Tk::Eof ensures mk(seq![t] + x) == (JS { t: t, r: x }) { assert((seq![t] + x).skip(1) =~= x); }
pub proof fn lemma_wfs_cat(a: Seq<Tk>, b: Seq<Tk>) requires wfs(b) ensures wfs(a + b) { assert((a + b).last() == b.last()); }
pub trait RtJson: SerJson + DeJson {
    /// the tokens of the written text
    spec fn toks(&self) -> Seq<Tk>;
    /// values that are meant to read back: finite floats, options of something not written as null
    spec fn rtok(&self) -> bool;
    proof fn lemma_toks(&self) requires self.rtok()
        ensures self.toks().len() >= 1, self.toks()[0] != Tk::Eof, self.toks()[0] != Tk::Bad, !(self.toks()[0] is BlockClose), !(self.toks()[0] is CurlyClose), self.toks()[0] != arr_c(), self.js().len() > 0, self.js().last() != '\0';
    proof fn lemma_lexes(&self, post: Seq<char>) requires self.rtok(), delim(post) ensures stream(self.js() + post) == self.toks() + stream(post);
    proof fn lemma_parses(&self, rest: Seq<Tk>) requires self.rtok(), wfs(rest), rest[0] != Tk::Bad ensures Self::parse(mk(self.toks() + rest)) == Some((self.model(), mk(rest)));
}
/// C05 C07 C09 C21: the written text, alone, reads back as an equal value
pub proof fn lemma_roundtrip<T: RtJson>(x: T)
    requires x.rtok()
    ensures adv(stream(norm(x.js()))) is Some, T::parse(adv(stream(norm(x.js())))->0) == Some((x.model(), mk(seq![Tk::Eof])))
{
    reveal(lex); reveal(stream);
    x.lemma_toks();
    let e = Seq::<char>::empty();
    assert(norm(x.js()) == x.js()); assert(x.js() + e =~= x.js());
    assert(skip_gap(e) == Some(e)); assert(lex1(e) == Some((Tk::Eof, e)));
    assert(stream(e) =~= seq![Tk::Eof]);
    x.lemma_lexes(e);
    x.lemma_parses(seq![Tk::Eof]);
    assert((x.toks() + seq![Tk::Eof])[0] == x.toks()[0]);
}
pub proof fn lemma_assoc<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
/// one element of a list, its separator if it is not the last
pub proof fn lemma_item1<T: RtJson>(x: T, nx: Seq<Tk>, last: bool)
    requires x.rtok(), wfs(nx), nx[0] != Tk::Bad, last ==> nx[0] == arr_c()
    ensures ({ let y = x.toks() + (if last { nx } else { seq![Tk::Comma] + nx }); item::<T>(mk(y)) == Some((x.model(), mk(nx))) && wfs(y) && y[0] == x.toks()[0] && y[0] != Tk::Bad })
{
    let after = if last { nx } else { seq![Tk::Comma] + nx };
    x.lemma_toks(); lemma_wfs_cat(seq![Tk::Comma], nx); lemma_mk(Tk::Comma, nx); lemma_wfs_cat(x.toks(), after);
    x.lemma_parses(after);
    assert((x.toks() + after)[0] == x.toks()[0]);
}
pub open spec fn allrt<T: RtJson>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].rtok() }
pub open spec fn tlist<T: RtJson>(s: Seq<T>, k: int, tr: bool) -> Seq<Tk> decreases s.len() - k { if k < 0 || k >= s.len() { seq![] } else { s[k].toks() + (if tr || k + 1 < s.len() { seq![Tk::Comma] } else { seq![] }) + tlist(s, k + 1, tr) } }
pub proof fn lemma_list_lex<T: RtJson>(s: Seq<T>, k: int, tr: bool, c: char, post: Seq<char>)
    requires allrt(s), 0 <= k <= s.len(), punct(c) != Tk::Bad ensures stream(jl(s, k, tr) + (seq![c] + post)) == tlist(s, k, tr) + (seq![punct(c)] + stream(post)) decreases s.len() - k
{
    let tail = seq![c] + post; let ttail = seq![punct(c)] + stream(post);
    lemma_punct(c, post);
    if k < s.len() {
        lemma_list_lex(s, k + 1, tr, c, post);
        assert(s[k].rtok());
        if tr || k + 1 < s.len() {
            let after = seq![','] + (jl(s, k + 1, tr) + tail);
            lemma_punct(',', jl(s, k + 1, tr) + tail);
            s[k].lemma_lexes(after);
            assert(jl(s, k, tr) + tail =~= s[k].js() + after);
            assert(tlist(s, k, tr) + ttail =~= s[k].toks() + (seq![Tk::Comma] + (tlist(s, k + 1, tr) + ttail)));
        } else {
            s[k].lemma_lexes(tail);
            assert(jl(s, k + 1, tr) =~= seq![]); assert(tlist(s, k + 1, tr) =~= seq![]);
            assert(jl(s, k, tr) + tail =~= s[k].js() + tail);
            assert(tlist(s, k, tr) + ttail =~= s[k].toks() + ttail);
        }
    } else { assert(jl(s, k, tr) + tail =~= tail); assert(tlist(s, k, tr) + ttail =~= ttail); }
}
/// one element and its separator
pub proof fn lemma_item<T: RtJson>(s: Seq<T>, k: int, tr: bool, c: Tk, rest: Seq<Tk>)
    requires allrt(s), 0 <= k < s.len(), wfs(rest), rest[0] != Tk::Bad, c is BlockClose || c == arr_c()
    ensures ({ let a = mk(tlist(s, k, tr) + (seq![c] + rest)); let b = mk(tlist(s, k + 1, tr) + (seq![c] + rest));
        T::parse(a) is Some && (T::parse(a)->0).0 == s[k].model() && eat_sep((T::parse(a)->0).1, c) == Some(b) && mes(b) < mes(a) && (b.t == c <==> k + 1 == s.len()) && a.t != c })
{
    let tail = seq![c] + rest;
    assert(s[k].rtok());
    s[k].lemma_toks();
    lemma_wfs_cat(seq![c], rest);
    lemma_wfs_cat(tlist(s, k + 1, tr), tail);
    let nx = tlist(s, k + 1, tr) + tail;
    lemma_mk(c, rest);
    if k + 1 < s.len() { assert(s[k + 1].rtok()); s[k + 1].lemma_toks(); assert(nx[0] == s[k + 1].toks()[0]); } else { assert(nx =~= tail); }
    if tr || k + 1 < s.len() {
        let after = seq![Tk::Comma] + nx;
        lemma_wfs_cat(seq![Tk::Comma], nx);
        s[k].lemma_parses(after);
        assert(tlist(s, k, tr) + tail =~= s[k].toks() + after);
        lemma_mk(Tk::Comma, nx);
        assert((s[k].toks() + after)[0] == s[k].toks()[0]);
    } else {
        s[k].lemma_parses(tail);
        assert(tlist(s, k, tr) + tail =~= s[k].toks() + tail);
        assert((s[k].toks() + tail)[0] == s[k].toks()[0]);
    }
}
pub proof fn lemma_list_parse<T: RtJson>(s: Seq<T>, k: int, tr: bool, acc: Seq<T::M>, rest: Seq<Tk>)
    requires allrt(s), 0 <= k <= s.len(), wfs(rest), rest[0] != Tk::Bad
    ensures parse_elems::<T>(mk(tlist(s, k, tr) + (seq![Tk::BlockClose] + rest)), acc) == Some((acc + models(s.skip(k)), mk(seq![Tk::BlockClose] + rest))) decreases s.len() - k
{
    let tail = seq![Tk::BlockClose] + rest;
    lemma_mk(Tk::BlockClose, rest);
    if k < s.len() {
        lemma_item(s, k, tr, Tk::BlockClose, rest);
        let acc2 = acc.push(s[k].model());
        lemma_list_parse(s, k + 1, tr, acc2, rest);
        assert(acc2 + models(s.skip(k + 1)) =~= acc + models(s.skip(k)));
        if k + 1 == s.len() { assert(tlist(s, k + 1, tr) + tail =~= tail); assert(models(s.skip(k + 1)) =~= Seq::empty()); }
    } else { assert(tlist(s, k, tr) + tail =~= tail); assert(acc + models(s.skip(k)) =~= acc); }
}
pub proof fn lemma_fix_parse<T: RtJson>(s: Seq<T>, k: int, acc: Seq<T::M>, rest: Seq<Tk>)
    requires allrt(s), 0 <= k <= s.len(), wfs(rest), rest[0] != Tk::Bad
    ensures parse_fix::<T>(mk(tlist(s, k, false) + (seq![arr_c()] + rest)), (s.len() - k) as nat, acc) == Some((acc + models(s.skip(k)), mk(seq![arr_c()] + rest))) decreases s.len() - k
{
    let tail = seq![arr_c()] + rest;
    if k < s.len() {
        lemma_item(s, k, false, arr_c(), rest);
        let acc2 = acc.push(s[k].model());
        lemma_fix_parse(s, k + 1, acc2, rest);
        assert(acc2 + models(s.skip(k + 1)) =~= acc + models(s.skip(k)));
    } else { assert(tlist(s, k, false) + tail =~= tail); assert(acc + models(s.skip(k)) =~= acc); }
}
pub open spec fn list_toks<T: RtJson>(o: Tk, s: Seq<T>, tr: bool, c: Tk) -> Seq<Tk> { seq![o] + tlist(s, 0, tr) + seq![c] }
pub proof fn lemma_list<T: RtJson>(o: char, s: Seq<T>, tr: bool, c: char, post: Seq<char>)
    requires allrt(s), punct(o) != Tk::Bad, punct(c) != Tk::Bad ensures stream(list_text(o, s, tr, c) + post) == list_toks(punct(o), s, tr, punct(c)) + stream(post)
{
    lemma_list_lex(s, 0, tr, c, post);
    lemma_punct(o, jl(s, 0, tr) + (seq![c] + post));
    assert(list_text(o, s, tr, c) + post =~= seq![o] + (jl(s, 0, tr) + (seq![c] + post)));
    assert(list_toks(punct(o), s, tr, punct(c)) + stream(post) =~= seq![punct(o)] + (tlist(s, 0, tr) + (seq![punct(c)] + stream(post))));
}
pub proof fn lemma_list_open<T: RtJson>(o: Tk, s: Seq<T>, tr: bool, c: Tk, rest: Seq<Tk>)
    requires allrt(s), wfs(rest), rest[0] != Tk::Bad, c is BlockClose || c == arr_c(), o is BlockOpen || o == arr_o()
    ensures eat(mk(list_toks(o, s, tr, c) + rest), o) == Some(mk(tlist(s, 0, tr) + (seq![c] + rest))), eat(mk(seq![c] + rest), c) == Some(mk(rest))
{
    let x = tlist(s, 0, tr) + (seq![c] + rest);
    assert(list_toks(o, s, tr, c) + rest =~= seq![o] + x);
    lemma_mk(o, x); lemma_mk(c, rest);
    if s.len() > 0 { assert(s[0].rtok()); s[0].lemma_toks(); assert(x[0] == s[0].toks()[0]); } else { assert(x[0] == c); }
}
pub proof fn lemma_list_rt<T: RtJson>(s: Seq<T>, tr: bool, rest: Seq<Tk>)
    requires allrt(s), wfs(rest), rest[0] != Tk::Bad
    ensures parse_list::<T>(mk(list_toks(Tk::BlockOpen, s, tr, Tk::BlockClose) + rest)) == Some((models(s), mk(rest)))
{
    lemma_list_open(Tk::BlockOpen, s, tr, Tk::BlockClose, rest);
    lemma_list_parse(s, 0, tr, Seq::empty(), rest);
    assert(Seq::empty() + models(s.skip(0)) =~= models(s));
}
// maps
pub open spec fn kvrt<K: RtJson, V: RtJson>(s: Seq<(K, V)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.rtok() && s[i].1.rtok() }
pub open spec fn tmap<K: RtJson, V: RtJson>(s: Seq<(K, V)>, k: int, tr: bool) -> Seq<Tk> decreases s.len() - k { if k < 0 || k >= s.len() { seq![] } else { s[k].0.toks() + seq![Tk::Colon] + s[k].1.toks() + (if tr || k + 1 < s.len() { seq![Tk::Comma] } else { seq![] }) + tmap(s, k + 1, tr) } }
pub open spec fn map_toks<K: RtJson, V: RtJson>(s: Seq<(K, V)>, tr: bool) -> Seq<Tk> { seq![Tk::CurlyOpen] + tmap(s, 0, tr) + seq![Tk::CurlyClose] }
pub proof fn lemma_map_lex<K: RtJson, V: RtJson>(s: Seq<(K, V)>, k: int, tr: bool, post: Seq<char>)
    requires kvrt(s), 0 <= k <= s.len() ensures stream(jm(s, k, tr) + (seq!['}'] + post)) == tmap(s, k, tr) + (seq![Tk::CurlyClose] + stream(post)) decreases s.len() - k
{
    let tail = seq!['}'] + post; let ttail = seq![Tk::CurlyClose] + stream(post);
    lemma_punct('}', post);
    if k < s.len() {
        lemma_map_lex(s, k + 1, tr, post);
        assert(s[k].0.rtok() && s[k].1.rtok());
        let nx = jm(s, k + 1, tr) + tail; let tnx = tmap(s, k + 1, tr) + ttail;
        let after = if tr || k + 1 < s.len() { seq![','] + nx } else { tail };
        let tafter = if tr || k + 1 < s.len() { seq![Tk::Comma] + tnx } else { ttail };
        lemma_punct(',', nx);
        if k + 1 >= s.len() { assert(nx =~= tail); assert(tnx =~= ttail); }
        s[k].1.lemma_lexes(after);
        let mid = s[k].1.js() + after;
        lemma_punct(':', mid);
        s[k].0.lemma_lexes(seq![':'] + mid);
        assert(jm(s, k, tr) + tail =~= s[k].0.js() + (seq![':'] + mid));
        assert(tmap(s, k, tr) + ttail =~= s[k].0.toks() + (seq![Tk::Colon] + (s[k].1.toks() + tafter)));
    } else { assert(jm(s, k, tr) + tail =~= tail); assert(tmap(s, k, tr) + ttail =~= ttail); }
}
/// one entry and its separator
pub proof fn lemma_kv1<K: RtJson, V: RtJson>(kk: K, v: V, nx: Seq<Tk>, sep: bool)
    requires kk.rtok(), v.rtok(), wfs(nx), nx[0] != Tk::Bad, !sep ==> nx[0] is CurlyClose
    ensures ({ let after = if sep { seq![Tk::Comma] + nx } else { nx }; let mid = v.toks() + after; let m2 = seq![Tk::Colon] + mid; let y = kk.toks() + m2;
        K::parse(mk(y)) == Some((kk.model(), mk(m2))) && eat(mk(m2), Tk::Colon) == Some(mk(mid)) && V::parse(mk(mid)) == Some((v.model(), mk(after))) && eat_curly(mk(after)) == Some(mk(nx))
        && mes(mk(nx)) < mes(mk(y)) && !(mk(y).t is CurlyClose) && y[0] != Tk::Bad && wfs(y) })
{
    let after = if sep { seq![Tk::Comma] + nx } else { nx };
    kk.lemma_toks(); v.lemma_toks();
    lemma_mk(Tk::Comma, nx); lemma_wfs_cat(seq![Tk::Comma], nx);
    let mid = v.toks() + after;
    lemma_wfs_cat(v.toks(), after);
    v.lemma_parses(after);
    let m2 = seq![Tk::Colon] + mid;
    lemma_wfs_cat(seq![Tk::Colon], mid); lemma_mk(Tk::Colon, mid);
    assert(mid[0] == v.toks()[0]);
    kk.lemma_parses(m2);
    lemma_wfs_cat(kk.toks(), m2);
    assert((kk.toks() + m2)[0] == kk.toks()[0]);
    lemma_adv(nx);
}
pub proof fn lemma_map_parse<K: RtJson, V: RtJson>(s: Seq<(K, V)>, k: int, tr: bool, acc: Seq<(K::M, V::M)>, rest: Seq<Tk>)
    requires kvrt(s), 0 <= k <= s.len(), wfs(rest), rest[0] != Tk::Bad
    ensures parse_kvs::<K, V>(mk(tmap(s, k, tr) + (seq![Tk::CurlyClose] + rest)), acc) == Some((acc + kvmodels(s.skip(k)), mk(seq![Tk::CurlyClose] + rest))),
      wfs(tmap(s, k, tr) + (seq![Tk::CurlyClose] + rest)), (tmap(s, k, tr) + (seq![Tk::CurlyClose] + rest))[0] != Tk::Bad, k < s.len() ==> !((tmap(s, k, tr) + (seq![Tk::CurlyClose] + rest))[0] is CurlyClose) decreases s.len() - k
{
    let tail = seq![Tk::CurlyClose] + rest;
    lemma_mk(Tk::CurlyClose, rest);
    lemma_wfs_cat(seq![Tk::CurlyClose], rest);
    let nx = tmap(s, k + 1, tr) + tail;
    if k < s.len() {
        let kk = s[k].0; let v = s[k].1;
        assert(kk.rtok() && v.rtok());
        let acc2 = acc.push((kk.model(), v.model()));
        lemma_map_parse(s, k + 1, tr, acc2, rest);
        assert(acc2 + kvmodels(s.skip(k + 1)) =~= acc + kvmodels(s.skip(k)));
        let sep = tr || k + 1 < s.len();
        let after = if sep { seq![Tk::Comma] + nx } else { nx };
        if k + 1 >= s.len() { assert(nx =~= tail); }
        lemma_kv1(kk, v, nx, sep);
        assert(tmap(s, k, tr) + tail =~= kk.toks() + (seq![Tk::Colon] + (v.toks() + after)));
        if k + 1 < s.len() { assert(!(nx[0] is CurlyClose)); assert(mk(nx).t == nx[0]); }
        else { assert(mk(nx).t is CurlyClose); assert(kvmodels(s.skip(k + 1)) =~= Seq::empty()); assert(acc2 + Seq::empty() =~= acc2); }
    } else { assert(tmap(s, k, tr) + tail =~= tail); assert(acc + kvmodels(s.skip(k)) =~= acc); }
}
pub proof fn lemma_map<K: RtJson, V: RtJson>(s: Seq<(K, V)>, tr: bool, post: Seq<char>)
    requires kvrt(s) ensures stream(map_text(s, tr) + post) == map_toks(s, tr) + stream(post)
{
    lemma_map_lex(s, 0, tr, post);
    lemma_punct('{', jm(s, 0, tr) + (seq!['}'] + post));
    assert(map_text(s, tr) + post =~= seq!['{'] + (jm(s, 0, tr) + (seq!['}'] + post)));
    assert(map_toks(s, tr) + stream(post) =~= seq![Tk::CurlyOpen] + (tmap(s, 0, tr) + (seq![Tk::CurlyClose] + stream(post))));
}
pub proof fn lemma_map_rt<K: RtJson, V: RtJson>(s: Seq<(K, V)>, tr: bool, rest: Seq<Tk>)
    requires kvrt(s), wfs(rest), rest[0] != Tk::Bad
    ensures parse_map::<K, V>(mk(map_toks(s, tr) + rest)) == Some((kvmodels(s), mk(rest)))
{
    let x = tmap(s, 0, tr) + (seq![Tk::CurlyClose] + rest);
    assert(map_toks(s, tr) + rest =~= seq![Tk::CurlyOpen] + x);
    lemma_mk(Tk::CurlyOpen, x); lemma_mk(Tk::CurlyClose, rest);
    if s.len() > 0 { assert(s[0].0.rtok()); s[0].0.lemma_toks(); assert(x[0] == s[0].0.toks()[0]); } else { assert(x[0] == Tk::CurlyClose); }
    lemma_map_parse(s, 0, tr, Seq::empty(), rest);
    assert(Seq::empty() + kvmodels(s.skip(0)) =~= kvmodels(s));
}
// floats: what the standard library prints (and reads back)
pub struct FT { pub neg: bool, pub i: Seq<char>, pub f: Seq<char>, pub eneg: bool, pub e: Seq<char> }
pub open spec fn ft_ok(x: FT) -> bool { alldig(x.i) && (x.f.len() > 0 || x.e.len() > 0) && (x.f.len() > 0 ==> alldig(x.f)) && (x.e.len() > 0 ==> alldig(x.e)) }
pub open spec fn ft_text(x: FT) -> Seq<char> {
    (if x.neg { seq!['-'] } else { seq![] }) + x.i + (if x.f.len() > 0 { seq!['.'] + x.f } else { seq![] }) + (if x.e.len() > 0 { seq!['e'] + (if x.eneg { seq!['-'] } else { seq![] }) + x.e } else { seq![] })
}
pub uninterp spec fn ft64(f: f64) -> FT;
pub uninterp spec fn ft32(f: f32) -> FT;
pub open spec fn finite64(f: f64) -> bool { bits64(f) / 0x10_0000_0000_0000 % 0x800 != 0x7ff }
pub open spec fn finite32(f: f32) -> bool { bits32(f) / 0x80_0000 % 0x100 != 0xff }
#[verifier::external_body] pub proof fn ax_fmt64(f: f64) ensures finite64(f) ==> (fmt64(f) == ft_text(ft64(f)) && ft_ok(ft64(f)) && pf64(fmt64(f)) is Some && bits64(pf64(fmt64(f))->0) == bits64(f)) {}
#[verifier::external_body] pub proof fn ax_fmt32(f: f32) ensures finite32(f) ==> (fmt32(f) == ft_text(ft32(f)) && ft_ok(ft32(f)) && pf32(fmt32(f)) is Some && bits32(pf32(fmt32(f))->0) == bits32(f)) {}
pub open spec fn ft_sg(x: FT) -> Seq<char> { if x.neg { seq!['-'] } else { seq![] } }
pub open spec fn ft_fr(x: FT) -> Seq<char> { if x.f.len() > 0 { seq!['.'] + x.f } else { seq![] } }
pub open spec fn ft_ex(x: FT) -> Seq<char> { if x.e.len() > 0 { seq!['e'] + (if x.eneg { seq!['-'] } else { seq![] }) + x.e } else { seq![] } }
pub proof fn lemma_ft_ex(x: FT, a: Seq<char>, post: Seq<char>)
    requires ft_ok(x), delim(post)
    ensures expo((a, ft_ex(x) + post)) == (a + ft_ex(x), post), !isdig(hd(ft_ex(x) + post)), x.e.len() == 0 ==> ft_ex(x) + post == post, x.e.len() > 0 ==> hd(ft_ex(x) + post) == 'e', hd(ft_ex(x) + post) != '.'
{
    let es: Seq<char> = if x.eneg { seq!['-'] } else { seq![] };
    let r = ft_ex(x) + post;
    if x.e.len() > 0 {
        let w = es + (x.e + post);
        assert(r =~= seq!['e'] + w); assert(hd(r) == 'e'); assert(isdig(x.e[0])); assert(r.skip(1) =~= w);
        if x.eneg { assert(hd(w) == '-'); assert(w.skip(1) =~= x.e + post); lemma_digs_all(x.e, post, a.push('e').push('-')); assert(a.push('e').push('-') + x.e =~= a + ft_ex(x)); }
        else { assert(w =~= x.e + post); assert(hd(w) == x.e[0]); lemma_digs_all(x.e, post, a.push('e')); assert(a.push('e') + x.e =~= a + ft_ex(x)); }
    } else { assert(r =~= post); assert(a + ft_ex(x) =~= a); }
}
pub proof fn lemma_ft_fr(x: FT, a: Seq<char>, r: Seq<char>)
    requires ft_ok(x), !isdig(hd(r)), hd(r) != '.'
    ensures frac((a, ft_fr(x) + r)) == (a + ft_fr(x), r), !isdig(hd(ft_fr(x) + r))
{
    let w = ft_fr(x) + r;
    if x.f.len() > 0 { assert(w =~= seq!['.'] + (x.f + r)); assert(hd(w) == '.'); assert(w.skip(1) =~= x.f + r); lemma_digs_all(x.f, r, a.push('.')); assert(a.push('.') + x.f =~= a + ft_fr(x)); }
    else { assert(w =~= r); assert(a + ft_fr(x) =~= a); }
}
pub proof fn lemma_ft_lex(x: FT, post: Seq<char>)
    requires ft_ok(x), delim(post), pf64(ft_text(x)) is Some
    ensures ft_text(x).len() > 0, ft_text(x).last() != '\0', lex(ft_text(x) + post) == Some((Tk::F64(pf64(ft_text(x))->0, ft_text(x)), post)), stream(ft_text(x) + post) == seq![Tk::F64(pf64(ft_text(x))->0, ft_text(x))] + stream(post)
{
    let t = ft_text(x); let q = t + post;
    let sg = ft_sg(x); let fr = ft_fr(x); let ex = ft_ex(x);
    let r2 = ex + post; let r1 = fr + r2; let r0 = x.i + r1; let a1 = sg + x.i; let a2 = a1 + fr;
    assert(isdig(x.i[0]));
    lemma_assoc(a2, ex, post); lemma_assoc(a1, fr, r2); lemma_assoc(sg, x.i, r1);
    assert(q == sg + r0);
    lemma_ft_ex(x, a2, post); lemma_ft_fr(x, a1, r2); lemma_digs_all(x.i, r1, sg);
    assert(r0[0] == x.i[0]); assert(hd(r0) == x.i[0]);
    assert(sign(q) == (sg, r0)) by { if x.neg { assert(hd(q) == '-'); assert(q.skip(1) =~= r0); } else { assert(q =~= r0); } }
    assert(hd(q) == '-' || isdig(hd(q))) by { if x.neg { assert(q[0] == '-'); } else { assert(q =~= r0); } }
    assert(digs(sign(q).1, sign(q).0) == (a1, r1));
    lemma_ft_last(x);
    lemma_ft_one(x, q, post);
    lemma_one(t, Tk::F64(pf64(t)->0, t), post);
}
pub proof fn lemma_ft_one(x: FT, q: Seq<char>, post: Seq<char>)
    requires ({ let a1 = ft_sg(x) + x.i; let r2 = ft_ex(x) + post; let d = digs(sign(q).1, sign(q).0);
        d == (a1, ft_fr(x) + r2) && frac(d) == (a1 + ft_fr(x), r2) && expo(frac(d)) == (ft_text(x), post) && hd(r2) == (if x.e.len() > 0 { 'e' } else { hd(post) }) && (x.f.len() > 0 ==> hd(ft_fr(x) + r2) == '.') }),
        hd(q) == '-' || isdig(hd(q)), ft_ok(x), delim(post), pf64(ft_text(x)) is Some
    ensures lex(q) == Some((Tk::F64(pf64(ft_text(x))->0, ft_text(x)), post))
{
    reveal(lex); reveal(lex_num);
    assert(skip_gap(q) == Some(q));
}
pub proof fn lemma_ft_last(x: FT) requires ft_ok(x) ensures ft_text(x).len() > 0, ft_text(x).last() != '\0'
{ let t = ft_text(x); if x.e.len() > 0 { assert(isdig(x.e[x.e.len() - 1])); assert(t.last() == x.e.last()); } else { assert(isdig(x.f[x.f.len() - 1])); assert(t.last() == x.f.last()); } }
// durations and times (C21)
pub open spec fn uint_tok(n: int) -> Tk { Tk::U64(n as u64, udec(n)) }
pub open spec fn dur_nan(n: u32) -> Seq<Tk> { if n > 0 { seq![Tk::Comma, Tk::Str("nanos"@), Tk::Colon, uint_tok(n as int)] } else { seq![] } }
pub open spec fn dur_toks(s: u64, n: u32) -> Seq<Tk> { seq![Tk::CurlyOpen, Tk::Str("secs"@), Tk::Colon, uint_tok(s as int)] + dur_nan(n) + seq![Tk::CurlyClose] }
pub proof fn lemma_esc_words() ensures "\"secs\":"@ == quoted("secs"@) + seq![':'], ",\"nanos\":"@ == seq![','] + (quoted("nanos"@) + seq![':']), "secs"@ != "nanos"@
{
    reveal_strlit("\"secs\":"); reveal_strlit(",\"nanos\":"); reveal_strlit("secs"); reveal_strlit("nanos");
    let a = "secs"@; let b = "nanos"@;
    reveal_with_fuel(esc, 6);
    assert(a.drop_last() =~= seq!['s', 'e', 'c']); assert(a.drop_last().drop_last() =~= seq!['s', 'e']); assert(a.drop_last().drop_last().drop_last() =~= seq!['s']); assert(seq!['s'].drop_last() =~= seq![]);
    assert(esc(a) =~= a);
    assert(b.drop_last() =~= seq!['n', 'a', 'n', 'o']); assert(seq!['n', 'a', 'n', 'o'].drop_last() =~= seq!['n', 'a', 'n']); assert(seq!['n', 'a', 'n'].drop_last() =~= seq!['n', 'a']); assert(seq!['n', 'a'].drop_last() =~= seq!['n']); assert(seq!['n'].drop_last() =~= seq![]);
    assert(esc(b) =~= b);
    assert("\"secs\":"@ =~= quoted(a) + seq![':']); assert(",\"nanos\":"@ =~= seq![','] + (quoted(b) + seq![':']));
    assert(a.len() != b.len());
}
pub proof fn lemma_uint_lex(n: u64, post: Seq<char>) requires delim(post) ensures stream(udec(n as int) + post) == seq![uint_tok(n as int)] + stream(post)
{ lemma_udec(n as int); lemma_lex_int(udec(n as int), false, post); lemma_one(udec(n as int), uint_tok(n as int), post); }
/// a key, its colon and an unsigned number
pub proof fn lemma_field_lex(key: Seq<char>, n: u64, post: Seq<char>) requires delim(post)
    ensures stream(quoted(key) + (seq![':'] + (udec(n as int) + post))) == seq![Tk::Str(key), Tk::Colon, uint_tok(n as int)] + stream(post)
{
    lemma_uint_lex(n, post); let a = udec(n as int) + post; lemma_punct(':', a); lemma_quoted(key, seq![':'] + a);
    assert(seq![Tk::Str(key)] + (seq![Tk::Colon] + (seq![uint_tok(n as int)] + stream(post))) =~= seq![Tk::Str(key), Tk::Colon, uint_tok(n as int)] + stream(post));
}
pub proof fn lemma_dur_lex(s: u64, n: u32, post: Seq<char>) ensures stream(durtext(s, n) + post) == dur_toks(s, n) + stream(post)
{
    lemma_esc_words();
    let t0 = seq!['}'] + post; lemma_punct('}', post);
    let qs = quoted("secs"@); let qn = quoted("nanos"@); let us = udec(s as int); let un = udec(n as int);
    let t1 = if n > 0 { seq![','] + (qn + (seq![':'] + (un + t0))) } else { t0 };
    if n > 0 {
        lemma_field_lex("nanos"@, n as u64, t0); lemma_punct(',', qn + (seq![':'] + (un + t0)));
        assert(stream(t1) =~= dur_nan(n) + (seq![Tk::CurlyClose] + stream(post)));
        assert(",\"nanos\":"@ + un + t0 =~= t1);
    } else { assert(stream(t1) =~= dur_nan(n) + (seq![Tk::CurlyClose] + stream(post))); }
    lemma_field_lex("secs"@, s, t1);
    let t2 = qs + (seq![':'] + (us + t1));
    lemma_punct('{', t2);
    let m: Seq<char> = if n > 0 { ",\"nanos\":"@ + un } else { Seq::empty() };
    assert(m + t0 =~= t1);
    assert("\"secs\":"@ + (us + t1) =~= t2);
    let a = seq!['{']; let b = "\"secs\":"@;
    assert(durtext(s, n) == a + b + us + m + seq!['}']);
    lemma_assoc(a + b + us + m, seq!['}'], post); lemma_assoc(a + b + us, m, t0); lemma_assoc(a + b, us, t1); lemma_assoc(a, b, us + t1);
    assert(durtext(s, n) + post == seq!['{'] + t2);
    assert(seq![Tk::CurlyOpen] + (seq![Tk::Str("secs"@), Tk::Colon, uint_tok(s as int)] + (dur_nan(n) + (seq![Tk::CurlyClose] + stream(post)))) =~= dur_toks(s, n) + stream(post));
}
pub proof fn lemma_dur_end(s: u64, n: Option<u32>, rest: Seq<Tk>) ensures parse_dur(mk(seq![Tk::CurlyClose] + rest), Some(s), n) == Some((Some(s), n, mk(seq![Tk::CurlyClose] + rest))) { lemma_mk(Tk::CurlyClose, rest); }
pub proof fn lemma_pd_step(q: JS, sec: Option<u64>, nan: Option<u32>, k: Seq<char>, q1: JS, q2: JS, q3: JS, q4: JS)
    requires !(q.t is CurlyClose), String::parse(q) == Some((k, q1)), eat(q1, Tk::Colon) == Some(q2), eat_curly(q3) == Some(q4), mes(q4) < mes(q)
    ensures
        k == "secs"@ && sec is None && u64::parse(q2) is Some && (u64::parse(q2)->0).1 == q3 ==> parse_dur(q, sec, nan) == parse_dur(q4, Some((u64::parse(q2)->0).0), nan),
        k == "nanos"@ && k != "secs"@ && nan is None && u32::parse(q2) is Some && (u32::parse(q2)->0).1 == q3 ==> parse_dur(q, sec, nan) == parse_dur(q4, sec, Some((u32::parse(q2)->0).0)),
{ }
/// one field and its separator
pub proof fn lemma_dur_sec(s: u64, nx: Seq<Tk>) requires wfs(nx), nx[0] != Tk::Bad, nx[0] is CurlyClose || nx[0] is Comma
    ensures ({ let y = seq![Tk::Str("secs"@)] + (seq![Tk::Colon] + (seq![uint_tok(s as int)] + nx)); eat_curly(mk(nx)) is Some && mes(eat_curly(mk(nx))->0) < mes(mk(y)) ==> parse_dur(mk(y), None, None) == parse_dur(eat_curly(mk(nx))->0, Some(s), None) }), mes(mk(nx)) <= nx.len(), wfs(mk(nx).r)
{
    hide(parse_dur);
    lemma_udec(s as int);
    let f0 = seq![uint_tok(s as int)] + nx; lemma_mk(uint_tok(s as int), nx);
    let f1 = seq![Tk::Colon] + f0; lemma_mk(Tk::Colon, f0);
    let y = seq![Tk::Str("secs"@)] + f1; lemma_mk(Tk::Str("secs"@), f1);
    lemma_adv(nx);
    assert(String::parse(mk(y)) == Some(("secs"@, mk(f1))));
    assert(eat(mk(f1), Tk::Colon) == Some(mk(f0)));
    assert(u64::parse(mk(f0)) == Some((s, mk(nx))));
    if eat_curly(mk(nx)) is Some && mes(eat_curly(mk(nx))->0) < mes(mk(y)) { lemma_pd_step(mk(y), None, None, "secs"@, mk(f1), mk(f0), mk(nx), eat_curly(mk(nx))->0); }
}
pub proof fn lemma_dur_nan(s: u64, n: u32, nx: Seq<Tk>) requires wfs(nx), nx[0] is CurlyClose
    ensures ({ let y = seq![Tk::Str("nanos"@)] + (seq![Tk::Colon] + (seq![uint_tok(n as int)] + nx)); eat_curly(mk(nx)) == Some(mk(nx)) && (mes(mk(nx)) < mes(mk(y)) ==> parse_dur(mk(y), Some(s), None) == parse_dur(mk(nx), Some(s), Some(n))) }), mes(mk(nx)) <= nx.len()
{
    hide(parse_dur);
    lemma_esc_words(); lemma_udec(n as int);
    let f0 = seq![uint_tok(n as int)] + nx; lemma_mk(uint_tok(n as int), nx);
    let f1 = seq![Tk::Colon] + f0; lemma_mk(Tk::Colon, f0);
    let y = seq![Tk::Str("nanos"@)] + f1; lemma_mk(Tk::Str("nanos"@), f1);
    lemma_adv(nx);
    assert(String::parse(mk(y)) == Some(("nanos"@, mk(f1))));
    assert(eat(mk(f1), Tk::Colon) == Some(mk(f0)));
    assert(u32::parse(mk(f0)) == Some((n, mk(nx))));
    if eat_curly(mk(nx)) is Some && mes(eat_curly(mk(nx))->0) < mes(mk(y)) { lemma_pd_step(mk(y), Some(s), None, "nanos"@, mk(f1), mk(f0), mk(nx), eat_curly(mk(nx))->0); }
}
pub proof fn lemma_dur_parse(s: u64, n: u32, rest: Seq<Tk>) requires n < 1_000_000_000, wfs(rest), rest[0] != Tk::Bad ensures Duration::parse(mk(dur_toks(s, n) + rest)) == Some(((s, n), mk(rest)))
{
    hide(parse_dur);
    let c = seq![Tk::CurlyClose] + rest; lemma_mk(Tk::CurlyClose, rest); lemma_wfs_cat(seq![Tk::CurlyClose], rest);
    let d0 = seq![uint_tok(n as int)] + c; let d1 = seq![Tk::Colon] + d0; let d2 = seq![Tk::Str("nanos"@)] + d1; let d3 = seq![Tk::Comma] + d2;
    lemma_mk(Tk::Str("nanos"@), d1); lemma_mk(Tk::Comma, d2);
    lemma_wfs_cat(seq![uint_tok(n as int)], c); lemma_wfs_cat(seq![Tk::Colon], d0); lemma_wfs_cat(seq![Tk::Str("nanos"@)], d1); lemma_wfs_cat(seq![Tk::Comma], d2);
    let e = if n > 0 { d3 } else { c };
    lemma_dur_end(s, Some(n), rest); lemma_dur_end(s, None, rest);
    lemma_dur_nan(s, n, c); lemma_dur_sec(s, e);
    let f0 = seq![uint_tok(s as int)] + e; let f1 = seq![Tk::Colon] + f0; let f2 = seq![Tk::Str("secs"@)] + f1; let f3 = seq![Tk::CurlyOpen] + f2;
    lemma_mk(Tk::Str("secs"@), f1); lemma_mk(Tk::CurlyOpen, f2);
    assert(dur_toks(s, n) + rest =~= f3);
}
impl RtJson for Duration {
  open spec fn toks(&self) -> Seq<Tk> { dur_toks(dsecs(*self), dnanos(*self)) }
  open spec fn rtok(&self) -> bool { true }
  proof fn lemma_toks(&self) { }
  proof fn lemma_lexes(&self, post: Seq<char>) { lemma_dur_lex(dsecs(*self), dnanos(*self), post); }
  proof fn lemma_parses(&self, rest: Seq<Tk>) { ax_dnanos(*self); lemma_dur_parse(dsecs(*self), dnanos(*self), rest); }
}
impl RtJson for SystemTime {
  open spec fn toks(&self) -> Seq<Tk> { dur_toks(st_secs(*self), st_sub(*self)) }
  open spec fn rtok(&self) -> bool { st_ns(*self) >= 0 }
  proof fn lemma_toks(&self) { }
  proof fn lemma_lexes(&self, post: Seq<char>) { lemma_dur_lex(st_secs(*self), st_sub(*self), post); }
  proof fn lemma_parses(&self, rest: Seq<Tk>) { ax_st_repr(*self); lemma_dur_parse(st_secs(*self), st_sub(*self), rest); lemma_mk(Tk::CurlyOpen, self.toks().skip(1) + rest); assert(self.toks() + rest =~= seq![Tk::CurlyOpen] + (self.toks().skip(1) + rest));
    assert(ns_of((st_secs(*self), st_sub(*self))) == st_ns(*self)); }
}
/// C21: nanoseconds beyond one billion, and one more second than there is, are refused
pub proof fn lemma_dur_refuse(s: u64, n: u32) ensures n > 1_000_000_000 ==> mkdur(s, n) is None, s == u64::MAX && n == 1_000_000_000 ==> mkdur(s, n) is None, mkdur(s, n) is Some ==> ns_of(mkdur(s, n)->0) == s * 1_000_000_000 + n { }

// ------------------------------------------------------------------ C10: what follows a token does not change it
pub proof fn lemma_loc_lend(x: Seq<char>, q: Seq<char>, q2: Seq<char>)
    requires lend(x + q).len() > q.len() ensures lend(x + q) == lend(x) + q, lend(x + q2) == lend(x) + q2 decreases x.len()
{
    if x.len() == 0 { assert(x + q =~= q); lemma_lend(q); }
    else { assert((x + q).skip(1) =~= x.skip(1) + q); assert((x + q2).skip(1) =~= x.skip(1) + q2); if x[0] == '\n' || x[0] == '\0' { } else { lemma_loc_lend(tl(x), q, q2); } }
}
pub proof fn lemma_loc_cend(x: Seq<char>, l: char, q: Seq<char>, q2: Seq<char>)
    requires cend(x + q, l) is Some, cend(x + q, l)->0.len() >= q.len() ensures cend(x, l) is Some, cend(x + q, l) == Some(cend(x, l)->0 + q), cend(x + q2, l) == Some(cend(x, l)->0 + q2) decreases x.len()
{
    if x.len() == 0 { assert(x + q =~= q); lemma_cend(q, l); }
    else { assert((x + q).skip(1) =~= x.skip(1) + q); assert((x + q2).skip(1) =~= x.skip(1) + q2); if x[0] == '\0' || (l == '*' && x[0] == '/') { } else { lemma_loc_cend(tl(x), x[0], q, q2); } }
}
pub proof fn lemma_loc_gap(x: Seq<char>, q: Seq<char>, q2: Seq<char>) -> (r: Seq<char>)
    requires skip_gap(x + q) is Some, skip_gap(x + q)->0.len() > q.len() ensures r.len() > 0, skip_gap(x + q) == Some(r + q), skip_gap(x + q2) == Some(r + q2) decreases x.len()
{
    let t = x + q; let t2 = x + q2;
    if x.len() == 0 { assert(t =~= q); lemma_skip(q); return x; }
    assert(t.skip(1) =~= x.skip(1) + q); assert(t2.skip(1) =~= x.skip(1) + q2);
    if isws(x[0]) { return lemma_loc_gap(tl(x), q, q2); }
    if x[0] == '/' {
        if x.len() == 1 { // the opener would reach into what follows
            assert(tl(t) =~= q); lemma_lend(q); lemma_cend(tl(q), '\0');
            if hd(tl(t)) == '/' { lemma_skip(lend(tl(t))); } else { lemma_skip(cend(tl(tl(t)), '\0')->0); }
            assert(false); return x;
        }
        assert(hd(tl(t)) == x[1]); assert(hd(tl(t2)) == x[1]);
        if x[1] == '/' {
            let e = lend(tl(t)); lemma_lend(tl(t)); lemma_skip(e);
            lemma_loc_lend(tl(x), q, q2); lemma_lend(tl(x));
            return lemma_loc_gap(lend(tl(x)), q, q2);
        }
        assert(t.skip(1).skip(1) =~= x.skip(1).skip(1) + q); assert(t2.skip(1).skip(1) =~= x.skip(1).skip(1) + q2);
        let e = cend(tl(tl(t)), '\0')->0; lemma_skip(e);
        lemma_loc_cend(tl(tl(x)), '\0', q, q2); lemma_cend(tl(tl(x)), '\0');
        return lemma_loc_gap(cend(tl(tl(x)), '\0')->0, q, q2);
    }
    x
}
pub proof fn lemma_loc_digs(x: Seq<char>, q: Seq<char>, q2: Seq<char>, acc: Seq<char>)
    requires digs(x + q, acc).1.len() >= q.len(), !isdig(hd(q2)) ensures digs(x + q, acc) == (digs(x, acc).0, digs(x, acc).1 + q), digs(x + q2, acc) == (digs(x, acc).0, digs(x, acc).1 + q2) decreases x.len()
{
    if x.len() == 0 { assert(x + q =~= q); assert(x + q2 =~= q2); lemma_digs(q, acc); }
    else { assert((x + q).skip(1) =~= x.skip(1) + q); assert((x + q2).skip(1) =~= x.skip(1) + q2); if isdig(x[0]) { lemma_loc_digs(tl(x), q, q2, acc.push(x[0])); } }
}
pub proof fn lemma_loc_idn(x: Seq<char>, q: Seq<char>, q2: Seq<char>, acc: Seq<char>)
    requires idn(x + q, acc).1.len() >= q.len(), !iscont(hd(q2)) ensures idn(x + q, acc) == (idn(x, acc).0, idn(x, acc).1 + q), idn(x + q2, acc) == (idn(x, acc).0, idn(x, acc).1 + q2) decreases x.len()
{
    if x.len() == 0 { assert(x + q =~= q); assert(x + q2 =~= q2); lemma_idn(q, acc); }
    else { assert((x + q).skip(1) =~= x.skip(1) + q); assert((x + q2).skip(1) =~= x.skip(1) + q2); if iscont(x[0]) { lemma_loc_idn(tl(x), q, q2, acc.push(x[0])); } }
}
pub proof fn lemma_loc_hexn(x: Seq<char>, q: Seq<char>, q2: Seq<char>, k: int, acc: int)
    requires k >= 0, acc >= 0, hexn(x + q, k, acc) is Some, (hexn(x + q, k, acc)->0).1.len() >= q.len()
    ensures hexn(x, k, acc) is Some, hexn(x + q, k, acc) == Some(((hexn(x, k, acc)->0).0, (hexn(x, k, acc)->0).1 + q)), hexn(x + q2, k, acc) == Some(((hexn(x, k, acc)->0).0, (hexn(x, k, acc)->0).1 + q2)), (hexn(x, k, acc)->0).1.len() == x.len() - k decreases k
{
    if k > 0 {
        if x.len() == 0 { assert(x + q =~= q); lemma_hexn(q, k, acc); }
        else { assert((x + q).skip(1) =~= x.skip(1) + q); assert((x + q2).skip(1) =~= x.skip(1) + q2); assert(hd(x + q) == x[0] && hd(x + q2) == x[0]); lemma_loc_hexn(tl(x), q, q2, k - 1, acc * 16 + hexv(x[0])->0); }
    }
}
pub proof fn lemma_loc_uesc(x: Seq<char>, q: Seq<char>, q2: Seq<char>)
    requires uesc(x + q) is Some, (uesc(x + q)->0).1.len() >= q.len()
    ensures uesc(x) is Some, uesc(x + q) == Some(((uesc(x)->0).0, (uesc(x)->0).1 + q)), uesc(x + q2) == Some(((uesc(x)->0).0, (uesc(x)->0).1 + q2))
{
    lemma_hexn(x + q, 4, 0);
    let (a, r) = hexn(x + q, 4, 0)->0;
    lemma_hexn(tl(tl(r)), 4, 0);
    lemma_loc_hexn(x, q, q2, 4, 0);
    if !scalar(a) {
        let y = (hexn(x, 4, 0)->0).1; let r2 = y + q2;
        assert(y.len() >= 6);
        assert(r.skip(1) =~= y.skip(1) + q); assert(r.skip(1).skip(1) =~= y.skip(1).skip(1) + q);
        assert(r2.skip(1) =~= y.skip(1) + q2); assert(r2.skip(1).skip(1) =~= y.skip(1).skip(1) + q2);
        assert(hd(r) == hd(y) && hd(tl(r)) == hd(tl(y)) && hd(r2) == hd(y) && hd(tl(r2)) == hd(tl(y)));
        lemma_loc_hexn(tl(tl(y)), q, q2, 4, 0);
    }
}
pub proof fn lemma_loc_str(x: Seq<char>, q: Seq<char>, q2: Seq<char>, acc: Seq<char>)
    requires lex_str(x + q, acc) is Some, (lex_str(x + q, acc)->0).1.len() >= q.len()
    ensures lex_str(x, acc) is Some, lex_str(x + q, acc) == Some(((lex_str(x, acc)->0).0, (lex_str(x, acc)->0).1 + q)), lex_str(x + q2, acc) == Some(((lex_str(x, acc)->0).0, (lex_str(x, acc)->0).1 + q2)) decreases x.len()
{
    let t = x + q; let t2 = x + q2;
    if x.len() == 0 { assert(t =~= q); lemma_lex_str(q, acc); return; }
    assert(t.skip(1) =~= x.skip(1) + q); assert(t2.skip(1) =~= x.skip(1) + q2);
    assert(hd(t) == x[0] && hd(t2) == x[0]);
    if x[0] == '"' { }
    else if x[0] == '\\' {
        if x.len() == 1 { assert(tl(t) =~= q); lemma_uesc(tl(q)); if hd(q) == 'u' { lemma_lex_str((uesc(tl(q))->0).1, acc.push((uesc(tl(q))->0).0)); } else { lemma_lex_str(tl(q), acc.push(unesc(hd(q)))); } return; }
        assert(t.skip(1).skip(1) =~= x.skip(1).skip(1) + q); assert(t2.skip(1).skip(1) =~= x.skip(1).skip(1) + q2);
        assert(hd(tl(t)) == x[1] && hd(tl(t2)) == x[1]);
        let y = tl(tl(x));
        if x[1] == 'u' {
            let (c, r) = uesc(y + q)->0;
            lemma_lex_str(r, acc.push(c)); lemma_uesc(y);
            lemma_loc_uesc(y, q, q2);
            lemma_loc_str((uesc(y)->0).1, q, q2, acc.push(c));
        } else { lemma_loc_str(y, q, q2, acc.push(unesc(x[1]))); }
    } else { lemma_loc_str(tl(x), q, q2, acc.push(x[0])); }
}
/// what may follow: anything after a string or a single-character token, otherwise nothing that would continue the word or number
pub open spec fn apart(t: Tk, q: Seq<char>) -> bool { match t {
//@if json
    Tk::Null => delim(q),
//@if ron
    Tk::Ident(_) => delim(q),
//@end
    Tk::U64(..) | Tk::I64(..) | Tk::F64(..) | Tk::Bool(_) => delim(q) && hd(q) != '+' && hd(q) != '-', _ => true } }
pub open spec fn stop(q: Seq<char>) -> bool { delim(q) && hd(q) != '+' && hd(q) != '-' }
pub proof fn lemma_loc_frac(x: Seq<char>, q: Seq<char>, q2: Seq<char>, a: Seq<char>)
    requires frac((a, x + q)).1.len() >= q.len(), stop(q2)
    ensures frac((a, x + q)) == (frac((a, x)).0, frac((a, x)).1 + q), frac((a, x + q2)) == (frac((a, x)).0, frac((a, x)).1 + q2)
{
    if x.len() == 0 { assert(x + q =~= q); assert(x + q2 =~= q2); lemma_digs(tl(q), a.push('.')); }
    else {
        assert(hd(x + q) == x[0] && hd(x + q2) == x[0]);
        assert((x + q).skip(1) =~= x.skip(1) + q); assert((x + q2).skip(1) =~= x.skip(1) + q2);
        if x[0] == '.' { lemma_loc_digs(x.skip(1), q, q2, a.push('.')); }
    }
}
pub proof fn lemma_loc_expo(x: Seq<char>, q: Seq<char>, q2: Seq<char>, a: Seq<char>)
    requires expo((a, x + q)).1 == q, stop(q2)
    ensures expo((a, x + q2)) == (expo((a, x + q)).0, q2)
{
    let t = x + q;
    if x.len() == 0 { assert(x + q =~= q); assert(x + q2 =~= q2); lemma_digs(tl(tl(q)), a.push(hd(q)).push(hd(tl(q)))); lemma_digs(tl(q), a.push(hd(q))); }
    else {
        assert(hd(x + q) == x[0] && hd(x + q2) == x[0]);
        let y = x.skip(1); let ay = a.push(x[0]);
        assert((x + q).skip(1) =~= y + q); assert((x + q2).skip(1) =~= y + q2);
        if x[0] == 'e' || x[0] == 'E' {
            if y.len() == 0 {
                assert(y + q =~= q); assert(y + q2 =~= q2);
                lemma_digs(q, ay); lemma_digs(tl(q), ay.push(hd(q)));
            } else {
                assert(hd(y + q) == y[0] && hd(y + q2) == y[0]);
                if y[0] == '-' || y[0] == '+' { assert((y + q).skip(1) =~= y.skip(1) + q); assert((y + q2).skip(1) =~= y.skip(1) + q2); lemma_loc_end(y.skip(1), q, q2, ay.push(y[0])); }
                else { lemma_loc_end(y, q, q2, ay); }
            }
        } else { assert((x + q).len() > q.len()); }
    }
}
pub proof fn lemma_loc_end(x: Seq<char>, q: Seq<char>, q2: Seq<char>, a: Seq<char>) requires digs(x + q, a).1 == q, stop(q2) ensures digs(x + q2, a) == (digs(x + q, a).0, q2)
{ lemma_loc_digs(x, q, q2, a); let y = digs(x, a).1; assert(y.len() == 0) by { assert((y + q).len() == q.len()); } assert(y + q2 =~= q2); }
pub proof fn lemma_loc_num(x: Seq<char>, q: Seq<char>, q2: Seq<char>)
    requires lex_num(x + q) is Some, (lex_num(x + q)->0).1 == q, numstart(hd(x)), stop(q2)
    ensures lex_num(x + q2) == Some(((lex_num(x + q)->0).0, q2))
{
    let t = x + q; let t2 = x + q2;
    assert(t.skip(1) =~= x.skip(1) + q); assert(t2.skip(1) =~= x.skip(1) + q2);
    assert(hd(t) == x[0] && hd(t2) == x[0]);
    let sx = sign(x).1; let sa = sign(x).0;
    assert(sign(t) == (sa, sx + q)); assert(sign(t2) == (sa, sx + q2));
    let i = digs(sx + q, sa);
    let f = frac(i);
    lemma_expo_len(f); lemma_frac_len(i);
    assert(expo(f).1 == q) by { reveal(lex_num); }
    lemma_loc_digs(sx, q, q2, sa);
    let ix = digs(sx, sa).1;
    lemma_loc_frac(ix, q, q2, i.0);
    let fx = frac((i.0, ix)).1;
    lemma_loc_expo(fx, q, q2, f.0);
    let i2 = digs(sx + q2, sa); let f2 = frac(i2);
    assert(i2 == (i.0, ix + q2)); assert(f2 == (f.0, fx + q2)); assert(f == (f.0, fx + q));
    assert(expo(f2) == (expo(f).0, q2));
    assert((hd(i.1) == '.') == (hd(i2.1) == '.')) by { if ix.len() > 0 { assert(hd(i.1) == ix[0] && hd(i2.1) == ix[0]); } else { assert(ix + q =~= q); assert(ix + q2 =~= q2); lemma_digs(tl(q), i.0.push('.')); } }
    assert((hd(f.1) == 'e' || hd(f.1) == 'E') == (hd(f2.1) == 'e' || hd(f2.1) == 'E')) by { if fx.len() > 0 { assert(hd(f.1) == fx[0] && hd(f2.1) == fx[0]); } else { assert(fx + q =~= q); assert(fx + q2 =~= q2); lemma_expo_strict(f); } }
    reveal(lex_num);
}
pub proof fn lemma_frac_len(p: (Seq<char>, Seq<char>)) ensures frac(p).1.len() <= p.1.len(), hd(p.1) == '.' ==> frac(p).1.len() < p.1.len() { lemma_digs(tl(p.1), p.0.push('.')); }
pub proof fn lemma_expo_len(p: (Seq<char>, Seq<char>)) ensures expo(p).1.len() <= p.1.len() { lemma_expo_strict(p); }
pub proof fn lemma_expo_strict(p: (Seq<char>, Seq<char>)) ensures expo(p).1.len() <= p.1.len(), hd(p.1) == 'e' || hd(p.1) == 'E' ==> expo(p).1.len() < p.1.len()
{ let a = p.0.push(hd(p.1)); let r = tl(p.1); lemma_digs(tl(r), a.push(hd(r))); lemma_digs(r, a); }
/// C10: a token (with the gap before it) is the same token whatever follows it, so gaps may be put in or taken out after it
pub proof fn lemma_local(x: Seq<char>, q: Seq<char>, q2: Seq<char>, t: Tk)
    requires lex(x + q) == Some((t, q)), t != Tk::Eof, x.len() > 0, apart(t, q2)
    ensures lex(x + q2) == Some((t, q2)), stream(x + q) == seq![t] + stream(q), stream(x + q2) == seq![t] + stream(q2)
{
    reveal(lex);
    lemma_skip(x + q);
    let g = skip_gap(x + q)->0;
    lemma_lex_num_len(g); lemma_idn(g, seq![]); lemma_lex_str(tl(g), seq![]);
    assert(g.len() > q.len()) by { reveal(lex_id); }
    let r = lemma_loc_gap(x, q, q2);
    assert((r + q).skip(1) =~= r.skip(1) + q); assert((r + q2).skip(1) =~= r.skip(1) + q2);
    let c = r[0]; assert(hd(r + q) == c && hd(r + q2) == c);
    if c == ':' || c == ',' || c == '[' || c == ']' || c == '{' || c == '}' || c == arr_oc() || c == arr_cc() {
        assert(tl(r + q) == q); assert(r.skip(1).len() == 0) by { assert((r.skip(1) + q).len() == q.len()); } assert(r.skip(1) + q2 =~= q2);
    } else if numstart(c) { lemma_num_kind(r + q); lemma_loc_num(r, q, q2); }
    else if isid(c) {
        reveal(lex_id);
        lemma_loc_idn(r, q, q2, seq![]);
        let y = idn(r, seq![]).1;
        assert(y.len() == 0) by { assert((y + q).len() == q.len()); }
        assert(y + q2 =~= q2);
//@if ron
    } else if c == '\'' {
        lemma_loc_char(tl(r), q, q2);
//@end
    } else {
        assert(c == '"');
        lemma_loc_str(tl(r), q, q2, seq![]);
        let y = (lex_str(tl(r), seq![])->0).1;
        assert(y.len() == 0) by { assert((y + q).len() == q.len()); }
        assert(y + q2 =~= q2);
    }
    lemma_one(x, t, q); lemma_one(x, t, q2);
}
//@if ron
pub proof fn lemma_loc_char(x: Seq<char>, q: Seq<char>, q2: Seq<char>)
    requires lex_char(x + q) is Some, (lex_char(x + q)->0).1 == q
    ensures lex_char(x + q2) == Some(((lex_char(x + q)->0).0, q2))
{
    let t = x + q; let t2 = x + q2;
    let b = hd(t) == '\\';
    if x.len() == 0 { assert(t =~= q); }
    if x.len() == 1 { assert(t.skip(1) =~= q); }
    assert(t.skip(1) =~= x.skip(1) + q); assert(t2.skip(1) =~= x.skip(1) + q2);
    assert(t.skip(1).skip(1) =~= x.skip(1).skip(1) + q); assert(t2.skip(1).skip(1) =~= x.skip(1).skip(1) + q2);
    if b {
        if x.len() == 2 { assert(x.skip(1).skip(1) + q =~= q); }
        assert(x.len() == 3) by { assert((x + q).len() == x.len() + q.len()); }
        assert(t.skip(1).skip(1).skip(1) =~= x.skip(1).skip(1).skip(1) + q); assert(t2.skip(1).skip(1).skip(1) =~= q2);
    } else { assert(x.len() == 2) by { assert((x + q).len() == x.len() + q.len()); } assert(t2.skip(1).skip(1) =~= q2); }
}
//@end
pub proof fn lemma_num_kind(q: Seq<char>) ensures match lex_num(q) { Some((t, _)) => t is U64 || t is I64 || t is F64, None => true } { reveal(lex_num); }
pub proof fn lemma_lex_num_len(q: Seq<char>) ensures numstart(hd(q)) && lex_num(q) is Some ==> (lex_num(q)->0).1.len() < q.len() { if numstart(hd(q)) { lemma_lex_num(q); } }
/// C10: a gap between two tokens changes nothing
pub proof fn lemma_insert_gap(x: Seq<char>, g: Seq<char>, q: Seq<char>, t: Tk)
    requires lex(x + q) == Some((t, q)), t != Tk::Eof, x.len() > 0, isgap(g)
    ensures stream(x + (g + q)) == stream(x + q)
{
    if g.len() > 0 { assert(hd(g + q) == g[0]); assert(isws(g[0]) || g[0] == '/'); lemma_local(x, q, g + q, t); lemma_gap(g, q); } else { assert(g + q =~= q); }
}
