// ================================================================== what the contracts imply for documents written as TOML prescribes
pub broadcast proof fn lemma_cons(w: Seq<char>, r: Seq<char>) requires w.len() > 0 ensures hd(#[trigger] (w + r)) == w[0], tl(w + r) == w.skip(1) + r { assert((w + r).skip(1) =~= w.skip(1) + r); }
pub proof fn lemma_nil(w: Seq<char>, r: Seq<char>) requires w.len() == 0 ensures w + r == r { assert(w + r =~= r); }
pub proof fn lemma_as(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures a + b + c == a + (b + c) { assert(a + b + c =~= a + (b + c)); }
pub proof fn lemma_ch(c: char, r: Seq<char>) ensures hd(seq![c] + r) == c, tl(seq![c] + r) == r { assert((seq![c] + r).skip(1) =~= r); }

// ------------------------------------------------------------------ white space and comments
/// white space and comments; only the last line of a text may end without a line feed
pub open spec fn gap(w: Seq<char>, last: bool) -> bool decreases w.len(), 0int { w.len() == 0 || isws(w[0]) && gap(w.skip(1), last) || w[0] == '#' && cmt(w.skip(1), last) }
pub open spec fn cmt(w: Seq<char>, last: bool) -> bool decreases w.len(), 1int { if w.len() == 0 { last } else if w[0] == '\n' { gap(w, last) } else { w[0] != '\0' && cmt(w.skip(1), last) } }
/// they mean nothing
pub proof fn lemma_skip_gap(w: Seq<char>, last: bool, q: Seq<char>) requires gap(w, last), last ==> q.len() == 0 ensures tgap(w + q) == tgap(q) decreases w.len(), 0int {
    if w.len() == 0 { lemma_nil(w, q); } else { lemma_cons(w, q);
        if isws(w[0]) { lemma_skip_gap(w.skip(1), last, q); }
        else { let x = w.skip(1) + q; lemma_cmt(w.skip(1), last, q); assert(lend(w + q) == lend(x)); lemma_lend(w + q); lemma_lend(x); } }
}
pub proof fn lemma_cmt(w: Seq<char>, last: bool, q: Seq<char>) requires cmt(w, last), last ==> q.len() == 0 ensures tgap(lend(w + q)) == tgap(q) decreases w.len(), 1int {
    if w.len() == 0 { lemma_nil(w, q); assert(q.len() == 0); } else { lemma_cons(w, q);
        if w[0] == '\n' { lemma_skip_gap(w, last, q); } else { lemma_cmt(w.skip(1), last, q); } }
}
pub open spec fn solid(w: Seq<char>) -> bool { w.len() > 0 && !isws(w[0]) && w[0] != '#' }
/// the text w is read as the token t, whatever ends it
pub open spec fn lexes(w: Seq<char>, t: TT) -> bool { solid(w) && t != TT::Eof && forall|r: Seq<char>| isend(hd(r)) ==> lex1(#[trigger] (w + r)) == Some((t, r)) }
pub proof fn lemma_tok(g: Seq<char>, w: Seq<char>, t: TT, r: Seq<char>) requires gap(g, false), lexes(w, t), isend(hd(r)) ensures lex(g + w + r) == Some((t, r)), lex(g + (w + r)) == Some((t, r)) {
    reveal(lex); lemma_as(g, w, r); lemma_skip_gap(g, false, w + r); lemma_cons(w, r);
}
pub proof fn lemma_punct(g: Seq<char>, c: char, r: Seq<char>) requires gap(g, false), c == '[' || c == ']' || c == '=' || c == ','
    ensures lex(g + seq![c] + r) == Some((if c == '[' { TT::BlockOpen } else if c == ']' { TT::BlockClose } else if c == '=' { TT::Equals } else { TT::Comma }, r)), lex(g + (seq![c] + r)) == lex(g + seq![c] + r)
{ reveal(lex); lemma_as(g, seq![c], r); lemma_skip_gap(g, false, seq![c] + r); lemma_ch(c, r); }
/// nothing but white space and comments is left
pub proof fn lemma_end(g: Seq<char>) requires gap(g, true) ensures lex(g) is Some, (lex(g)->0).0 == TT::Eof { reveal(lex); lemma_skip_gap(g, true, seq![]); assert(g + Seq::<char>::empty() =~= g); assert(tgap(seq![]).len() == 0); }
pub proof fn lemma_gap_hd(g: Seq<char>, c: char, r: Seq<char>) requires gap(g, false), isend(c) ensures isend(hd(g + (seq![c] + r))), isend(hd(g + seq![c] + r)) { lemma_as(g, seq![c], r); lemma_ch(c, r); if g.len() == 0 { lemma_nil(g, seq![c] + r); } else { lemma_cons(g, seq![c] + r); } }

// ------------------------------------------------------------------ the texts of the tokens
/// a bare key (or a word) is itself
pub open spec fn bare(k: Seq<char>) -> bool { k.len() > 0 && isk(k[0]) && !isdig(k[0]) && k[0] != '-' && forall|i: int| 0 <= i < k.len() ==> isk(#[trigger] k[i]) || k[i] == '.' }
pub proof fn lemma_idn_all(d: Seq<char>, post: Seq<char>, acc: Seq<char>)
    requires forall|i: int| 0 <= i < d.len() ==> isk(#[trigger] d[i]) || d[i] == '.', isend(hd(post)) ensures idn(d + post, acc) == (acc + d, post) decreases d.len()
{
    if d.len() > 0 {
        lemma_cons(d, post); assert(isk(d[0]) || d[0] == '.');
        assert forall|i: int| 0 <= i < d.skip(1).len() implies isk(#[trigger] d.skip(1)[i]) || d.skip(1)[i] == '.' by { assert(isk(d[i + 1]) || d[i + 1] == '.'); }
        lemma_idn_all(d.skip(1), post, acc.push(d[0]));
        assert(acc.push(d[0]) + d.skip(1) =~= acc + d);
    } else { lemma_nil(d, post); assert(acc + d =~= acc); }
}
pub proof fn lemma_bare(k: Seq<char>) requires bare(k) ensures lexes(k, word(k)), ttext(word(k)) == k, scalar_tok(word(k)), k != "true"@ && k != "false"@ && k != "inf"@ && k != "nan"@ ==> word(k) == TT::Ident(k),
    word("true"@) == TT::Bool(true), word("false"@) == TT::Bool(false) {
    assert(isk(k[0]));
    reveal_strlit("true"); reveal_strlit("false");  assert("true"@.len() != "false"@.len());
    assert forall|r: Seq<char>| isend(hd(r)) implies lex1(#[trigger] (k + r)) == Some((word(k), r)) by { lemma_cons(k, r); lemma_idn_all(k, r, seq![]); assert(seq![] + k =~= k); }
}
/// one character of a string: as it is, or escaped
pub open spec fn piece(p: Seq<char>, c: char) -> bool {
    p.len() == 1 && p[0] == c && c != '"' && c != '\\' && c != '\0'
    || p.len() == 2 && p[0] == '\\' && p[1] != 'u' && p[1] != 'U' && p[1] != '\0' && c == unesc(p[1])
    || (p.len() == 6 && p[1] == 'u' || p.len() == 10 && p[1] == 'U') && p[0] == '\\' && hexs(p.skip(2)) && scalar(hval(p.skip(2))) && c == hval(p.skip(2)) as char
}
pub open spec fn hexs(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> hexv(#[trigger] s[i]) is Some }
pub open spec fn hval(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { hval(s.drop_last()) * 16 + (hexv(s.last())->0) } }
pub proof fn lemma_hexn_all(done: Seq<char>, s: Seq<char>, r: Seq<char>) requires hexs(done + s) ensures hexn(s + r, s.len() as int, hval(done)) == Some((hval(done + s), r)) decreases s.len() {
    if s.len() == 0 { lemma_nil(s, r); assert(done + s =~= done); } else {
        lemma_cons(s, r); assert((done + s)[done.len() as int] == s[0]); let d2 = done.push(s[0]); assert(d2.drop_last() =~= done); assert(d2 + s.skip(1) =~= done + s); lemma_hexn_all(d2, s.skip(1), r); }
}
pub ghost struct Pc { pub p: Seq<char>, pub c: char }
pub open spec fn flat(s: Seq<Pc>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { s[0].p + flat(s.skip(1)) } }
pub open spec fn chars(s: Seq<Pc>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i].c) }
pub open spec fn pieces(s: Seq<Pc>) -> bool { forall|i: int| 0 <= i < s.len() ==> piece((#[trigger] s[i]).p, s[i].c) }
pub proof fn lemma_esc_piece(p: Seq<char>, c: char, r: Seq<char>) requires piece(p, c), p[0] == '\\' ensures hd(p + r) == '\\', esc1(tl(p + r)) == Some((c, r)), r.len() < (p + r).len() {
    lemma_cons(p, r); lemma_cons(p.skip(1), r); assert(p.skip(1)[0] == p[1]);
    if p.len() == 2 { assert(p.skip(1).skip(1) =~= seq![]); lemma_nil(p.skip(1).skip(1), r); }
    else { let h = p.skip(2); assert(p.skip(1).skip(1) =~= h); lemma_hexn_all(seq![], h, r); assert(seq![] + h =~= h); assert(hval(seq![]) == 0); }
}
/// a string has exactly its contents; one that is not closed is an error
pub proof fn lemma_sstr_all(s: Seq<Pc>, r: Seq<char>, acc: Seq<char>) requires pieces(s)
    ensures sstr(flat(s) + (seq!['"'] + r), acc) == Some((acc + chars(s), r)), sstr(flat(s), acc) is None, sstr(flat(s) + seq!['\\'], acc) is None, s.len() > 0 ==> flat(s).len() > 0 && flat(s)[0] != '"' decreases s.len()
{
    let q = seq!['"'] + r;
    if s.len() == 0 { lemma_nil(flat(s), q); lemma_ch('"', r); assert(acc + chars(s) =~= acc); lemma_nil(flat(s), seq!['\\']); assert(tl(seq!['\\']).len() == 0); assert(hd(seq!['\\']) == '\\'); }
    else {
        let x = s[0]; let t = s.skip(1); let f = flat(t);
        assert(piece(x.p, x.c));
        assert forall|i: int| 0 <= i < t.len() implies piece((#[trigger] t[i]).p, t[i].c) by { assert(t[i] == s[i + 1]); }
        lemma_sstr_all(t, r, acc.push(x.c)); assert(acc.push(x.c) + chars(t) =~= acc + chars(s));
        lemma_as(x.p, f, q); lemma_as(x.p, f, seq!['\\']); lemma_cons(x.p, f + q); lemma_cons(x.p, f); lemma_cons(x.p, f + seq!['\\']);
        if x.p[0] == '\\' { lemma_esc_piece(x.p, x.c, f + q); lemma_esc_piece(x.p, x.c, f); lemma_esc_piece(x.p, x.c, f + seq!['\\']); }
        else { assert(x.p.skip(1) =~= seq![]); lemma_nil(x.p.skip(1), f + q); lemma_nil(x.p.skip(1), f); lemma_nil(x.p.skip(1), f + seq!['\\']); }
    }
}
pub proof fn lemma_string(s: Seq<Pc>) requires pieces(s) ensures lexes(seq!['"'] + flat(s) + seq!['"'], TT::Str(chars(s))) {
    let w = seq!['"'] + flat(s) + seq!['"'];
    assert forall|r: Seq<char>| isend(hd(r)) implies lex1(#[trigger] (w + r)) == Some((TT::Str(chars(s)), r)) by {
        let x = flat(s) + (seq!['"'] + r);
        assert(w + r =~= seq!['"'] + x); lemma_ch('"', x); lemma_sstr_all(s, r, seq![]); assert(seq![] + chars(s) =~= chars(s));
        lemma_ch('"', r);
        if s.len() == 0 { lemma_nil(flat(s), seq!['"'] + r); assert(chars(s) =~= seq![]); } else { lemma_cons(flat(s), seq!['"'] + r); }
    }
}
/// in a multi-line string, quotes may stand for themselves, but not three in a row
pub open spec fn mpiece(x: Pc) -> bool { x.p == seq!['"'] && x.c == '"' || piece(x.p, x.c) }
pub open spec fn isq(s: Seq<Pc>, i: int) -> bool { 0 <= i < s.len() && s[i].p == seq!['"'] }
pub open spec fn mpieces(s: Seq<Pc>) -> bool { (forall|i: int| 0 <= i < s.len() ==> mpiece(#[trigger] s[i])) && forall|i: int| !(#[trigger] isq(s, i) && isq(s, i + 1) && isq(s, i + 2)) }
pub open spec fn q3() -> Seq<char> { seq!['"', '"', '"'] }
pub proof fn lemma_mp_skip(s: Seq<Pc>) requires mpieces(s), s.len() > 0 ensures mpieces(s.skip(1)) {
    let t = s.skip(1);
    assert forall|i: int| 0 <= i < t.len() implies mpiece(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); }
    assert forall|i: int| !(#[trigger] isq(t, i) && isq(t, i + 1) && isq(t, i + 2)) by { assert(isq(t, i) ==> isq(s, i + 1)); assert(isq(t, i + 1) ==> isq(s, i + 2)); assert(isq(t, i + 2) ==> isq(s, i + 3)); }
}
/// the first character of what follows is not a quote
pub proof fn lemma_mp_hd(s: Seq<Pc>, q: Seq<char>) requires mpieces(s), s.len() > 0 ensures (hd(flat(s) + q) == '"') == isq(s, 0), flat(s).len() > 0, flat(s) + q == s[0].p + (flat(s.skip(1)) + q), isq(s, 0) ==> s[0].c == '"' {
    assert(mpiece(s[0])); lemma_as(s[0].p, flat(s.skip(1)), q); lemma_cons(s[0].p, flat(s.skip(1)) + q);
    if s[0].p[0] == '"' { assert(s[0].p =~= seq!['"']); }
}
pub open spec fn m_run(s: Seq<Pc>) -> int { if isq(s, 0) { if isq(s, 1) { 2 } else { 1 } } else { 0 } }
/// a run of quotes in it, before something else
pub proof fn lemma_m_run(s: Seq<Pc>, q: Seq<char>) requires mpieces(s), hd(q) != '"' || s.len() > m_run(s)
    ensures quo(flat(s) + q, 0) == (m_run(s), flat(s.skip(m_run(s))) + q), m_run(s) <= s.len(), mpieces(s.skip(m_run(s)))
{
    assert(!(isq(s, 0) && isq(s, 1) && isq(s, 2)));
    assert(s.skip(0) =~= s);
    if s.len() == 0 { lemma_nil(flat(s), q); }
    else {
        lemma_mp_hd(s, q);
        if isq(s, 0) {
            let t = s.skip(1); lemma_mp_skip(s); lemma_ch('"', flat(t) + q);
            assert(isq(t, 0) == isq(s, 1));
            if t.len() == 0 { lemma_nil(flat(t), q); }
            else {
                lemma_mp_hd(t, q);
                if isq(t, 0) {
                    let v = t.skip(1); lemma_mp_skip(t); lemma_ch('"', flat(v) + q); assert(v =~= s.skip(2));
                    assert(isq(v, 0) == isq(s, 2));
                    if v.len() == 0 { lemma_nil(flat(v), q); } else { lemma_mp_hd(v, q); }
                    assert(quo(flat(v) + q, 2) == (2int, flat(v) + q));
                    assert(quo(flat(t) + q, 1) == quo(flat(v) + q, 2));
                } else { assert(quo(flat(t) + q, 1) == (1int, flat(t) + q)); }
            }
            assert(quo(flat(s) + q, 0) == quo(flat(t) + q, 1));
        }
    }
}
pub proof fn lemma_quo_add(q: Seq<char>, n: int) ensures quo(q, n) == (n + quo(q, 0).0, quo(q, 0).1) decreases q.len() { if hd(q) == '"' { lemma_quo_add(tl(q), n + 1); lemma_quo_add(tl(q), 1); } }
/// the quotes at its end, together with the closing ones
pub proof fn lemma_m_close(s: Seq<Pc>, r: Seq<char>) requires mpieces(s), hd(r) != '"', s.len() == m_run(s) ensures quo(flat(s) + (q3() + r), 0) == (m_run(s) + 3, r) {
    let q = q3() + r; let q2 = seq!['"', '"'] + r; let q1 = seq!['"'] + r;
    assert(q =~= seq!['"'] + q2); assert(q2 =~= seq!['"'] + q1); lemma_ch('"', q2); lemma_ch('"', q1); lemma_ch('"', r);
    assert(quo(r, 3) == (3int, r)); assert(quo(q1, 2) == quo(r, 3)); assert(quo(q2, 1) == quo(q1, 2)); assert(quo(q, 0) == quo(q2, 1));
    if s.len() == 0 { lemma_nil(flat(s), q); }
    else {
        let t = s.skip(1); lemma_mp_hd(s, q); lemma_mp_skip(s); lemma_ch('"', flat(t) + q); lemma_quo_add(flat(t) + q, 1);
        assert(isq(t, 0) == isq(s, 1));
        if t.len() == 0 { lemma_nil(flat(t), q); } else { let v = t.skip(1); lemma_mp_hd(t, q); lemma_ch('"', flat(v) + q); lemma_quo_add(flat(v) + q, 1); lemma_nil(flat(v), q); }
    }
}
pub proof fn lemma_mstr_all(s: Seq<Pc>, r: Seq<char>, acc: Seq<char>) requires mpieces(s), hd(r) != '"'
    ensures mstr(flat(s) + (q3() + r), acc) == Some((acc + chars(s), r)), mstr(flat(s), acc) is None decreases s.len()
{
    let q = q3() + r; let n = m_run(s); let f = flat(s);
    lemma_cons(q3(), r);
    assert(f + Seq::<char>::empty() =~= f);
    assert(isq(s, 0) ==> mpiece(s[0])); assert(isq(s, 1) ==> mpiece(s[1]));
    if n > 0 || s.len() == 0 {
        if s.len() > 0 { lemma_mp_hd(s, q); lemma_mp_hd(s, seq![]); } else { lemma_nil(f, q); assert(f.len() == 0); }
        if s.len() == n {
            lemma_m_close(s, r); assert(acc + quotes(n) =~= acc + chars(s)) by { if n > 0 { assert(s[0].c == '"'); } if n > 1 { assert(s[1].c == '"'); } }
            assert(hd(f + q) == '"');
            assert(mstr(f + q, acc) == Some((acc + chars(s), r)));
            if n > 0 { lemma_m_run(s, seq![]); assert(flat(s.skip(n)).len() == 0); assert(mstr(seq![], acc + quotes(n)) is None); assert(flat(s.skip(n)) + Seq::<char>::empty() =~= seq![]); }
            assert(mstr(f, acc) is None);
        } else {
            let t = s.skip(n);
            lemma_m_run(s, q); lemma_m_run(s, seq![]); lemma_quo(f + q, 0); lemma_quo(f, 0);
            assert(flat(t) + Seq::<char>::empty() =~= flat(t));
            lemma_mstr_all(t, r, acc + quotes(n)); assert(acc + quotes(n) + chars(t) =~= acc + chars(s)) by { if n > 0 { assert(s[0].c == '"'); } if n > 1 { assert(s[1].c == '"'); } }
        }
    } else {
        let x = s[0]; let t = s.skip(1);
        assert(mpiece(x)); assert(piece(x.p, x.c));
        lemma_mp_hd(s, q); lemma_mp_hd(s, seq![]); lemma_mp_skip(s); lemma_mstr_all(t, r, acc.push(x.c)); assert(acc.push(x.c) + chars(t) =~= acc + chars(s));
        assert(flat(t) + Seq::<char>::empty() =~= flat(t));
        lemma_cons(x.p, flat(t) + q); lemma_cons(x.p, flat(t));
        if x.p[0] == '\\' { lemma_esc_piece(x.p, x.c, flat(t) + q); lemma_esc_piece(x.p, x.c, flat(t)); }
        else { assert(x.p.skip(1) =~= seq![]); lemma_nil(x.p.skip(1), flat(t) + q); lemma_nil(x.p.skip(1), flat(t)); }
    }
}
pub proof fn lemma_mstring(s: Seq<Pc>) requires mpieces(s) ensures lexes(q3() + flat(s) + q3(), TT::Str(chars(s))) {
    let w = q3() + flat(s) + q3();
    assert forall|r: Seq<char>| isend(hd(r)) implies lex1(#[trigger] (w + r)) == Some((TT::Str(chars(s)), r)) by {
        let x = flat(s) + (q3() + r); let x2 = seq!['"'] + x; let x1 = seq!['"'] + x2;
        assert(w + r =~= seq!['"'] + x1); lemma_ch('"', x1); lemma_ch('"', x2); lemma_ch('"', x); lemma_mstr_all(s, r, seq![]); assert(seq![] + chars(s) =~= chars(s));
    }
}
/// a string that nothing closes
pub proof fn lemma_unclosed(g: Seq<char>, s: Seq<Pc>) requires gap(g, false) ensures pieces(s) && s.len() > 0 ==> lex(g + (seq!['"'] + flat(s))) is None, pieces(s) ==> lex(g + (seq!['"'] + (flat(s) + seq!['\\']))) is None, lex(g + seq!['"']) is None, mpieces(s) ==> lex(g + (q3() + flat(s))) is None {
    reveal(lex); let f = flat(s);
    lemma_skip_gap(g, false, seq!['"'] + f); lemma_ch('"', f); lemma_skip_gap(g, false, seq!['"'] + (f + seq!['\\'])); lemma_ch('"', f + seq!['\\']); lemma_skip_gap(g, false, seq!['"']); assert(seq!['"'] + Seq::<char>::empty() =~= seq!['"']); lemma_ch('"', seq![]);
    assert(sstr(seq![], seq![]) is None);
    if pieces(s) { lemma_sstr_all(s, seq![], seq![]); if s.len() > 0 { lemma_cons(f, seq!['\\']); } else { lemma_nil(f, seq!['\\']); } }
    if mpieces(s) { lemma_mstr_all(s, seq![], seq![]); lemma_skip_gap(g, false, q3() + f); let x2 = seq!['"'] + f; let x1 = seq!['"'] + x2; assert(q3() + f =~= seq!['"'] + x1); lemma_ch('"', x1); lemma_ch('"', x2); }
}
// ------------------------------------------------------------------ numbers and dates
pub open spec fn strip(b: Seq<char>) -> Seq<char> decreases b.len() { if b.len() == 0 { seq![] } else if b[0] == '_' { strip(b.skip(1)) } else { seq![b[0]] + strip(b.skip(1)) } }
pub open spec fn allnum(b: Seq<char>) -> bool { forall|i: int| 0 <= i < b.len() ==> isnum(#[trigger] b[i]) }
pub proof fn lemma_digu_all(b: Seq<char>, r: Seq<char>, acc: Seq<char>) requires allnum(b), !isnum(hd(r)) ensures digu(b + r, acc) == (acc + strip(b), r), forall|i: int| 0 <= i < strip(b).len() ==> isdig(#[trigger] strip(b)[i]) decreases b.len() {
    if b.len() == 0 { lemma_nil(b, r); assert(acc + strip(b) =~= acc); }
    else {
        lemma_cons(b, r); assert(isnum(b[0])); let t = b.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies isnum(#[trigger] t[i]) by { assert(t[i] == b[i + 1]); }
        let a2 = if b[0] == '_' { acc } else { acc.push(b[0]) };
        lemma_digu_all(t, r, a2); assert(a2 + strip(t) =~= acc + strip(b));
        assert forall|i: int| 0 <= i < strip(b).len() implies isdig(#[trigger] strip(b)[i]) by { if b[0] != '_' && i > 0 { assert(strip(b)[i] == strip(t)[i - 1]); } else if b[0] == '_' { assert(strip(b)[i] == strip(t)[i]); } }
    }
}
/// the sign of a number as written, and as kept
pub open spec fn sgn(s: Seq<char>) -> bool { s == Seq::<char>::empty() || s == seq!['+'] || s == seq!['-'] }
pub open spec fn kept(s: Seq<char>) -> Seq<char> { if s == seq!['-'] { s } else { seq![] } }
pub open spec fn numbody(b: Seq<char>) -> bool { b.len() > 0 && isdig(b[0]) && allnum(b) }
pub proof fn lemma_num_start(s: Seq<char>, b: Seq<char>, r: Seq<char>) requires sgn(s), numbody(b)
    ensures solid(s + b), hd(s + b + r) == '+' || hd(s + b + r) == '-' || isdig(hd(s + b + r)), lex_num(s + b + r) == num_rest(s == seq!['-'], (kept(s), b + r)), strip(b).len() > 0 {
    reveal(lex_num); lemma_as(s, b, r); lemma_cons(b, r); assert(isdig(b[0])); assert(strip(b)[0] == b[0]);
    if s.len() == 0 { lemma_nil(s, b + r); lemma_nil(s, b); } else { lemma_ch(s[0], b + r); assert(s =~= seq![s[0]]); lemma_cons(s, b); assert(s[0] == '+' || s[0] == '-'); }
    assert(seq!['+'][0] != seq!['-'][0]);
    assert(sign(s + b + r) == (kept(s), b + r));
}
pub open spec fn ival(s: Seq<char>, b: Seq<char>) -> int { if s == seq!['-'] { -dval(strip(b)) } else { dval(strip(b)) } }
/// an integer: its value
pub proof fn lemma_int(s: Seq<char>, b: Seq<char>) requires sgn(s), numbody(b), i64::MIN <= ival(s, b) <= i64::MAX
    ensures lexes(s + b, if s == seq!['-'] { TT::I64(ival(s, b) as i64) } else { TT::U64(ival(s, b) as u64) }), s != seq!['-'] ==> ival(s, b) >= 0 {
    let t = if s == seq!['-'] { TT::I64(ival(s, b) as i64) } else { TT::U64(ival(s, b) as u64) };
    lemma_num_start(s, b, seq![]); lemma_digu_all(b, seq![], seq![]); lemma_dval_pos(strip(b));
    assert forall|r: Seq<char>| isend(hd(r)) implies lex1(#[trigger] (s + b + r)) == Some((t, r)) by {
        lemma_num_start(s, b, r); lemma_digu_all(b, r, kept(s));
        let n = kept(s) + strip(b); let d = strip(b);
        assert(isdig(d[0]));
        if s == seq!['-'] { assert(n.skip(1) =~= d); assert(n[0] == '-'); } else { assert(n =~= d); }
        assert(body_i(n) == d); assert(val_i(n) == ival(s, b)); assert(alldig(d));
    }
}
/// a decimal: the number that its digits are
pub proof fn lemma_dec(s: Seq<char>, b: Seq<char>, f: Seq<char>) requires sgn(s), numbody(b), allnum(f), pf64(kept(s) + strip(b) + seq!['.'] + strip(f)) is Some
    ensures lexes(s + b + (seq!['.'] + f), TT::F64(pf64(kept(s) + strip(b) + seq!['.'] + strip(f))->0)) {
    let x = kept(s) + strip(b) + seq!['.'] + strip(f); let w = s + b + (seq!['.'] + f);
    lemma_num_start(s, b, seq!['.'] + f); lemma_cons(s + b, seq!['.'] + f);
    assert forall|r: Seq<char>| isend(hd(r)) implies lex1(#[trigger] (w + r)) == Some((TT::F64(pf64(x)->0), r)) by {
        let y = seq!['.'] + (f + r);
        assert(w + r =~= s + b + y); lemma_ch('.', f + r);
        lemma_num_start(s, b, y); lemma_digu_all(b, y, kept(s)); let d = kept(s) + strip(b); lemma_digu_all(f, r, d.push('.'));
        assert(d.push('.') + strip(f) =~= x);
    }
}
pub proof fn lemma_dats_all(e: Seq<char>, r: Seq<char>, acc: Seq<char>) requires forall|i: int| 0 <= i < e.len() ==> isdate(#[trigger] e[i]), isend(hd(r)) ensures dats(e + r, acc) == (acc + e, r) decreases e.len() {
    if e.len() == 0 { lemma_nil(e, r); assert(acc + e =~= acc); } else { lemma_cons(e, r); assert(isdate(e[0])); let t = e.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies isdate(#[trigger] t[i]) by { assert(t[i] == e[i + 1]); }
        lemma_dats_all(t, r, acc.push(e[0])); assert(acc.push(e[0]) + t =~= acc + e); }
}
/// a date: as written
pub proof fn lemma_date(y: Seq<char>, e: Seq<char>) requires alldig(y), forall|i: int| 0 <= i < e.len() ==> isdate(#[trigger] e[i]) ensures lexes(y + (seq!['-'] + e), TT::Date(y + (seq!['-'] + e))) {
    let w = y + (seq!['-'] + e); let s = Seq::<char>::empty();
    assert(isdig(y[0])); lemma_cons(y, seq!['-'] + e);
    lemma_strip_id(y);
    assert forall|r: Seq<char>| isend(hd(r)) implies lex1(#[trigger] (w + r)) == Some((TT::Date(w), r)) by {
        let q = seq!['-'] + (e + r); assert(w + r =~= s + y + q); lemma_ch('-', e + r);
        assert(s != seq!['-']) by { assert(s.len() == 0); }
        assert forall|i: int| 0 <= i < y.len() implies isnum(#[trigger] y[i]) by { assert(isdig(y[i])); }
        lemma_num_start(s, y, q); lemma_digu_all(y, q, seq![]); assert(seq![] + y =~= y); lemma_dats_all(e, r, y.push('-')); assert(y.push('-') + e =~= w);
    }
}
pub proof fn lemma_strip_id(y: Seq<char>) requires forall|i: int| 0 <= i < y.len() ==> isdig(#[trigger] y[i]) ensures strip(y) == y decreases y.len() {
    if y.len() == 0 { assert(strip(y) =~= y); } else { assert(isdig(y[0])); let t = y.skip(1); assert forall|i: int| 0 <= i < t.len() implies isdig(#[trigger] t[i]) by { assert(t[i] == y[i + 1]); } lemma_strip_id(t); assert(seq![y[0]] + t =~= y); }
}
// ------------------------------------------------------------------ values
/// what a value token means
pub open spec fn tokv(t: TT) -> Option<TVal> { match t { TT::BlockOpen => None, _ => match tval(t, seq![], 0) { Some((v, _)) => Some(v), None => None } } }
pub proof fn lemma_tokv(t: TT, q: Seq<char>, d: int) requires !(t is BlockOpen) ensures tval(t, q, d) == (match tokv(t) { Some(v) => Some((v, q)), None => None }) { }
/// a value as written: a token, or an array of values and commas
pub ghost enum AV { W(Seq<char>, Seq<char>, TT), L(Seq<char>, Box<AL>) }
pub ghost enum AL { End(Seq<char>), Com(Seq<char>, Box<AL>), Val(Box<AV>, Box<AL>) }
pub open spec fn vtext(v: AV) -> Seq<char> decreases v { match v { AV::W(g, w, _) => g + w, AV::L(g, l) => g + seq!['['] + atext(*l) } }
pub open spec fn atext(l: AL) -> Seq<char> decreases l { match l { AL::End(g) => g + seq![']'], AL::Com(g, t) => g + seq![','] + atext(*t), AL::Val(v, t) => vtext(*v) + atext(*t) } }
pub open spec fn vwf(v: AV) -> bool decreases v { match v { AV::W(g, w, t) => gap(g, false) && lexes(w, t) && tokv(t) is Some && !(t is BlockClose) && !(t is Comma), AV::L(g, l) => gap(g, false) && awf(*l) } }
pub open spec fn awf(l: AL) -> bool decreases l { match l { AL::End(g) => gap(g, false), AL::Com(g, t) => gap(g, false) && awf(*t), AL::Val(v, t) => vwf(*v) && awf(*t) && (*v is W ==> atext(*t).len() > 0 && isend(atext(*t)[0])) } }
pub open spec fn vdep(v: AV) -> int decreases v { match v { AV::W(..) => 0, AV::L(_, l) => 1 + adep(*l) } }
pub open spec fn adep(l: AL) -> int decreases l { match l { AL::End(_) => 0, AL::Com(_, t) => adep(*t), AL::Val(v, t) => if vdep(*v) > adep(*t) { vdep(*v) } else { adep(*t) } } }
pub open spec fn vmean(v: AV) -> TVal decreases v { match v { AV::W(_, _, t) => tokv(t)->0, AV::L(_, l) => TVal::Simple(amean(*l)) } }
pub open spec fn amean(l: AL) -> Seq<TVal> decreases l { match l { AL::End(_) => seq![], AL::Com(_, t) => amean(*t), AL::Val(v, t) => seq![vmean(*v)] + amean(*t) } }
pub open spec fn vtok(v: AV) -> TT { match v { AV::W(_, _, t) => t, AV::L(..) => TT::BlockOpen } }
pub proof fn lemma_dep(v: AV) ensures vdep(v) >= 0 decreases v { if let AV::L(_, l) = v { lemma_adep(*l); } }
pub proof fn lemma_adep(l: AL) ensures adep(l) >= 0 decreases l { match l { AL::End(_) => {}, AL::Com(_, t) => { lemma_adep(*t); } AL::Val(v, t) => { lemma_dep(*v); lemma_adep(*t); } } }
/// a value means what it says, arrays their elements in order
pub proof fn lemma_val(v: AV, d: int, r: Seq<char>) requires vwf(v), d + vdep(v) <= 128, v is W ==> isend(hd(r))
    ensures lex(vtext(v) + r) is Some, (lex(vtext(v) + r)->0).0 == vtok(v), tval(vtok(v), (lex(vtext(v) + r)->0).1, d) == Some((vmean(v), r)), vtext(v).len() > 0 decreases v {
    match v {
        AV::W(g, w, t) => { lemma_tok(g, w, t, r); lemma_tokv(t, r, d); }
        AV::L(g, l) => { let a = atext(*l) + r; lemma_as(g + seq!['['], atext(*l), r); lemma_punct(g, '[', a); lemma_adep(*l); lemma_arr(*l, d, r, seq![]); assert(seq![] + amean(*l) =~= amean(*l)); }
    }
}
pub proof fn lemma_arr(l: AL, d: int, r: Seq<char>, acc: Seq<TVal>) requires awf(l), d + 1 + adep(l) <= 128 ensures tarr(atext(l) + r, d, acc) == Some((TVal::Simple(acc + amean(l)), r)) decreases l {
    let q = atext(l) + r; lemma_lex(q);
    match l {
        AL::End(g) => { lemma_punct(g, ']', r); assert(acc + amean(l) =~= acc); }
        AL::Com(g, t) => { let x = atext(*t) + r; lemma_as(g + seq![','], atext(*t), r); lemma_punct(g, ',', x); lemma_arr(*t, d, r, acc); }
        AL::Val(v, t) => { let x = atext(*t) + r; lemma_as(vtext(*v), atext(*t), r); if *v is W { lemma_cons(atext(*t), r); }
            lemma_val(*v, d + 1, x); lemma_adep(*t); let m = vmean(*v); lemma_arr(*t, d, r, acc.push(m)); assert(acc.push(m) + amean(*t) =~= acc + amean(l));
            assert(x.len() < q.len()); }
    }
}
// ------------------------------------------------------------------ documents
pub ghost enum TL {
    /// key = value
    Kv(Seq<char>, Seq<char>, TT, Seq<char>, AV),
    /// [name]
    Sec(Seq<char>, Seq<char>, Seq<char>, TT, Seq<char>),
    /// [[name]]
    Arr(Seq<char>, Seq<char>, Seq<char>, Seq<char>, TT, Seq<char>, Seq<char>),
}
pub open spec fn br(g: Seq<char>, c: char, r: Seq<char>) -> Seq<char> { g + (seq![c] + r) }
/// a line, and what follows it
pub open spec fn lt(l: TL, r: Seq<char>) -> Seq<char> { match l {
    TL::Kv(g, w, _, ge, v) => g + (w + br(ge, '=', vtext(v) + r)),
    TL::Sec(g, g1, w, _, g2) => br(g, '[', g1 + (w + br(g2, ']', r))),
    TL::Arr(g, g1, g2, w, _, g3, g4) => br(g, '[', br(g1, '[', g2 + (w + br(g3, ']', br(g4, ']', r))))),
} }
pub open spec fn lwf(l: TL, r: Seq<char>) -> bool { match l {
    TL::Kv(g, w, t, ge, v) => gap(g, false) && lexes(w, t) && (scalar_tok(t) || t is Str) && gap(ge, false) && vwf(v) && vdep(v) <= 128 && (v is W ==> isend(hd(r))),
    TL::Sec(g, g1, w, t, g2) => gap(g, false) && gap(g1, false) && gap(g2, false) && lexes(w, t) && (t is Ident || t is Str),
    TL::Arr(g, g1, g2, w, t, g3, g4) => gap(g, false) && gap(g1, false) && gap(g2, false) && gap(g3, false) && gap(g4, false) && lexes(w, t) && scalar_tok(t),
} }
/// what a line does to the document
pub open spec fn lstep(l: TL, d: TDoc) -> Option<TDoc> { match l {
    TL::Kv(_, _, t, _, v) => Some(put(d, table(d).insert(fullkey(d.scope, ttext(t)), vmean(v)))),
    TL::Sec(_, _, _, t, _) => Some(section(d, ttext(t))),
    TL::Arr(_, _, _, _, t, _, _) => match start_arr(d.out, ttext(t)) { Some(o) => Some(TDoc { out: o, act: Some((ttext(t), arr_len(d.out, ttext(t)))), scope: seq![] }), None => None },
} }
pub proof fn lemma_line(l: TL, r: Seq<char>, d: TDoc) requires lwf(l, r) ensures tline(lt(l, r), d) == (match lstep(l, d) { Some(e) => Some((true, r, e)), None => None }), r.len() < lt(l, r).len() {
    reveal(tline);
    match l {
        TL::Kv(g, w, t, ge, v) => { let x = vtext(v) + r; lemma_gap_hd(ge, '=', x); lemma_tok(g, w, t, br(ge, '=', x)); lemma_punct(ge, '=', x); lemma_val(v, 0, r); }
        TL::Sec(g, g1, w, t, g2) => { let x = br(g2, ']', r); lemma_gap_hd(g2, ']', r); lemma_tok(g1, w, t, x); lemma_punct(g2, ']', r); lemma_punct(g, '[', g1 + (w + x)); }
        TL::Arr(g, g1, g2, w, t, g3, g4) => { let z = br(g4, ']', r); let x = br(g3, ']', z); let y = g2 + (w + x); lemma_gap_hd(g3, ']', z); lemma_punct(g4, ']', r); lemma_punct(g3, ']', z); lemma_tok(g2, w, t, x); lemma_punct(g1, '[', y); lemma_punct(g, '[', br(g1, '[', y)); }
    }
}
/// the text of a document that ends in a given way
pub open spec fn dtext(s: Seq<TL>, fin: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { fin } else { lt(s[0], dtext(s.skip(1), fin)) } }
pub open spec fn dwf(s: Seq<TL>, fin: Seq<char>) -> bool decreases s.len() { s.len() == 0 || lwf(s[0], dtext(s.skip(1), fin)) && dwf(s.skip(1), fin) }
/// its meaning: the lines' effects in order
pub open spec fn dmean(s: Seq<TL>, d: TDoc) -> Option<TDoc> decreases s.len() { if s.len() == 0 { Some(d) } else { match lstep(s[0], d) { Some(e) => dmean(s.skip(1), e), None => None } } }
pub proof fn lemma_lines(s: Seq<TL>, fin: Seq<char>, d: TDoc) requires dwf(s, fin) ensures tdoc(dtext(s, fin), d) == (match dmean(s, d) { Some(e) => tdoc(fin, e), None => None }) decreases s.len() {
    if s.len() > 0 { let r = dtext(s.skip(1), fin); lemma_line(s[0], r, d); if let Some(e) = lstep(s[0], d) { lemma_lines(s.skip(1), fin, e); } }
}
/// C16: a document of sections, arrays of tables and keys means exactly that
pub proof fn lemma_document(s: Seq<TL>, fin: Seq<char>) requires dwf(s, fin), gap(fin, true), dtext(s, fin).len() == 0 || dtext(s, fin).last() != '\0'
    ensures toml_of(dtext(s, fin)) == (match dmean(s, tdoc0()) { Some(e) => Some(e.out), None => None }) {
    lemma_lines(s, fin, tdoc0()); lemma_end(fin); reveal(tline);
}
// ------------------------------------------------------------------ malformed documents
/// no value starts here: the end, something else, or a string that is never closed (lemma_end, lemma_unclosed)
pub open spec fn stuck(q: Seq<char>) -> bool { match lex(q) { None => true, Some((t, _)) => !(t is BlockOpen) && tokv(t) is None } }
/// an array that is not closed before something that cannot go on
pub ghost enum PL { Here(Seq<char>), Com(Seq<char>, Box<PL>), Val(AV, Box<PL>), In(Seq<char>, Box<PL>) }
pub open spec fn ptext(l: PL) -> Seq<char> decreases l { match l { PL::Here(q) => q, PL::Com(g, t) => br(g, ',', ptext(*t)), PL::Val(v, t) => vtext(v) + ptext(*t), PL::In(g, t) => br(g, '[', ptext(*t)) } }
pub open spec fn pwf(l: PL) -> bool decreases l { match l { PL::Here(q) => stuck(q) && !(lex(q) is Some && ((lex(q)->0).0 is Comma || (lex(q)->0).0 is BlockClose)), PL::Com(g, t) => gap(g, false) && pwf(*t), PL::Val(v, t) => vwf(v) && pwf(*t) && (v is W ==> isend(hd(ptext(*t)))), PL::In(g, t) => gap(g, false) && pwf(*t) } }
/// one step of an array
pub proof fn lemma_ta_comma(q: Seq<char>, r: Seq<char>, d: int, acc: Seq<TVal>) requires lex(q) == Some((TT::Comma, r)) ensures tarr(q, d, acc) == tarr(r, d, acc) { lemma_lex(q); }
pub proof fn lemma_ta_none(q: Seq<char>, t: TT, r: Seq<char>, d: int, acc: Seq<TVal>) requires lex(q) == Some((t, r)), t != TT::BlockClose, t != TT::Comma, tval(t, r, d + 1) is None ensures tarr(q, d, acc) is None { lemma_lex(q); }
pub proof fn lemma_ta_val(q: Seq<char>, t: TT, r: Seq<char>, d: int, acc: Seq<TVal>, v: TVal, r2: Seq<char>) requires lex(q) == Some((t, r)), t != TT::BlockClose, t != TT::Comma, tval(t, r, d + 1) == Some((v, r2)) ensures tarr(q, d, acc) is Some ==> tarr(q, d, acc) == tarr(r2, d, acc.push(v)) { lemma_lex(q); }
pub proof fn lemma_ta_lex(q: Seq<char>, d: int, acc: Seq<TVal>) requires lex(q) is None ensures tarr(q, d, acc) is None { }
pub proof fn lemma_open_arr(l: PL, d: int, acc: Seq<TVal>) requires pwf(l), d < 128 ensures tarr(ptext(l), d, acc) is None decreases l {
    let q = ptext(l);
    match l {
        PL::Here(_) => { if let Some((t, r)) = lex(q) { lemma_tokv(t, r, d + 1); lemma_ta_none(q, t, r, d, acc); } else { lemma_ta_lex(q, d, acc); } }
        PL::Com(g, t) => { lemma_punct(g, ',', ptext(*t)); lemma_ta_comma(q, ptext(*t), d, acc); lemma_open_arr(*t, d, acc); }
        PL::Val(v, t) => { lemma_dep(v); let e = ptext(*t); assert(q == vtext(v) + e);
            if d + 1 + vdep(v) <= 128 { lemma_val(v, d + 1, e); let r = (lex(q)->0).1; lemma_ta_val(q, vtok(v), r, d, acc, vmean(v), e); lemma_open_arr(*t, d, acc.push(vmean(v))); }
            else { lemma_deep(v, d + 1, e); let r = (lex(q)->0).1; assert(vtok(v) is BlockOpen); lemma_ta_none(q, vtok(v), r, d, acc); } }
        PL::In(g, t) => { let e = ptext(*t); lemma_punct(g, '[', e); assert(lex(q) == Some((TT::BlockOpen, e))); if d + 1 < 128 { lemma_open_arr(*t, d + 1, seq![]); } assert(tval(TT::BlockOpen, e, d + 1) is None); lemma_ta_none(q, TT::BlockOpen, e, d, acc); }
    }
}
/// too deep
pub proof fn lemma_deep(v: AV, d: int, r: Seq<char>) requires vwf(v), d + vdep(v) > 128, d <= 128 || v is L, v is W ==> isend(hd(r))
    ensures lex(vtext(v) + r) is Some, (lex(vtext(v) + r)->0).0 == vtok(v), vtok(v) is BlockOpen ==> tval(vtok(v), (lex(vtext(v) + r)->0).1, d) is None, v is L decreases v {
    match v {
        AV::W(..) => { }
        AV::L(g, l) => { let a = atext(*l) + r; lemma_as(g + seq!['['], atext(*l), r); lemma_punct(g, '[', a); if d < 128 { lemma_deep_arr(*l, d, r, seq![]); } }
    }
}
pub proof fn lemma_deep_arr(l: AL, d: int, r: Seq<char>, acc: Seq<TVal>) requires awf(l), d + 1 + adep(l) > 128, d < 128 ensures tarr(atext(l) + r, d, acc) is None decreases l {
    let q = atext(l) + r; lemma_lex(q);
    match l {
        AL::End(_) => { }
        AL::Com(g, t) => { let x = atext(*t) + r; lemma_as(g + seq![','], atext(*t), r); lemma_punct(g, ',', x); lemma_deep_arr(*t, d, r, acc); }
        AL::Val(v, t) => { let x = atext(*t) + r; lemma_as(vtext(*v), atext(*t), r); if *v is W { lemma_cons(atext(*t), r); } lemma_dep(*v); lemma_adep(*t);
            if d + 1 + vdep(*v) > 128 { lemma_deep(*v, d + 1, x); } else { lemma_val(*v, d + 1, x); lemma_deep_arr(*t, d, r, acc.push(vmean(*v))); } }
    }
}
pub ghost enum Bad {
    /// a key without =
    NoEq(Seq<char>, Seq<char>, TT, Seq<char>),
    /// a key without a value
    NoVal(Seq<char>, Seq<char>, TT, Seq<char>, Seq<char>),
    /// an array that is not closed
    Open(Seq<char>, Seq<char>, TT, Seq<char>, Seq<char>, PL),
    /// an array of more than 128 levels
    Deep(Seq<char>, Seq<char>, TT, Seq<char>, AV, Seq<char>),
    /// a header without a name
    NoName(Seq<char>, Seq<char>),
    /// a header that is not closed
    NoClose(Seq<char>, Seq<char>, Seq<char>, TT, Seq<char>),
    /// the same for arrays of tables
    NoName2(Seq<char>, Seq<char>, Seq<char>),
    NoClose2(Seq<char>, Seq<char>, Seq<char>, Seq<char>, TT, Seq<char>),
    NoClose3(Seq<char>, Seq<char>, Seq<char>, Seq<char>, TT, Seq<char>, Seq<char>),
    /// something else than a line
    Junk(Seq<char>),
}
pub open spec fn iskey(t: TT) -> bool { scalar_tok(t) || t is Str }
pub open spec fn tok_of(q: Seq<char>) -> Option<TT> { match lex(q) { Some((t, _)) => Some(t), None => None } }
pub open spec fn btext(b: Bad) -> Seq<char> { match b {
    Bad::NoEq(g, w, _, q) => g + (w + q),
    Bad::NoVal(g, w, _, ge, q) => g + (w + br(ge, '=', q)),
    Bad::Open(g, w, _, ge, ga, p) => g + (w + br(ge, '=', br(ga, '[', ptext(p)))),
    Bad::Deep(g, w, _, ge, v, r) => g + (w + br(ge, '=', vtext(v) + r)),
    Bad::NoName(g, q) => br(g, '[', q),
    Bad::NoClose(g, g1, w, _, q) => br(g, '[', g1 + (w + q)),
    Bad::NoName2(g, g1, q) => br(g, '[', br(g1, '[', q)),
    Bad::NoClose2(g, g1, g2, w, _, q) => br(g, '[', br(g1, '[', g2 + (w + q))),
    Bad::NoClose3(g, g1, g2, w, _, g3, q) => br(g, '[', br(g1, '[', g2 + (w + br(g3, ']', q)))),
    Bad::Junk(q) => q,
} }
pub open spec fn bwf(b: Bad) -> bool { match b {
    Bad::NoEq(g, w, t, q) => gap(g, false) && lexes(w, t) && iskey(t) && isend(hd(q)) && tok_of(q) != Some(TT::Equals),
    Bad::NoVal(g, w, t, ge, q) => gap(g, false) && lexes(w, t) && iskey(t) && gap(ge, false) && stuck(q),
    Bad::Open(g, w, t, ge, ga, p) => gap(g, false) && lexes(w, t) && iskey(t) && gap(ge, false) && gap(ga, false) && pwf(p),
    Bad::Deep(g, w, t, ge, v, r) => gap(g, false) && lexes(w, t) && iskey(t) && gap(ge, false) && vwf(v) && vdep(v) > 128,
    Bad::NoName(g, q) => gap(g, false) && !(tok_of(q) matches Some(t) && (t is Ident || t is Str || t is BlockOpen)),
    Bad::NoClose(g, g1, w, t, q) => gap(g, false) && gap(g1, false) && lexes(w, t) && !(t is BlockOpen) && isend(hd(q)) && tok_of(q) != Some(TT::BlockClose),
    Bad::NoName2(g, g1, q) => gap(g, false) && gap(g1, false) && !(tok_of(q) matches Some(t) && scalar_tok(t)),
    Bad::NoClose2(g, g1, g2, w, t, q) => gap(g, false) && gap(g1, false) && gap(g2, false) && lexes(w, t) && isend(hd(q)) && tok_of(q) != Some(TT::BlockClose),
    Bad::NoClose3(g, g1, g2, w, t, g3, q) => gap(g, false) && gap(g1, false) && gap(g2, false) && gap(g3, false) && lexes(w, t) && tok_of(q) != Some(TT::BlockClose),
    Bad::Junk(q) => match tok_of(q) { None => true, Some(t) => t is Equals || t is Comma || t is BlockClose },
} }
pub proof fn lemma_bad(b: Bad, d: TDoc) requires bwf(b) ensures tline(btext(b), d) is None {
    reveal(tline);
    match b {
        Bad::NoEq(g, w, t, q) => { lemma_tok(g, w, t, q); }
        Bad::NoVal(g, w, t, ge, q) => { lemma_gap_hd(ge, '=', q); lemma_tok(g, w, t, br(ge, '=', q)); lemma_punct(ge, '=', q); if let Some((u, r)) = lex(q) { lemma_tokv(u, r, 0); } }
        Bad::Open(g, w, t, ge, ga, p) => { let q = br(ga, '[', ptext(p)); lemma_gap_hd(ge, '=', q); lemma_tok(g, w, t, br(ge, '=', q)); lemma_punct(ge, '=', q); lemma_punct(ga, '[', ptext(p)); lemma_open_arr(p, 0, seq![]); }
        Bad::Deep(g, w, t, ge, v, r) => { let q = vtext(v) + r; lemma_gap_hd(ge, '=', q); lemma_tok(g, w, t, br(ge, '=', q)); lemma_punct(ge, '=', q); lemma_deep(v, 0, r); }
        Bad::NoName(g, q) => { lemma_punct(g, '[', q); }
        Bad::NoClose(g, g1, w, t, q) => { lemma_punct(g, '[', g1 + (w + q)); lemma_tok(g1, w, t, q); }
        Bad::NoName2(g, g1, q) => { lemma_punct(g, '[', br(g1, '[', q)); lemma_punct(g1, '[', q); }
        Bad::NoClose2(g, g1, g2, w, t, q) => { let y = g2 + (w + q); lemma_punct(g, '[', br(g1, '[', y)); lemma_punct(g1, '[', y); lemma_tok(g2, w, t, q); }
        Bad::NoClose3(g, g1, g2, w, t, g3, q) => { let x = br(g3, ']', q); let y = g2 + (w + x); lemma_punct(g, '[', br(g1, '[', y)); lemma_punct(g1, '[', y); lemma_gap_hd(g3, ']', q); lemma_tok(g2, w, t, x); lemma_punct(g3, ']', q); }
        Bad::Junk(q) => { }
    }
}
/// C15: a document in which one line is malformed is an error, whatever comes before and after
pub proof fn lemma_malformed(s: Seq<TL>, b: Bad) requires dwf(s, btext(b)), bwf(b), dtext(s, btext(b)).len() == 0 || dtext(s, btext(b)).last() != '\0' ensures toml_of(dtext(s, btext(b))) is None {
    lemma_lines(s, btext(b), tdoc0()); if let Some(e) = dmean(s, tdoc0()) { lemma_bad(b, e); }
}
/// the premises above can be met
pub proof fn lemma_sample() ensures exists|s: Seq<TL>| s.len() == 1 && s[0] is Kv && #[trigger] dwf(s, seq!['\n']), exists|b: Bad| b is NoVal && #[trigger] bwf(b) {
    let k = seq!['a']; let n = seq!['7']; let e = Seq::<char>::empty();
    lemma_bare(k); lemma_udec(7); assert(udec(7) =~= n) by { assert(digit(7) == '7'); } lemma_strip_id(n); lemma_int(e, n); assert(e + n =~= n);
    assert(e != seq!['-']) by { assert(e.len() == 0); }
    let v = AV::W(seq![' '], n, TT::U64(7)); let l = TL::Kv(e, k, word(k), e, v);
    assert(gap(e, false)); assert(seq![' '].skip(1) =~= e); assert(gap(seq![' '], false));
    assert(vwf(v)); assert(vdep(v) == 0);
    let s = seq![l]; assert(s.skip(1) =~= seq![]); assert(dtext(s.skip(1), seq!['\n']) == seq!['\n']); assert(lwf(l, seq!['\n'])); assert(s[0] == l); assert(dwf(s.skip(1), seq!['\n'])); assert(dwf(s, seq!['\n']));
    lemma_end(e); let b = Bad::NoVal(e, k, word(k), e, e); assert(gap(e, true)); assert(stuck(e)); assert(bwf(b));
}
