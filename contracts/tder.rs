// ================================================================== records: fields found by name
pub trait Obj: Sized {
    /// what has been read so far; what comes out
    type A;
    type F;
    spec fn init() -> Self::A;
    /// the field named k, its value first in s; a later value of the same field replaces an earlier one
    spec fn step(k: Seq<char>, s: JS, a: Self::A) -> Option<(Self::A, JS)>;
    /// the record, unless a field without a default is missing
    spec fn fin(a: Self::A) -> Option<Self::F>;
    /// the first missing field
    spec fn miss(a: Self::A) -> Option<Seq<char>>;
    proof fn lemma_step(k: Seq<char>, s: JS, a: Self::A) requires wfs(s.r)
        ensures Self::step(k, s, a) is Some ==> (wfs((Self::step(k, s, a)->0).1.r) && mes((Self::step(k, s, a)->0).1) <= mes(s));
}
//@if json
pub open spec fn iskey(s: JS) -> bool { s.t is Str }
pub open spec fn fkey(s: JS) -> Option<(Seq<char>, JS)> { match s.t { Tk::Str(k) => match adv(s.r) { None => None, Some(s1) => match eat(s1, Tk::Colon) { None => None, Some(s2) => Some((k, s2)) } }, _ => None } }
pub open spec fn fsep(s: JS) -> Option<JS> { eat_curly(s) }
pub open spec fn fo() -> Tk { Tk::CurlyOpen }
pub open spec fn fc() -> Tk { Tk::CurlyClose }
pub open spec fn foc() -> char { '{' }
pub open spec fn fcc() -> char { '}' }
/// `{"Name":`
pub open spec fn vhead(s: JS) -> Option<(Seq<char>, JS)> { match eat(s, Tk::CurlyOpen) { None => None, Some(s1) => fkey(s1) } }
//@if ron
pub open spec fn iskey(s: JS) -> bool { s.t is Ident }
pub open spec fn fkey(s: JS) -> Option<(Seq<char>, JS)> { match s.t { Tk::Ident(k) => match adv(s.r) { None => None, Some(s1) => match eat(s1, Tk::Colon) { None => None, Some(s2) => Some((k, s2)) } }, _ => None } }
pub open spec fn fsep(s: JS) -> Option<JS> { eat_sep(s, Tk::ParenClose) }
pub open spec fn fo() -> Tk { Tk::ParenOpen }
pub open spec fn fc() -> Tk { Tk::ParenClose }
pub open spec fn foc() -> char { '(' }
pub open spec fn fcc() -> char { ')' }
/// `Name`
pub open spec fn vhead(s: JS) -> Option<(Seq<char>, JS)> { match s.t { Tk::Ident(k) => match adv(s.r) { None => None, Some(s1) => Some((k, s1)) }, _ => None } }
//@end
pub open spec fn flds<O: Obj>(s: JS, a: O::A) -> Option<(O::A, JS)> decreases mes(s) {
    if !iskey(s) { Some((a, s)) } else { match fkey(s) { None => None, Some((k, s2)) => match O::step(k, s2, a) { None => None, Some((b, s3)) => match fsep(s3) { None => None, Some(s4) => if mes(s4) < mes(s) { flds::<O>(s4, b) } else { None } } } } }
}
pub open spec fn pflds<O: Obj>(s: JS) -> Option<(O::A, JS)> { match eat(s, fo()) { None => None, Some(s1) => match flds::<O>(s1, O::init()) { None => None, Some((a, s2)) => match eat(s2, fc()) { None => None, Some(s3) => Some((a, s3)) } } } }
pub open spec fn pobj<O: Obj>(s: JS) -> Option<(O::F, JS)> { match pflds::<O>(s) { None => None, Some((a, n)) => match O::fin(a) { None => None, Some(m) => Some((m, n)) } } }
pub open spec fn pmiss<O: Obj>(s: JS) -> Option<Seq<char>> { match pflds::<O>(s) { None => None, Some((a, n)) => O::miss(a) } }
pub open spec fn om<T: Model>(o: Option<T>) -> Option<T::M> { match o { Some(x) => Some(x.model()), None => None } }
/// an error caused by a missing field names it
pub open spec fn names(e: DeJsonErr, m: Option<Seq<char>>) -> bool { m matches Some(n) ==> e.msg matches DeJsonErrReason::MissingKey(k) && k@ == n }
pub proof fn lemma_mes_flds<O: Obj>(s: JS, a: O::A) requires wfs(s.r)
    ensures flds::<O>(s, a) is Some ==> (wfs((flds::<O>(s, a)->0).1.r) && mes((flds::<O>(s, a)->0).1) <= mes(s)) decreases mes(s)
{ broadcast use {lemma_wf_stream, lemma_adv};
    if iskey(s) { if let Some((k, s2)) = fkey(s) { O::lemma_step(k, s2, a); if let Some((b, s3)) = O::step(k, s2, a) { if let Some(s4) = fsep(s3) { if mes(s4) < mes(s) { lemma_mes_flds::<O>(s4, b); } } } } }
}
pub proof fn lemma_mes_obj<O: Obj>(s: JS) requires wfs(s.r) ensures pobj::<O>(s) is Some ==> (wfs(se(pobj::<O>(s)).r) && mes(se(pobj::<O>(s))) <= mes(s))
{ broadcast use {lemma_wf_stream, lemma_adv}; if let Some(s1) = eat(s, fo()) { lemma_mes_flds::<O>(s1, O::init()); } }
pub proof fn lemma_mes_vhead(s: JS) requires wfs(s.r) ensures vhead(s) is Some ==> (wfs((vhead(s)->0).1.r) && mes((vhead(s)->0).1) <= mes(s)) { broadcast use {lemma_wf_stream, lemma_adv}; }
pub proof fn lemma_mes_item<T: DeJson>(s: JS) requires wfs(s.r) ensures item::<T>(s) is Some ==> (wfs((item::<T>(s)->0).1.r) && mes((item::<T>(s)->0).1) <= mes(s)) { broadcast use {lemma_wf_stream, lemma_adv}; T::lemma_mes(s); }
//@if json
pub proof fn lemma_mes_skip(s: JS) requires wfs(s.r) ensures skip_value(s) is Some ==> (wfs((skip_value(s)->0).r) && mes(skip_value(s)->0) <= mes(s)) { broadcast use {lemma_wf_stream, lemma_adv}; lemma_mes_nest(s, 0); }
//@end

// ------------------------------------------------------------------ the text of a record
pub type En = (Seq<char>, Seq<char>);
pub open spec fn oe(es: Seq<En>, c: bool, k: Seq<char>, t: Seq<char>) -> Seq<En> { if c { es.push((k, t)) } else { es } }
pub open spec fn ot(ts: Seq<Seq<Tk>>, c: bool, t: Seq<Tk>) -> Seq<Seq<Tk>> { if c { ts.push(t) } else { ts } }
pub open spec fn obj(es: Seq<En>) -> Seq<char> { seq![foc()] + jo(es) + seq![fcc()] }
pub open spec fn otoks(es: Seq<En>, ts: Seq<Seq<Tk>>) -> Seq<Tk> { seq![fo()] + jt(es, ts) + seq![fc()] }
/// a text that is these tokens, whatever delimiter follows
pub open spec fn lxs(t: Seq<char>, ts: Seq<Tk>) -> bool { ts.len() >= 1 && ts[0] != Tk::Bad && ts[0] != Tk::Eof && forall|q: Seq<char>| delim(q) ==> #[trigger] stream(t + q) == ts + stream(q) }
pub proof fn lemma_lxs<T: RtJson>(x: T) requires x.rtok() ensures lxs(x.js(), x.toks()) {
    x.lemma_toks();
    assert forall|q: Seq<char>| delim(q) implies #[trigger] stream(x.js() + q) == x.toks() + stream(q) by { x.lemma_lexes(q); }
}
/// these tokens are read as the value of field k
#[verifier::opaque] pub open spec fn stp<O: Obj>(k: Seq<char>, ts: Seq<Tk>, a: O::A, b: O::A) -> bool { forall|r: Seq<Tk>| wfs(r) && r[0] != Tk::Bad ==> #[trigger] O::step(k, mk(ts + r), a) == Some((b, mk(r))) }
pub proof fn lemma_cat4<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>, d: Seq<A>) ensures a + b + c + d == a + (b + (c + d)) { assert(a + b + c + d =~= a + (b + (c + d))); }
//@if json
/// any name can be written
pub open spec fn plain(k: Seq<char>) -> bool { true }
pub open spec fn ntok(k: Seq<char>) -> Tk { Tk::Str(k) }
pub open spec fn ntext(k: Seq<char>) -> Seq<char> { quoted(k) }
pub proof fn lemma_name(k: Seq<char>, post: Seq<char>) requires plain(k) ensures stream(ntext(k) + post) == seq![ntok(k)] + stream(post) { lemma_quoted(k, post); }
pub proof fn lemma_commasp(post: Seq<char>) ensures stream(seq![',', ' '] + post) == seq![Tk::Comma] + stream(post) {
    assert(seq![',', ' '] + post =~= seq![','] + (seq![' '] + post)); lemma_punct(',', seq![' '] + post); reveal_with_fuel(isgap, 2); lemma_gap(seq![' '], post);
}
pub open spec fn jo(es: Seq<En>) -> Seq<char> decreases es.len() { if es.len() == 0 { seq![] } else { jo(es.drop_last()) + ((if es.len() > 1 { seq![','] } else { seq![] }) + (ntext(es.last().0) + (seq![':'] + es.last().1))) } }
pub open spec fn jt(es: Seq<En>, ts: Seq<Seq<Tk>>) -> Seq<Tk> decreases es.len() { if es.len() == 0 { seq![] } else { jt(es.drop_last(), ts.drop_last()) + ((if es.len() > 1 { seq![Tk::Comma] } else { seq![] }) + (seq![ntok(es.last().0)] + (seq![Tk::Colon] + ts.last()))) } }
pub proof fn lemma_jo_push(b: Seq<char>, es: Seq<En>, k: Seq<char>, t: Seq<char>)
    ensures ({ let w = if es.len() > 0 { (b + jo(es)) + seq![','] } else { b + jo(es) }; w + quoted(k) + seq![':'] + t == b + jo(es.push((k, t))) })
{ assert(es.push((k, t)).drop_last() =~= es); let w = if es.len() > 0 { (b + jo(es)) + seq![','] } else { b + jo(es) }; assert(w + quoted(k) + seq![':'] + t =~= b + jo(es.push((k, t)))); }
/// what may follow the fields read so far
pub open spec fn zok(z: Seq<Tk>) -> bool { wfs(z) && (z[0] == Tk::CurlyClose || (z[0] == Tk::Comma && z.len() >= 2 && z[1] is Str)) }
pub open spec fn after(z: Seq<Tk>) -> JS { if z[0] == Tk::Comma { mk(z.skip(1)) } else { mk(z) } }
pub open spec fn qok(q: Seq<char>) -> bool { q.len() > 0 && (q[0] == ',' || q[0] == '}') }
//@if ron
pub open spec fn plain(k: Seq<char>) -> bool { k.len() > 0 && isid(k[0]) && (forall|i: int| 0 <= i < k.len() ==> iscont(#[trigger] k[i])) && k != "true"@ && k != "false"@ }
pub open spec fn ntok(k: Seq<char>) -> Tk { Tk::Ident(k) }
pub open spec fn ntext(k: Seq<char>) -> Seq<char> { k }
pub proof fn lemma_name(k: Seq<char>, post: Seq<char>) requires plain(k), delim(post) ensures stream(k + post) == seq![ntok(k)] + stream(post) {
    reveal(lex); reveal(lex_id);
    assert(hd(k + post) == k[0]);
    lemma_idn_all(k, post, seq![]);
    assert(Seq::<char>::empty() + k =~= k);
    lemma_one(k, Tk::Ident(k), post);
}
pub proof fn lemma_commasp(post: Seq<char>) ensures stream(seq![',', ' '] + post) == seq![Tk::Comma] + stream(post) {
    assert(seq![',', ' '] + post =~= seq![','] + (seq![' '] + post)); lemma_punct(',', seq![' '] + post); reveal_with_fuel(isgap, 2); lemma_gap(seq![' '], post);
}
pub open spec fn jo(es: Seq<En>) -> Seq<char> decreases es.len() { if es.len() == 0 { seq![] } else { jo(es.drop_last()) + (ntext(es.last().0) + (seq![':'] + (es.last().1 + seq![',']))) } }
pub open spec fn jt(es: Seq<En>, ts: Seq<Seq<Tk>>) -> Seq<Tk> decreases es.len() { if es.len() == 0 { seq![] } else { jt(es.drop_last(), ts.drop_last()) + (seq![ntok(es.last().0)] + (seq![Tk::Colon] + (ts.last() + seq![Tk::Comma]))) } }
pub proof fn lemma_jo_push(b: Seq<char>, es: Seq<En>, k: Seq<char>, t: Seq<char>)
    ensures (b + jo(es)) + k + seq![':'] + t + seq![','] == b + jo(es.push((k, t)))
{ assert(es.push((k, t)).drop_last() =~= es); assert((b + jo(es)) + k + seq![':'] + t + seq![','] =~= b + jo(es.push((k, t)))); }
pub open spec fn zok(z: Seq<Tk>) -> bool { wfs(z) && z[0] != Tk::Bad }
pub open spec fn after(z: Seq<Tk>) -> JS { mk(z) }
pub open spec fn qok(q: Seq<char>) -> bool { true }
//@end
/// the fields es, written, are tokens that are read back as a
#[verifier::opaque] pub open spec fn good<O: Obj>(es: Seq<En>, ts: Seq<Seq<Tk>>, a: O::A) -> bool {
    &&& es.len() == ts.len()
    &&& es.len() == 0 ==> a == O::init()
    &&& forall|q: Seq<char>| qok(q) ==> #[trigger] stream(jo(es) + q) == jt(es, ts) + stream(q)
    &&& es.len() > 0 ==> jt(es, ts).len() > 0 && jt(es, ts)[0] != Tk::Bad && jt(es, ts)[0] != Tk::Eof
    &&& es.len() > 0 ==> forall|z: Seq<Tk>| zok(z) ==> #[trigger] flds::<O>(mk(jt(es, ts) + z), O::init()) == flds::<O>(after(z), a)
}
pub proof fn lemma_good_nil<O: Obj>() ensures good::<O>(Seq::empty(), Seq::empty(), O::init()) {
    reveal(good);
    assert forall|q: Seq<char>| qok(q) implies #[trigger] stream(jo(Seq::empty()) + q) == jt(Seq::empty(), Seq::empty()) + stream(q) by { assert(jo(Seq::empty()) + q =~= q); assert(jt(Seq::empty(), Seq::empty()) + stream(q) =~= stream(q)); }
}
/// one field: key, colon, value
pub proof fn lemma_fld1<O: Obj>(k: Seq<char>, tt: Seq<Tk>, a: O::A, b: O::A, z: Seq<Tk>)
    requires stp::<O>(k, tt, a, b), tt.len() >= 1, tt[0] != Tk::Bad, tt[0] != Tk::Eof, zok(z)
//@if json
    ensures flds::<O>(mk(seq![ntok(k)] + (seq![Tk::Colon] + (tt + z))), a) == flds::<O>(after(z), b)
{
    reveal(stp);
    let l2 = tt + z; let l1 = seq![Tk::Colon] + l2; let l0 = seq![ntok(k)] + l1;
    lemma_mk(ntok(k), l1); lemma_mk(Tk::Colon, l2);
    lemma_wfs_cat(tt, z);
    assert(mk(l2).r.len() < l2.len()) by { assert(l2[0] == tt[0]); }
    assert(fkey(mk(l0)) == Some((k, mk(l2))));
    assert(O::step(k, mk(l2), a) == Some((b, mk(z))));
    if z[0] == Tk::Comma { let w = z.skip(1); assert(mk(z) == JS { t: Tk::Comma, r: w }); assert(w[0] == z[1]); assert(fsep(mk(z)) == Some(mk(w))); }
    else { assert(fsep(mk(z)) == Some(mk(z))); }
    assert(mes(after(z)) < mes(mk(l0)));
}
//@if ron
    ensures flds::<O>(mk(seq![ntok(k)] + (seq![Tk::Colon] + (tt + (seq![Tk::Comma] + z)))), a) == flds::<O>(after(z), b)
{
    reveal(stp);
    let y = seq![Tk::Comma] + z;
    let l2 = tt + y; let l1 = seq![Tk::Colon] + l2; let l0 = seq![ntok(k)] + l1;
    lemma_mk(ntok(k), l1); lemma_mk(Tk::Colon, l2); lemma_mk(Tk::Comma, z);
    lemma_wfs_cat(seq![Tk::Comma], z);
    lemma_wfs_cat(tt, y);
    assert(l2[0] == tt[0]);
    assert(fkey(mk(l0)) == Some((k, mk(l2))));
    assert(O::step(k, mk(l2), a) == Some((b, mk(y))));
    assert(fsep(mk(y)) == Some(mk(z)));
    assert(mes(after(z)) < mes(mk(l0)));
}
//@end
pub proof fn lemma_good_push<O: Obj>(es: Seq<En>, ts: Seq<Seq<Tk>>, a: O::A, k: Seq<char>, t: Seq<char>, tt: Seq<Tk>, b: O::A)
    requires good::<O>(es, ts, a), lxs(t, tt), stp::<O>(k, tt, a, b), plain(k)
    ensures good::<O>(es.push((k, t)), ts.push(tt), b)
{
    reveal(good);
    let e2 = es.push((k, t)); let t2 = ts.push(tt);
    assert(e2.drop_last() =~= es); assert(t2.drop_last() =~= ts);
//@if json
    let sep = if es.len() > 0 { seq![','] } else { seq![] }; let stk = if es.len() > 0 { seq![Tk::Comma] } else { seq![] };
    let nk = seq![ntok(k)]; let cl = seq![Tk::Colon];
    assert forall|q: Seq<char>| qok(q) implies #[trigger] stream(jo(e2) + q) == jt(e2, t2) + stream(q) by {
        let q3 = t + q; let q2 = seq![':'] + q3; let q1 = ntext(k) + q2;
        assert(stream(q3) == tt + stream(q));
        lemma_punct(':', q3); lemma_name(k, q2);
        let s0 = stream(q);
        assert(stream(q1) == nk + (cl + (tt + s0)));
        if es.len() > 0 {
            lemma_punct(',', q1);
            let q0 = sep + q1;
            assert(qok(q0));
            assert(jo(e2) + q =~= jo(es) + q0);
            assert(stream(jo(es) + q0) == jt(es, ts) + stream(q0));
            assert(jt(es, ts) + (stk + (nk + (cl + (tt + s0)))) =~= jt(e2, t2) + s0);
        } else {
            assert(jo(es) =~= Seq::empty()); assert(jo(e2) =~= ntext(k) + (seq![':'] + t));
            assert(jo(e2) + q =~= q1);
            assert(nk + (cl + (tt + s0)) =~= jt(e2, t2) + s0);
        }
    }
    assert(jt(e2, t2)[0] == if es.len() > 0 { jt(es, ts)[0] } else { ntok(k) });
    assert forall|z: Seq<Tk>| zok(z) implies #[trigger] flds::<O>(mk(jt(e2, t2) + z), O::init()) == flds::<O>(after(z), b) by {
        let y = nk + (cl + (tt + z));
        lemma_fld1::<O>(k, tt, a, b, z);
        if es.len() > 0 {
            let w = stk + y;
            assert(jt(e2, t2) + z =~= jt(es, ts) + w);
            lemma_wfs_cat(tt, z); lemma_wfs_cat(cl, tt + z); lemma_wfs_cat(nk, cl + (tt + z)); lemma_wfs_cat(stk, y);
            assert(w[1] == y[0]); assert(w.skip(1) =~= y);
            assert(zok(w));
            assert(flds::<O>(mk(jt(es, ts) + w), O::init()) == flds::<O>(after(w), a));
        } else { assert(jt(e2, t2) + z =~= y); }
    }
//@if ron
    let nk = seq![ntok(k)]; let cl = seq![Tk::Colon]; let cm = seq![Tk::Comma];
    assert forall|q: Seq<char>| qok(q) implies #[trigger] stream(jo(e2) + q) == jt(e2, t2) + stream(q) by {
        let q4 = seq![','] + q; let q3 = t + q4; let q2 = seq![':'] + q3; let q1 = ntext(k) + q2;
        lemma_punct(',', q);
        assert(stream(q3) == tt + stream(q4));
        lemma_punct(':', q3); lemma_name(k, q2);
        let s0 = stream(q);
        assert(stream(q1) == nk + (cl + (tt + (cm + s0))));
        assert(qok(q1));
        assert(jo(e2) + q =~= jo(es) + q1);
        assert(stream(jo(es) + q1) == jt(es, ts) + stream(q1));
        assert(jt(es, ts) + (nk + (cl + (tt + (cm + s0)))) =~= jt(e2, t2) + s0);
    }
    assert(jt(e2, t2)[0] == if es.len() > 0 { jt(es, ts)[0] } else { ntok(k) });
    assert forall|z: Seq<Tk>| zok(z) implies #[trigger] flds::<O>(mk(jt(e2, t2) + z), O::init()) == flds::<O>(after(z), b) by {
        let y = nk + (cl + (tt + (cm + z)));
        lemma_fld1::<O>(k, tt, a, b, z);
        if es.len() > 0 {
            assert(jt(e2, t2) + z =~= jt(es, ts) + y);
            lemma_wfs_cat(cm, z); lemma_wfs_cat(tt, cm + z); lemma_wfs_cat(cl, tt + (cm + z)); lemma_wfs_cat(nk, cl + (tt + (cm + z)));
            assert(zok(y));
            assert(flds::<O>(mk(jt(es, ts) + y), O::init()) == flds::<O>(after(y), a));
        } else { assert(jt(e2, t2) + z =~= y); }
    }
//@end
}
pub proof fn lemma_good_lex<O: Obj>(es: Seq<En>, ts: Seq<Seq<Tk>>, a: O::A, post: Seq<char>) requires good::<O>(es, ts, a) ensures stream(obj(es) + post) == otoks(es, ts) + stream(post), obj(es).len() > 0, obj(es).last() == fcc(), otoks(es, ts)[0] == fo(), otoks(es, ts).len() >= 1
{
    reveal(good);
    let q = seq![fcc()] + post;
    lemma_punct(fcc(), post); lemma_punct(foc(), jo(es) + q);
    assert(obj(es) + post =~= seq![foc()] + (jo(es) + q));
    assert(stream(jo(es) + q) == jt(es, ts) + stream(q));
    let s0 = stream(post);
    assert(seq![fo()] + (jt(es, ts) + (seq![fc()] + s0)) =~= otoks(es, ts) + s0);
}
pub proof fn lemma_good_parse<O: Obj>(es: Seq<En>, ts: Seq<Seq<Tk>>, a: O::A, rest: Seq<Tk>) requires good::<O>(es, ts, a), wfs(rest), rest[0] != Tk::Bad ensures pflds::<O>(mk(otoks(es, ts) + rest)) == Some((a, mk(rest)))
{
    reveal(good);
    let z = seq![fc()] + rest; let y = jt(es, ts) + z;
    lemma_wfs_cat(seq![fc()], rest); lemma_mk(fc(), rest); lemma_mk(fo(), y);
    assert(otoks(es, ts) + rest =~= seq![fo()] + y);
    assert(zok(z));
    assert(y[0] == if es.len() > 0 { jt(es, ts)[0] } else { fc() });
    assert(after(z) == mk(z));
    if es.len() == 0 { assert(y =~= z); } else { assert(flds::<O>(mk(jt(es, ts) + z), O::init()) == flds::<O>(after(z), a)); }
    assert(!iskey(mk(z)));
    assert(flds::<O>(mk(y), O::init()) == Some((a, mk(z))));
}
