"""Contracts for /repo/src/toml.rs."""
from asm import Unit, FnC
import bin as B
from ctext import rd, text


def unit():
    u = Unit('ctoml', ['toml'])
    u.min_verified = 146
    u.prelude = [B.common().replace('use vstd::utf8::*;', 'use vstd::utf8::*;\nuse vstd::std_specs::cmp::*;\nuse vstd::std_specs::convert::*;', 1), text(), rd('ttoml.rs'), rd('ttoml_lemmas.rs')]
    u.broadcast = 'broadcast use {ax_tv, lemma_ins_same, lemma_ins_ins, lemma_models_push, lemma_models_upd, lemma_models_nil, lemma_models_len, lemma_bm_nil};'
    u.text_subs = [(r'\.clone\(\)', '.v_clone()')]
    u.skip |= {('Default', 'TomlParser'), ('PartialEq', 'TomlTok'), ('PartialEq', 'Toml'), ('Clone', 'TomlErr')}
    q0 = 'jq(*old($0), *old($1))'
    q = 'jq(*$0, *$1)'
    qf = 'jq(*final($0), *final($1))'
    REQ = 'requires inv(*old($0), *old($1))\n'
    INV = 'inv(*final($0), *final($1)) /*#C15 C22*/, moved(*old($1), *final($1)) /*#C22*/,\n'
    ERR = '__r matches Err(e) ==> terr(e, *old($1), *final($1)) /*#C22*/'
    LI = 'inv(*$0, *$1), moved(*old($1), *$1)'

    def tok(spec):
        return REQ + 'ensures ' + INV + 'match __r { Ok(t) => %s == Some((tt(t), %s)), Err(_) => %s is None },\n' % (spec, qf, spec) + ERR
    S = {}
    S['next'] = FnC(REQ + 'ensures ' + INV + '%s == tl(%s)' % (qf, q0),
        {'start': 'proof { reveal(unread); reveal(atpos); if $1.pos() < $1.full().len() { lemma_pos_step($1.full(), $1.pos()); } lemma_norm(seq![$0.cur] + $1@); }',
         'end': '; proof { lemma_unread(old($0).cur, *old($1), $0.cur, *$1); }'})
    for n in ('err_token', 'err_parse'):
        S[n] = FnC('ensures __r.line == self.line, __r.col == self.col /*#C22*/')
    gap = 'tgap(%s) == tgap(%s)' % (q0, q)
    lx = 'lex(%s) == lex1(tgap(%s))' % (q0, q0)
    strv = '(if $l2 { mstr(%s, $l0@) } else { sstr(%s, $l0@) })' % (q, q)
    lxs = 'lex(%s) == (match __str { None => None::<(TT, Seq<char>)>, Some((s, r)) => Some((TT::Str(s), r)) })' % q0
    S['next_tok'] = FnC(tok('lex(%s)' % q0), {
        'start': 'proof { reveal(lex); }',
        'L0.spec': 'invariant %s, %s, %s ensures !isws(hd(%s)) decreases %s.len()' % (LI, gap, lx, q, q),
        'L1.spec': 'invariant %s, %s, %s, !isws(hd(%s)) decreases %s.len()' % (LI, gap, lx, q, q),
        'L1.start': 'let ghost __q1 = %s; proof { lemma_lend(__q1); lemma_quo(__q1, 0); }' % q,
        'L2.spec': 'invariant %s, lend(%s) == lend(__q1) ensures %s == lend(__q1) decreases %s.len()' % (LI, q, q, q),
        'L3.spec': 'invariant %s, %s, %s.len() < __q1.len() ensures !isws(hd(%s)) decreases %s.len()' % (LI, gap, q, q, q),
        'L4.spec': '''invariant %s, 1 <= $l1 <= 3, $l1 == 1 ==> Q == tl(__q1), $l1 == 2 ==> (Q == tl(tl(__q1)) && hd(tl(__q1)) == '"'), $l1 == 3 ==> (Q == tl(tl(tl(__q1))) && hd(tl(__q1)) == '"' && hd(tl(tl(__q1))) == '"')
          ensures $l1 == 3 || hd(Q) != '"' decreases 3 - $l1'''.replace('Q', q) % LI,
        'L5.pre': 'let ghost __str = %s; proof { assert(lex1(__q1) == (match __str { None => None::<(TT, Seq<char>)>, Some((s, r)) => Some((TT::Str(s), r)) })); }' % strv,
        'L5.spec': 'invariant_except_break %s == __str invariant %s, %s ensures __str == Some(($l0@, %s)) decreases %s.len()' % (strv, LI, lxs, q, q),
        'L5.start': 'let ghost __q2 = %s; proof { lemma_quo(__q2, 0); lemma_esc1(tl(__q2)); }' % q,
        'L6.spec': '''invariant %s, quo(%s, $l4 as int) == quo(__q2, 0), $l3@ =~= quotes($l4 as int), $l4 == __q2.len() - %s.len(), __q2.len() <= usize::MAX decreases %s.len()''' % (LI, q, q, q),
        'L6.after': 'proof { if $l4 >= 3 { assert($l3@.skip(3) =~= quotes($l4 - 3)); } }',
    })
    S['parse_unicode'] = FnC(REQ.rstrip() + ', $2 <= 8\nensures ' + INV + 'match __r { Some(c) => ucode(%s, $2 as int) == Some((c, %s)), None => ucode(%s, $2 as int) is None }' % (q0, qf, q0), {
        'L0.init': 'let ghost __n: int = 0;',
        'L0.spec': 'invariant %s, 0 <= __n <= $2 <= 8, hexn(%s, $2 as int, 0) == hexn(%s, $2 - __n, $l0 as int), $l0 < pow16(__n), __it0@.len() == $2 - __n ensures hexn(%s, $2 as int, 0) == Some(($l0 as int, %s)) decreases __it0@.len()' % (LI, q0, q, q0, q),
        'L0.start': 'proof { reveal_with_fuel(pow16, 9); reveal_with_fuel(hexn, 2); assert(pow16(__n) <= 0x1000_0000); }',
        'L0.end': 'proof { __n = __n + 1; }',
    })
    S['parse_ident'] = FnC(tok('lex_id(%s, $2@)' % q0), {
        'L0.pre': 'let ghost __i0 = idn(%s, $2@);' % q,
        'L0.spec': 'invariant %s, idn(%s, $2@) == __i0 ensures ($2@, %s) == __i0 decreases %s.len()' % (LI, q, q, q)})
    S['parse_num'] = FnC(tok('lex_num(%s)' % q0), {
        'start': 'proof { reveal(lex_num); let s = sign(%s); let n = three_nan(%s); let i = three_inf(%s); }' % (q, q, q),
        'L0.spec': 'invariant %s, digu(%s, $l0@) == __d0 ensures ($l0@, %s) == __d0 decreases %s.len()' % (LI, q, q, q),
        'L0.pre': 'let ghost __p0 = if hd(sign(%s).1) == \'n\' { (three_nan(%s).0, three_nan(%s).1) } else { (three_inf(%s).0, three_inf(%s).1) }; proof { assert($l0@ =~= __p0.0); assert(lex_num(%s) == num_rest($l1, __p0)); } let ghost __d0 = digu(%s, $l0@);' % (q0, q0, q0, q0, q0, q0, q),
        'L1.spec': 'invariant %s, digu(%s, $l0@) == __d1 ensures ($l0@, %s) == __d1 decreases %s.len()' % (LI, q, q, q),
        'L1.pre': 'let ghost __d1 = digu(%s, $l0@);' % q,
        'L2.spec': 'invariant %s, dats(%s, $l0@) == __d2 ensures ($l0@, %s) == __d2 decreases %s.len()' % (LI, q, q, q),
        'L2.pre': 'let ghost __d2 = dats(%s, $l0@);' % q,
    })
    S['to_val'] = FnC('''requires inv(*old($0), *old($2))
ensures inv(*final($0), *final($2)) /*#C15 C22*/, moved(*old($2), *final($2)) /*#C22*/,
  match __r { Ok(v) => tval(tt($1), QI, $3 as int) == Some((v.model(), QF)), Err(_) => tval(tt($1), QI, $3 as int) is None },
  __r matches Err(e) ==> terr(e, *old($2), *final($2)) /*#C22*/
decreases 128 - $3'''.replace('QI', 'jq(*old($0), *old($2))').replace('QF', 'jq(*final($0), *final($2))'), {
        'L0.spec': '''invariant_except_break tarr(jq(*$0, *$2), $3 as int, models($l0@)) == tarr(jq(*old($0), *old($2)), $3 as int, seq![]) invariant inv(*$0, *$2), moved(*old($2), *$2), $3 < 128, tval(tt($1), jq(*old($0), *old($2)), $3 as int) == tarr(jq(*old($0), *old($2)), $3 as int, seq![])
          ensures tarr(jq(*old($0), *old($2)), $3 as int, seq![]) == Some((TVal::Simple(models($l0@)), jq(*$0, *$2))) decreases jq(*$0, *$2).len()''',
        'L0.pre': 'proof { assert(models($l0@) =~= seq![]); }',
        'L0.start': 'let ghost __q1 = jq(*$0, *$2); let ghost __v1 = $l0@; proof { lemma_lex(__q1); if let Some((t, r)) = lex(__q1) { lemma_tval(t, r, $3 + 1); } }',
        'L0.end': 'proof { if $l0@.len() > __v1.len() { assert(models($l0@) =~= models(__v1).push($l0@.last().model())); } }',
    })
    S['parse_key_value'] = FnC('''requires inv(*old($0), *old($3))
ensures inv(*final($0), *final($3)) /*#C15 C22*/, moved(*old($3), *final($3)) /*#C22*/,
  match __r { Ok(_) => tkv(QI) is Some && QF == (tkv(QI)->0).1 && final($4).model() == old($4).model().insert(fullkey($1@, $2@), (tkv(QI)->0).0), Err(_) => tkv(QI) is None },
  __r matches Err(e) ==> terr(e, *old($3), *final($3)) /*#C22*/'''.replace('QI', 'jq(*old($0), *old($3))').replace('QF', 'jq(*final($0), *final($3))'), {
        'start': 'proof { lemma_fullkey($1@, $2@); }'})
    S['parse_line'] = FnC('''requires inv(*old($0), *old($1)), dinv(D0)
ensures inv(*final($0), *final($1)) /*#C15 C22*/, moved(*old($1), *final($1)) /*#C22*/,
  match __r { Ok(b) => tline(QI, D0) == Some((b, QF, odoc(*final($3), final($2)@))) && dinv(odoc(*final($3), final($2)@)), Err(_) => tline(QI, D0) is None },
'''.replace('QI', q0).replace('QF', qf).replace('D0', 'odoc(*old($3), old($2)@)') + ERR, {
        'start': 'proof { reveal(tline); lemma_tline(%s, odoc(*$3, $2@)); }' % q})
    S['parse'] = FnC('''requires $0@.len() <= isize::MAX
ensures match __r { Ok(m) => toml_of($0@) == Some(m.model()), Err(_) => toml_of($0@) is None },
  __r matches Err(e) ==> errin(e.line as int, e.col as int, $0@, 0, $0@.len() as int) /*#C22*/''', {
        'before:next#0': "proof { reveal(unread); let q = seq!['\\0'] + $0@; lemma_start($0@); assert($l0@ =~= $0@); }",
        'L0.spec': '''invariant_except_break tdoc(jq($l1, *$l0), odoc($l2, $l3@)) == tdoc(norm($0@), tdoc0()) invariant inv($l1, *$l0), $l0.full() == $0@, dinv(odoc($l2, $l3@))
          ensures match tdoc(norm($0@), tdoc0()) { Some(d) => d == odoc($l2, $l3@), None => false }
          decreases jq($l1, *$l0).len()''',
        'L0.cond': 'proof { lemma_tline(jq($l1, *$l0), odoc($l2, $l3@)); }',
    })
    u.impl(None, 'TomlParser', fns=S)
    u.impl('From<TomlTok>', 'String', fns={'from': FnC('ensures __r@ == ttext(tt($0))')})
    O = {}
    D0, D1 = 'odoc(*old($0), seq![])', 'odoc(*final($0), seq![])'
    O['start_array'] = FnC('''requires dinv(D0)
ensures match start_arr(D0.out, $1@) { None => !__r && D1 == D0, Some(o) => __r && D1 == (TDoc { out: o, act: Some(($1@, arr_len(D0.out, $1@))), scope: seq![] }) && dinv(D1) }'''.replace('D0', D0).replace('D1', D1))
    O['start_section'] = FnC('requires dinv(D0)\nensures D1 == (TDoc { scope: seq![], ..section(D0, $1@) }), dinv(D1)'.replace('D0', D0).replace('D1', D1), {
        'start': 'proof { if let Some(p) = odoc(*$0, seq![]).act { lemma_inside($1@, p.0); } }'})
    O['out'] = FnC('requires dinv(D0)\nensures __r.model() == table(D0), D1 == put(D0, final(__r).model())'.replace('D0', D0).replace('D1', D1))
    u.impl(None, 'Out', fns=O)
    A = {}
    for n, v, e in (('num', 'Num', '__r == self->Num_0'), ('str', 'Str', '__r@ == self->Str_0@'), ('boolean', 'Bool', '__r == self->Bool_0'), ('date', 'Date', '__r@ == self->Date_0@'), ('arr', 'Array', '*__r == self->Array_0'), ('simple_arr', 'SimpleArray', '*__r == self->SimpleArray_0')):
        A[n] = FnC('requires self is %s\nensures %s' % (v, e))
    u.impl(None, 'Toml', fns=A)
    u.impl('Index<usize>', 'Toml', inherent=True, fns={'index': FnC('requires self is Array, $1 < self->Array_0@.len()\nensures *__r == self->Array_0@[$1 as int]')})
    return u
