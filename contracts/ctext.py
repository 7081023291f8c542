"""Contracts for /repo/src/serde_json.rs and /repo/src/serde_ron.rs: one text, two formats.

The shared text is written with the JSON names; for RON the names are changed mechanically (Json -> Ron, json -> ron),
and what differs stands in //@if blocks or behind `ron` below."""
import re
import os
from asm import Unit, FnC
import bin as B

HERE = os.path.dirname(os.path.abspath(__file__))
UNS = ['usize', 'u64', 'u32', 'u16', 'u8']
SIG = ['i64', 'i32', 'i16', 'i8']


def rd(n, fmt=None):
    t = open(os.path.join(HERE, n)).read()
    if fmt is None:
        return t
    out, keep = [], True
    for l in t.split('\n'):
        m = re.match(r'//@if (\w+)$', l)
        if m:
            keep = m.group(1) == fmt
        elif l == '//@end':
            keep = True
        elif keep:
            out.append(l)
    return '\n'.join(out)


def text():
    t = rd('text.rs')
    d = []
    for k in ['u8', 'u16', 'u32', 'u64', 'u128', 'usize']:
        d.append('impl VDisp for %s { open spec fn sp_disp(&self) -> Seq<char> { udec(*self as int) } }' % k)
    for k in ['i8', 'i16', 'i32', 'i64', 'i128', 'isize']:
        d.append('impl VDisp for %s { open spec fn sp_disp(&self) -> Seq<char> { idec(*self as int) } }' % k)
    f = ['impl VToF for %s { open spec fn sp_f64(&self) -> f64 { f_int(*self as int) } open spec fn sp_f32(&self) -> f32 { f32_int(*self as int) } }' % k for k in ['u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize']]
    return t.replace('//@DISP_INTS', '\n'.join(d)).replace('//@TOF_INTS', '\n'.join(f))


BROADCAST = 'broadcast use {lemma_wf_stream, lemma_adv};'
REQ = 'requires inv0(*old($0), *old($1))\n'
INV0 = 'inv0(*final($0), *final($1)) /*#C08 C22*/, moved(*old($1), *final($1)) /*#C22*/,\n'
INV = 'inv0(*final($0), *final($1)) /*#C08 C22*/, __r is Ok ==> numok(tk(*final($0))), moved(*old($1), *final($1)) /*#C22*/,\n'
JERR = '__r matches Err(e) ==> jerr(e, *old($1), *final($1)) /*#C22*/'
JO = 'jst(*old($0), *old($1))'
JF = 'jst(*final($0), *final($1))'


def step(spec):
    """a method that consumes tokens: spec is an Option<JS> over the old state"""
    return REQ + 'ensures ' + INV + 'match __r { Ok(_) => %s == Some(%s), Err(_) => %s is None },\n' % (spec.replace('JO', JO), JF, spec.replace('JO', JO)) + JERR


DE = 'requires inv(*old($0), *old($1))\nensures ' + INV + 'match __r { Ok(v) => Self::parse(%s) == Some((v.model(), %s)), Err(_) => Self::parse(%s) is None },\n' % (JO, JF, JO) + JERR

PEEK = '''ensures *final(self) == *old(self),
  match __r { Ok(v) => %s == Some(v), Err(_) => %s is None },
  __r matches Err(e) ==> e.line == final(self).line && e.col == final(self).col /*#C22*/'''


def build(fmt):
    ron = fmt == 'ron'
    X = (lambda t: t.replace('Json', 'Ron').replace('json', 'ron')) if ron else (lambda t: t)  # names
    AO, AC, ao, ac = ('Tk::ParenOpen', 'Tk::ParenClose', '(', ')') if ron else ('Tk::BlockOpen', 'Tk::BlockClose', '[', ']')
    SERX, DEX = X('SerJson'), X('DeJson')
    LOOPINV = 'inv0(*$0, *$1), moved(*old($1), *$1)'
    u = Unit(X('cjson'), [X('serde_json')])
    u.min_verified = 360
    u.text_subs = [(r'\bd \+ 1\b', 'v_deeper(d, 1)')]
    u.prelude = [B.common().replace('use vstd::utf8::*;', 'use vstd::utf8::*;\nuse vstd::std_specs::cmp::*;', 1), text(), rd('ttext.rs', fmt)]
    u.broadcast = BROADCAST
    u.skip |= {(a, X(b)) for a, b in [('Clone', 'DeJsonErr'), ('Clone', 'DeJsonErrReason'), ('Default', 'DeJsonTok'), ('Default', 'DeJsonState'), ('Clone', 'DeJsonTok'), ('PartialEq', 'DeJsonTok')]}
    u.traits[SERX] = dict(bounds='Model', members='spec fn js(&self) -> Seq<char>;', methods={
        X('serialize_json'): FnC('ensures __r@ == self.js()', {'tail': 'proof { assert($l0.out@ =~= self.js()); }'}),
        X('ser_json'): FnC('ensures final($2).out@ == old($2).out@ + self.js()'),
    })
    u.traits[DEX] = dict(bounds='Model', members='''
spec fn parse(s: JS) -> Option<(Self::M, JS)>;
proof fn lemma_mes(s: JS) requires wfs(s.r) ensures Self::parse(s) is Some ==> (wfs(se(Self::parse(s)).r) && mes(se(Self::parse(s))) <= mes(s));
''', methods={
        X('deserialize_json'): FnC('''requires $0@.len() <= isize::MAX
ensures match __r { Ok(v) => adv(stream(norm($0@))) is Some && Self::parse(adv(stream(norm($0@)))->0) is Some && v.model() == sm(Self::parse(adv(stream(norm($0@)))->0)),
  Err(_) => adv(stream(norm($0@))) is None || Self::parse(adv(stream(norm($0@)))->0) is None },
  __r matches Err(e) ==> errin(e.line as int, e.col as int, $0@, 0, $0@.len() as int) /*#C22*/''',
            {'start': 'proof { lemma_norm($0@); }',
             'before:next#0': 'proof { reveal(unread); let q = seq![\'\\0\'] + $0@; lemma_start($0@); assert($l1@ =~= $0@); }',
             'after:next#0': 'proof { lemma_stream(jq($l0, $l1)); }'}),
        X('de_json'): FnC(DE),
    })
    u.prelude.append('''
/// what a whole text means as a T
pub open spec fn json_of<T: DeJson>(t: Seq<char>) -> Option<T::M> { match adv(stream(norm(t))) { None => None, Some(s) => match T::parse(s) { None => None, Some((m, _)) => Some(m) } } }
pub proof fn lemma_start(t: Seq<char>) ensures hd(norm(seq!['\\0'] + t)) == '\\0', tl(norm(seq!['\\0'] + t)) == norm(t), atpos(0, 0, t, 0), norm(seq!['\\0'] + t).len() <= t.len() + 1
{ reveal(atpos); lemma_norm(seq!['\\0'] + t); assert((seq!['\\0'] + t).skip(1) =~= t); assert(t.take(0) =~= Seq::empty()); }
''')
    S = {}
    S['next'] = FnC(REQ + '''ensures ''' + INV0 + '''jq(*final($0), *final($1)) == tl(jq(*old($0), *old($1))),
  final($0).tok == old($0).tok, final($0).strbuf == old($0).strbuf, final($0).numbuf == old($0).numbuf, final($0).identbuf == old($0).identbuf''',
        {'start': 'proof { reveal(unread); reveal(atpos); if $1.pos() < $1.full().len() { lemma_pos_step($1.full(), $1.pos()); } lemma_norm(seq![$0.cur] + $1@); }',
         'end': '; proof { lemma_unread(old($0).cur, *old($1), $0.cur, *$1); }'})
    for n in ('exp', 'nf', 'enum', 'token', 'range', 'type', 'parse'):
        S['err_' + n] = FnC('ensures __r.line == self.line, __r.col == self.col /*#C22*/' + (', __r.msg matches %s::MissingKey(k) && k@ == $1@' % X('DeJsonErrReason') if n == 'nf' else ''))
    S['eat_comma_block'] = FnC(step('eat_block(JO)'))
    S['eat_comma_curly'] = FnC(step('eat_curly(JO)'))
    KEEP = ('' if ron else '__r is Ok ==> (tk(*final($0)) is Str || final($0).strbuf@ == old($0).strbuf@),\n')
    keep = lambda c: c.replace(JERR, KEEP + JERR)
    S['colon'] = FnC(keep(step('eat(JO, Tk::Colon)')))
    if ron:
        S['eat_comma_paren'] = FnC(step('eat_sep(JO, Tk::ParenClose)'))
        S['ident'] = FnC(step('(if JO.t is Ident { adv(JO.r) } else { None })'))
        S['next_ident'] = FnC('ensures *final(self) == *old(self), __r is Some <==> tk(*old(self)) is Ident')
    else:
        S['string'] = FnC(keep(step('(if JO.t is Str { adv(JO.r) } else { None })')))
        S['next_str'] = FnC('ensures *final(self) == *old(self), __r is Some <==> tk(*old(self)) is Str')
    S['next_colon'] = FnC(step('(match adv(JO.r) { None => None, Some(s) => eat(s, Tk::Colon) })'))
    for n, t in (('block_open', 'BlockOpen'), ('block_close', 'BlockClose'), ('curly_open', 'CurlyOpen'), ('curly_close', 'CurlyClose')) + ((('paren_open', 'ParenOpen'), ('paren_close', 'ParenClose')) if ron else ()):
        S[n] = FnC(step('eat(JO, Tk::%s)' % t))
    S['u64_range'] = FnC(PEEK % (('range_u(tk(*old(self)), $1 as int)',) * 2))
    S['i64_range'] = FnC('requires $1 <= 0 <= $2, numok(tk(*old(self)))\n' + PEEK % (('range_i(tk(*old(self)), $1 as int, $2 as int)',) * 2))
    S['as_f64'] = FnC('ensures *final(self) == *old(self), __r is Ok <==> (tk(*old(self)) is U64 || tk(*old(self)) is I64 || tk(*old(self)) is F64), __r matches Ok(v) ==> v == (match tk(*old(self)) { Tk::F64(x, _) => x, Tk::U64(n, _) => f_int(n as int), Tk::I64(n, _) => f_int(n as int), _ => v }),\n  __r matches Err(e) ==> e.line == final(self).line && e.col == final(self).col /*#C22*/')
    S['as_bool'] = FnC(PEEK % (('(match tk(*old(self)) { Tk::Bool(b) => Some(b), %s_ => None })' % ('Tk::U64(v, _) => Some(v != 0), ' if ron else ''),) * 2))
    S['as_string'] = FnC('''ensures ({ let o = *old(self); let f = *final(self); f.cur == o.cur && f.tok == o.tok && f.numbuf == o.numbuf && f.line == o.line && f.col == o.col }),
  match __r { Ok(v) => tk(*old(self)) == Tk::Str(v@), Err(e) => !(tk(*old(self)) is Str) && e.line == final(self).line && e.col == final(self).col }''')
    u.prelude.append('''
pub open spec fn range_u(t: Tk, max: int) -> Option<u64> { match t { Tk::U64(v, _) => if v <= max { Some(v) } else { None }, _ => None } }
pub open spec fn range_i(t: Tk, min: int, max: int) -> Option<i64> { match t { Tk::I64(v, _) => if v >= min { Some(v) } else { None }, Tk::U64(v, _) => if v <= max { Some(v as i64) } else { None }, _ => None } }
''')
    if not ron:
      S['whole_field'] = FnC(step('skip_value(JO)'), {
        'start': 'let ghost __s0 = jst(*$0, *$1); proof { lemma_stream(jq(*$0, *$1)); }',
        'L0.spec': '''invariant_except_break wfs(jst(*$0, *$1).r), $l0 > 0 || tk(*$0) is BlockOpen || tk(*$0) is CurlyOpen,
          skip_nest(__s0, 0) == skip_nest(jst(*$0, *$1), $l0 as int), $l0 + mes(jst(*$0, *$1)) <= mes(__s0)
        invariant %s, __s0 == JO, mes(__s0) <= usize::MAX, __s0.t is BlockOpen || __s0.t is CurlyOpen
        ensures %s, numok(tk(*$0)), skip_nest(__s0, 0) == Some(jst(*$0, *$1))
        decreases mes(jst(*$0, *$1))'''.replace('JO', JO) % (LOOPINV, LOOPINV)})
    # the tokenizer
    SB = '' if ron else '__r is Ok ==> (tk(*final($0)) is Str || final($0).strbuf@ == old($0).strbuf@),\n'  # where the derived code looks at the name of a variant
    TOKINV, LOOPINV0 = LOOPINV if ron else LOOPINV + ', $0.strbuf == old($0).strbuf', LOOPINV
    LOOPINV = TOKINV
    q0 = 'jq(*old($0), *old($1))'
    q = 'jq(*$0, *$1)'
    num = lambda a: 'invariant %s, digs(%s, $0.numbuf@) == __d%d ensures %s, ($0.numbuf@, %s) == __d%d decreases %s.len()' % (LOOPINV, q, a, LOOPINV, q, a, q)
    gap = 'skip_gap(%s) == skip_gap(%s)' % (q0, q)
    S['next_tok'] = FnC(REQ + 'ensures ' + INV + '''match __r { Ok(_) => lex(JQ) == Some((tk(*final($0)), jq(*final($0), *final($1)))), Err(_) => lex(JQ) is None },
   match __r { Ok(_) => adv(JOR) == Some(JF), Err(_) => adv(JOR) is None },\n'''.replace('JQ', q0).replace('JOR', 'stream(%s)' % q0).replace('JF', JF) + SB + JERR, {
        'start': 'proof { lemma_stf(%s); }' % q0,
        'L0.spec': 'invariant_except_break %s invariant stf(jq(*old($0), *old($1))), %s ensures %s, skip_gap(%s) == Some(%s), hd(%s) != \'\\0\', hd(%s) != \'/\', !isws(hd(%s)) decreases %s.len()' % (gap, LOOPINV, LOOPINV, q0, q, q, q, q, q),
        'L0.start': 'let ghost __q1 = %s;' % q,
        'L1.spec': 'invariant %s, %s, %s.len() <= __q1.len() decreases %s.len()' % (LOOPINV, gap, q, q),
        'L1.after': 'let ghost __q2 = %s; proof { lemma_lend(tl(__q2)); lemma_cend(tl(tl(__q2)), \'\\0\'); }' % q,
        'L2.spec': ('invariant_except_break lend(%s) == lend(tl(__q2)) invariant %s ensures %s, %s == (if hd(lend(tl(__q2))) == \'\\0\' { lend(tl(__q2)) } else { tl(lend(tl(__q2))) }) decreases %s.len()' % (q, LOOPINV, LOOPINV, q, q)) if ron else
                   ('invariant %s, lend(%s) == lend(tl(__q2)) ensures %s, %s == lend(tl(__q2)) decreases %s.len()' % (LOOPINV, q, LOOPINV, q, q)),
        'L2.after': 'proof { let l = lend(tl(__q2)); if hd(l) == \'\\n\' { assert(isws(l[0])); assert(skip_gap(l) == skip_gap(tl(l))); } }' if ron else '',
        'L3.start': 'proof { lemma_cend_last(tl(%s), hd(%s)); }' % (q, q) if ron else '',
        'L3.spec': ('invariant_except_break cend(%s, if $l0 { \'*\' } else { \'\\0\' }) == cend(tl(tl(__q2)), \'\\0\') invariant stf(jq(*old($0), *old($1))), skip_gap(jq(*old($0), *old($1))) == skip_gap(__q2), hd(__q2) == \'/\', hd(tl(__q2)) == \'*\', %s ensures %s, cend(tl(tl(__q2)), \'\\0\') == Some(%s) decreases %s.len()' % (q, LOOPINV, LOOPINV, q, q)) if ron else 'invariant_except_break hd(%s) != \'\\0\', cend(tl(%s), $l0) == cend(tl(tl(__q2)), \'\\0\') invariant stf(jq(*old($0), *old($1))), skip_gap(jq(*old($0), *old($1))) == skip_gap(__q2), hd(__q2) == \'/\', hd(tl(__q2)) == \'*\', %s ensures %s, cend(tl(tl(__q2)), \'\\0\') == Some(%s) decreases %s.len()' % (q, q, LOOPINV, LOOPINV, q, q),
        "arm:'.'|'-'|'+'|'0'..='9'#0" if ron else "arm:'-'|'+'|'0'..='9'#0": 'let ghost __n0 = %s; proof { lemma_num(__n0); reveal(lex_num); }' % q,
        'L4.pre': 'let ghost __d0 = digs(sign(__n0).1, sign(__n0).0); proof { assert($0.numbuf@ =~= sign(__n0).0); }', 'L4.spec': num(0),
        'L5.pre': 'let ghost __d1 = frac(__d0);', 'L5.spec': num(1),
        'L6.pre': 'let ghost __d2 = expo(frac(__d0));', 'L6.spec': num(2),
        'L7.pre': 'proof { reveal(lex_id); } let ghost __i0 = idn(%s, seq![]); let ghost __iq = %s; proof { assert($0.identbuf@ =~= seq![]); }' % (q, q),
        'L7.spec': 'invariant %s, idn(%s, $0.identbuf@) == __i0 ensures %s, ($0.identbuf@, %s) == __i0 decreases %s.len()' % (LOOPINV, q, LOOPINV, q, q),
        'L8.pre': 'let ghost __t0 = %s; let ghost __str = lex_str(__t0, seq![]); proof { assert($0.strbuf@ =~= seq![]); }' % q,
        'L8.spec': 'invariant stf(jq(*old($0), *old($1))), %s, lex_str(%s, $0.strbuf@) == __str, lex_str(__t0, seq![]) == __str, lex(%s) == (match __str { None => None::<(Tk, Seq<char>)>, Some((s, r)) => Some((Tk::Str(s), r)) }) ensures %s, __str == Some(($0.strbuf@, tl(%s))) decreases %s.len()' % (LOOPINV0, q, q0, LOOPINV0, q, q),
        'L8.start': 'proof { lemma_uesc(tl(tl(%s))); }' % q,
    })
    LOOPINV = LOOPINV0
    S['hex_unescape_char'] = FnC(REQ + 'ensures ' + INV0 + '''match __r { Some(c) => uesc(tl(JQ)) == Some((c, jq(*final($0), *final($1)))), None => uesc(tl(JQ)) is None },
  final($0).strbuf == old($0).strbuf'''.replace('JQ', q0), {
        'start': 'proof { lemma_hexn(tl(%s), 4, 0); lemma_surr(); }' % q,
    })
    u.fns['xdigit4'] = FnC(REQ + 'ensures ' + INV0 + '''match __r { Some(v) => hexn(JQ, 4, 0) == Some((v as int, jq(*final($0), *final($1)))), None => hexn(JQ, 4, 0) is None },
  final($0).strbuf == old($0).strbuf'''.replace('JQ', q0), {
        'L0.init': 'let ghost __n: int = 0;',
        'L0.spec': '''invariant_except_break 0 <= __n <= 4, __it0@.len() == 4 - __n, __ok0, $0.strbuf == old($0).strbuf, hexn(%s, 4, 0) == hexn(%s, 4 - __n, __acc0 as int), __acc0 < pow16(__n) invariant %s
         ensures %s, $0.strbuf == old($0).strbuf, __ok0 ==> hexn(%s, 4, 0) == Some((__acc0 as int, %s)), !__ok0 ==> hexn(%s, 4, 0) is None decreases __it0@.len()''' % (q0, q, LOOPINV, LOOPINV, q0, q, q0),
        'L0.start': 'proof { reveal_with_fuel(pow16, 5); reveal_with_fuel(hexn, 2); assert(pow16(__n) <= 4096); }',
        'L0.end': 'proof { __n = __n + 1; }',
    })
    LOOPINV = 'inv(*$0, *$1), moved(*old($1), *$1)'
    u.impl(None, X('DeJsonState'), fns=S)
    def push(txt):
        return FnC('ensures final(self).out@ == old(self).out@ + ' + txt, {'end': '; proof { assert(self.out@ =~= old(self).out@ + %s); }' % txt})
    F = {'indent': FnC('ensures final(self).out@ == old(self).out@'), 'conl': push("seq![',']"), 'st_pre': push("seq!['%s']" % ('(' if ron else '{')), 'st_post': push("seq!['%s']" % (')' if ron else '}'))}
    if ron:
        F['field'] = push("$2@ + seq![':']")
    else:
        F.update({'new': FnC('ensures __r.out == $0'), 'field': push("quoted($2@) + seq![':']"), 'label': push('quoted($1@)')})
    u.impl(None, X('SerJsonState'), fns=F)
    # ---- values
    AP = '; proof { assert($2.out@ =~= old($2).out@ + self.js()); }'

    def ser(ty, js, slots=None, where=''):
        s = {'end': AP}
        s.update(slots or {})
        u.impl(SERX, ty, members='open spec fn js(&self) -> Seq<char> { %s }' % js, fns={X('ser_json'): FnC('', s)}, where=where)

    def de(ty, parse, mes='', slots=None, trusted=None, where=''):
        u.impl(DEX, ty, members='open spec fn parse(s: JS) -> Option<(Self::M, JS)> { %s }\nproof fn lemma_mes(s: JS) { %s %s }' % (parse, BROADCAST, mes),
               fns={X('de_json'): FnC('', slots, trusted=trusted)}, where=where)

    def after(val):  # value known, one token consumed
        return '(match adv(s.r) { None => None, Some(n) => Some((%s, n)) })' % val
    for t in UNS:
        ser(t, 'udec(*self as int)')
        de(t, 'match range_u(s.t, %s::MAX as int) { None => None, Some(v) => %s }' % (t, after('v as %s' % t)))
    for t in SIG:
        ser(t, 'idec(*self as int)')
        de(t, 'match range_i(s.t, %s::MIN as int, %s::MAX as int) { None => None, Some(v) => %s }' % (t, t, after('v as %s' % t)))
    for n in ('64', '32'):
        ser('f' + n, 'fmt%s(*self)' % n)
        de('f' + n, 'match s.t { Tk::U64(_, n) | Tk::I64(_, n) | Tk::F64(_, n) => match pf%s(n) { Some(x) => %s, None => None }, _ => None }' % (n, after('bits%s(x)' % n)))
    NONE = '"None"@' if ron else '"null"@'
    TNONE = 'Tk::Ident("None"@)' if ron else 'Tk::Null'
    ser('Option<T>', 'match self { Some(x) => x.js(), None => %s }' % NONE)
    de('Option<T>', 'if s.t == %s { %%s } else { match T::parse(s) { None => None, Some((m, n)) => Some((Some(m), n)) } }' % TNONE % after('None'), 'T::lemma_mes(s);')
    if ron:
        ser('()', '"()"@')
        de('()', 'match eat(s, Tk::ParenOpen) { None => None, Some(n) => match eat(n, Tk::ParenClose) { None => None, Some(e) => Some(((), e)) } }')
    else:
        ser('()', '"null"@')
        de('()', 'if s.t is Null { %s } else { None }' % after('()'))
    ser('bool', 'if *self { "true"@ } else { "false"@ }')
    de('bool', 'match s.t { Tk::Bool(b) => %s, %s_ => None }' % (after('b'), 'Tk::U64(v, _) => %s, ' % after('v != 0') if ron else ''))
    for ty in (('String',) if ron else ('String', 'str')):
        ser(ty, 'quoted(self@)', {
            'L0.init': 'let ghost __b0 = $2.out@; let ghost __n: int = 0; proof { assert(self@.take(0) =~= Seq::empty()); }',
            'L0.spec': '''invariant 0 <= __n <= self@.len(), __it0@ == self@.skip(__n), $2.out@ == __b0 + esc(self@.take(__n)) ensures __n == self@.len(), $2.out@ == __b0 + esc(self@.take(__n)) decreases __it0@.len()''',
            'L0.start': 'let ghost __o0 = $2.out@; proof { assert(c == self@[__n]); assert(__it0@ =~= self@.skip(__n + 1)); ' + ' '.join('reveal_strlit("%s");' % x for x in ['\\\\b', '\\\\f', '\\\\n', '\\\\r', '\\\\t', '\\\\u', '\\\\\\\\', '\\\\\\"']) + ' }',
            'L0.end': 'proof { assert($2.out@ =~= __o0 + ec(c)); assert(self@.take(__n + 1).drop_last() =~= self@.take(__n)); assert(self@.take(__n + 1).last() == c); assert($2.out@ =~= __b0 + esc(self@.take(__n + 1))); __n = __n + 1; }',
            'L0.after': 'proof { assert(self@.take(__n) =~= self@); }',
        })
    de('String', 'match s.t { Tk::Str(v) => %s, _ => None }' % after('v'))
    for ty, items in [('Vec<T>', 'self@'), ('LinkedList<T>', 'items_ll(*self)'), ('HashSet<T>', 'items_hs(*self)'), ('BTreeSet<T>', 'items_bs(*self)'), ('[T]', 'self@')]:
        ax = {'Vec<T>': 'ax_len_vec(*self);', 'LinkedList<T>': 'ax_len_ll(*self);', 'HashSet<T>': 'ax_len_hs(*self);', 'BTreeSet<T>': 'ax_len_bs(*self);', '[T]': ''}[ty]
        tr = ron and ty == 'Vec<T>'
        if tr:
            ser(ty, "list_text('[', self@, true, ']')", {
                'start': 'proof { ax_len_vec(*self); }',
                'L0.init': 'let ghost __b0 = $2.out@; let ghost __n: int = 0;',
                'L0.spec': '''invariant 0 <= __n <= {I}.len(), __it0@ == Seq::new(({I}.len() - __n) as nat, |i: int| &{I}[i + __n]), $2.out@ + jl({I}, __n, true) == __b0 + jl({I}, 0, true)
                  ensures $2.out@ =~= __b0 + jl({I}, 0, true) decreases __it0@.len()'''.replace('{I}', items),
                'L0.start': 'let ghost __o0 = $2.out@; proof { assert(*item == {I}[__n]); }'.replace('{I}', items),
                'L0.end': 'proof { __n = __n + 1; assert(__it0@ =~= Seq::new(({I}.len() - __n) as nat, |i: int| &{I}[i + __n])); assert($2.out@ + jl({I}, __n, true) =~= __o0 + jl({I}, __n - 1, true)); }'.replace('{I}', items),
            })
        else:
            ser(ty, "list_text(%s, %s, false, %s)" % (("arr_oc()", items, "arr_cc()") if ty == '[T]' else ("'['", items, "']'")), {
                'start': 'proof { %s }' % ax,
                'L0.init': 'let ghost __b0 = $2.out@; let ghost __n: int = 0;',
                'L0.spec': '''invariant 0 <= __n <= {I}.len(), $l0 == {I}.len() - 1, __it0@ == Seq::new(({I}.len() - __n) as nat, |i: int| ((i + __n) as usize, &{I}[i + __n])), $2.out@ + jl({I}, __n, false) == __b0 + jl({I}, 0, false)
                  ensures $2.out@ =~= __b0 + jl({I}, 0, false) decreases __it0@.len()'''.replace('{I}', items),
                'L0.start': 'let ghost __o0 = $2.out@; proof { assert(index == __n); }',
                'L0.end': 'proof { __n = __n + 1; assert(__it0@ =~= Seq::new(({I}.len() - __n) as nat, |i: int| ((i + __n) as usize, &{I}[i + __n]))); assert($2.out@ + jl({I}, __n, false) =~= __o0 + jl({I}, __n - 1, false)); }'.replace('{I}', items),
            })
        if ty == '[T]':
            continue
        view = {'Vec<T>': 'models($l0@) == __p', 'LinkedList<T>': 'models(items_ll($l0)) == __p', 'HashSet<T>': '$l0.model() == fold_set(__p)', 'BTreeSet<T>': '$l0.model() == fold_set(__p)'}[ty]
        res = 'l.0' if ty in ('Vec<T>', 'LinkedList<T>') else 'fold_set(l.0)'
        seqv = {'Vec<T>': '$l0@', 'LinkedList<T>': 'items_ll($l0)', 'HashSet<T>': 'items_hs($l0)', 'BTreeSet<T>': 'items_bs($l0)'}[ty]
        step_p = 'assert(models(%s) =~= __p);' % seqv if res == 'l.0' else 'assert(__p.drop_last() =~= __p0);'
        de(ty, 'match parse_list::<T>(s) { None => None, Some(l) => Some((%s, l.1)) }' % res, 'if let Some(s1) = eat(s, Tk::BlockOpen) { lemma_mes_elems::<T>(s1, Seq::empty()); }', {
            'L0.pre': 'let ghost __s0 = jst(*$0, *$1); let ghost mut __p: Seq<T::M> = Seq::empty(); proof { assert(models(%s) =~= Seq::empty()); }' % seqv,
            'L0.spec': '''invariant %s, eat(%s, Tk::BlockOpen) == Some(__s0), parse_elems::<T>(__s0, Seq::empty()) == parse_elems::<T>(jst(*$0, *$1), __p), %s
              ensures parse_elems::<T>(__s0, Seq::empty()) == Some((__p, jst(*$0, *$1))), tk(*$0) is BlockClose
              decreases mes(jst(*$0, *$1)), (if tk(*$0) is BlockClose { 0int } else { 1int })''' % (LOOPINV, JO, view),
            'L0.start': 'let ghost __p0 = __p; let ghost __s1 = jst(*$0, *$1); proof { T::lemma_mes(__s1); }',
            'L0.end': 'proof { __p = __p.push(sm(T::parse(__s1))); %s }' % step_p,
        })
    ser('[T;N]', "list_text(arr_oc(), self@, false, arr_cc())")
    de('[T;N]', 'match eat(s, arr_o()) { None => None, Some(s1) => match parse_fix::<T>(s1, N as nat, Seq::empty()) { None => None, Some((m, s2)) => match eat(s2, arr_c()) { None => None, Some(s3) => Some((m, s3)) } } }',
       'if let Some(s1) = eat(s, arr_o()) { lemma_mes_fix::<T>(s1, N as nat, Seq::empty()); }', {
        'L0.pre': 'let ghost __s0 = jst(*$0, *$1); let ghost mut __p: Seq<T::M> = Seq::empty();',
        'L0.spec': '''invariant %s, eat(%s, arr_o()) == Some(__s0), __p.len() <= N, $l0@.len() == N,
           __it0@ == Seq::new((N - __p.len()) as nat, |i: int| (i + __p.len()) as usize),
           forall|i: int| 0 <= i < __p.len() ==> (#[trigger] $l0@[i])@ is Some /*#C20*/, forall|i: int| 0 <= i < __p.len() ==> (#[trigger] $l0@[i])@->0.model() == __p[i],
           __led.n@ == old(__led).n@ + __p.len() /*#C20*/,
           parse_fix::<T>(__s0, N as nat, Seq::empty()) == parse_fix::<T>(jst(*$0, *$1), (N - __p.len()) as nat, __p)
          ensures __p.len() == N, __it0@.len() == 0 decreases __it0@.len()''' % (LOOPINV, JO),
        'L0.start': 'let ghost __s1 = jst(*$0, *$1); proof { T::lemma_mes(__s1); }',
        'L0.end': '; proof { __p = __p.push(sm(item::<T>(__s1))); assert(__it0@ =~= Seq::new((N - __p.len()) as nat, |i: int| (i + __p.len()) as usize)); }',
        'L1.init': '#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]',
        'L1.spec': '''invariant forall|i: int| 0 <= i < __it1@.len() ==> (#[trigger] __it1@[i]).1@ is Some /*#C20*/, __led.n@ == old(__led).n@ + __it1@.len() /*#C20*/
          ensures __it1@.len() == 0 decreases __it1@.len()''',
        'before:assume_init_read#0': 'proof { assert(models(slots($l0@)) =~= __p); }'})
    u.fns['de_ron_comma_paren' if ron else 'de_json_comma_block'] = FnC('requires inv(*old($0), *old($1))\n' + 'ensures ' + INV + 'match __r { Ok(v) => item::<T>(JO) == Some((v.model(), JF)), Err(_) => item::<T>(JO) is None },\n'.replace('JO', JO).replace('JF', JF) + JERR)
    for n in (2, 3, 4):
        ps = 'ABCD'[:n]
        ty = '(%s)' % ','.join(ps)
        ser(ty, "seq!['%s'] + " % ao + " + seq![','] + ".join('self.%d.js()' % k for k in range(n)) + " + seq!['%s']" % ac)
        e = 'match eat(s%d, arr_c()) { None => None, Some(z) => Some(((%s), z)) }' % (n, ', '.join('m%d' % k for k in range(n)))
        for k in reversed(range(n)):
            e = 'match item::<%s>(s%d) { None => None, Some((m%d, s%d)) => %s }' % (ps[k], k, k, k + 1, e)
        m = ''
        for k in reversed(range(n)):
            m = '%s::lemma_mes(s%d); if let Some((m%d, s%d)) = item::<%s>(s%d) { %s }' % (ps[k], k, k, k + 1, ps[k], k, m)
        de(ty, 'match eat(s, arr_o()) { None => None, Some(s0) => %s }' % e, 'if let Some(s0) = eat(s, arr_o()) { %s }' % m)
    for ty, items, ax, new in [('HashMap<K,V>' if ron else 'HashMap<K,V,S>', 'items_hm(*self)', 'ax_len_hm(*self);', 'items_hm($l0)'), ('BTreeMap<K,V>', 'items_bm(*self)', 'ax_len_bm(*self);', 'items_bm($l0)')]:
        if ron:
            ser(ty, "map_text(%s, mtr())" % items, {
                'start': 'proof { %s }' % ax,
                'L0.init': 'let ghost __b0 = $2.out@; let ghost __n: int = 0;',
                'L0.spec': '''invariant 0 <= __n <= {I}.len(), __it0@ == Seq::new(({I}.len() - __n) as nat, |i: int| (&{I}[i + __n].0, &{I}[i + __n].1)), $2.out@ + jm({I}, __n, mtr()) == __b0 + jm({I}, 0, mtr())
                  ensures $2.out@ =~= __b0 + jm({I}, 0, mtr()) decreases __it0@.len()'''.replace('{I}', items),
                'L0.start': 'let ghost __o0 = $2.out@;',
                'L0.end': 'proof { __n = __n + 1; assert(__it0@ =~= Seq::new(({I}.len() - __n) as nat, |i: int| (&{I}[i + __n].0, &{I}[i + __n].1))); lemma_jm_step({I}, __n - 1, __o0); assert($2.out@ + jm({I}, __n, mtr()) =~= __o0 + jm({I}, __n - 1, mtr())); }'.replace('{I}', items),
            })
        else:
            ser(ty, "map_text(%s, mtr())" % items, {
                'start': 'proof { %s }' % ax,
                'L0.init': 'let ghost __b0 = $2.out@; let ghost __n: int = 0;',
                'L0.spec': '''invariant 0 <= __n <= {I}.len() <= usize::MAX, $l0 == {I}.len(), __it0@ == Seq::new(({I}.len() - __n) as nat, |i: int| ((i + __n) as usize, (&{I}[i + __n].0, &{I}[i + __n].1))), $2.out@ + jm({I}, __n, mtr()) == __b0 + jm({I}, 0, mtr())
                  ensures $2.out@ =~= __b0 + jm({I}, 0, mtr()) decreases __it0@.len()'''.replace('{I}', items),
                'L0.start': 'let ghost __o0 = $2.out@; proof { assert(index == __n); }',
                'L0.end': 'proof { __n = __n + 1; assert(__it0@ =~= Seq::new(({I}.len() - __n) as nat, |i: int| ((i + __n) as usize, (&{I}[i + __n].0, &{I}[i + __n].1)))); lemma_jm_step({I}, __n - 1, __o0); assert($2.out@ + jm({I}, __n, mtr()) =~= __o0 + jm({I}, __n - 1, mtr())); }'.replace('{I}', items),
            })
        de(ty, 'match parse_map::<K, V>(s) { None => None, Some(l) => Some((fold_map(l.0), l.1)) }', 'if let Some(s1) = eat(s, Tk::CurlyOpen) { lemma_mes_kvs::<K, V>(s1, Seq::empty()); }', {
            'L0.pre': 'let ghost __s0 = jst(*$0, *$1); let ghost mut __p: Seq<(K::M, V::M)> = Seq::empty(); proof { assert(kvmodels(%s) =~= Seq::empty()); }' % new,
            'L0.spec': '''invariant %s, eat(%s, Tk::CurlyOpen) == Some(__s0), parse_kvs::<K, V>(__s0, Seq::empty()) == parse_kvs::<K, V>(jst(*$0, *$1), __p), $l0.model() == fold_map(__p)
              ensures parse_kvs::<K, V>(__s0, Seq::empty()) == Some((__p, jst(*$0, *$1))), tk(*$0) is CurlyClose
              decreases mes(jst(*$0, *$1)), (if tk(*$0) is CurlyClose { 0int } else { 1int })''' % (LOOPINV, JO),
            'L0.start': 'let ghost __p0 = __p; let ghost __s1 = jst(*$0, *$1); proof { K::lemma_mes(__s1); if let Some((_, s2)) = K::parse(__s1) { if let Some(s3) = eat(s2, Tk::Colon) { V::lemma_mes(s3); } } }',
            'L0.end': 'proof { let k = K::parse(__s1)->0; let s3 = eat(k.1, Tk::Colon)->0; __p = __p.push((k.0, sm(V::parse(s3)))); assert(__p.drop_last() =~= __p0); }',
        })
    ser('Box<T>', '(**self).js()')
    de('Box<T>', 'T::parse(s)', 'T::lemma_mes(s);')
    ser('Duration', '''durtext(dsecs(*self), dnanos(*self))''', {'start': 'proof { reveal_strlit("\\"secs\\":"); reveal_strlit(",\\"nanos\\":"); }'})
    de('Duration', '''match eat(s, Tk::CurlyOpen) { None => None, Some(s1) => match parse_dur(s1, None, None) { None => None, Some((a, b, s2)) => match eat(s2, Tk::CurlyClose) { None => None, Some(s3) => match a { None => None, Some(x) => match mkdur(x, match b { Some(y) => y, None => 0 }) { None => None, Some(m) => Some((m, s3)) } } } } }''',
       'if let Some(s1) = eat(s, Tk::CurlyOpen) { lemma_mes_dur(s1, None, None); }', {
            'L0.pre': 'let ghost __s0 = jst(*$0, *$1); proof { reveal_strlit("secs"); reveal_strlit("nanos"); }',
            'L0.spec': '''invariant %s, eat(%s, Tk::CurlyOpen) == Some(__s0), parse_dur(__s0, None, None) == parse_dur(jst(*$0, *$1), $l0, $l1)
              ensures parse_dur(__s0, None, None) == Some(($l0, $l1, jst(*$0, *$1))), tk(*$0) is CurlyClose
              decreases mes(jst(*$0, *$1))''' % (LOOPINV, JO)})
    ser('SystemTime', 'if st_ns(*self) >= 0 { durtext(st_secs(*self), st_sub(*self)) } else { %s }' % NONE, {'start': 'proof { ax_st_repr(*self); assert forall|d: Duration| #[trigger] dur_total(d) == st_ns(*self) implies dsecs(d) == st_secs(*self) && dnanos(d) == st_sub(*self) by { ax_dnanos(d); } }'})
    de('SystemTime', 'match <Option<Duration>>::parse(s) { None => None, Some((None, n)) => Some((0int, n)), Some((Some(m), n)) => if st_repr(ns_of(m)) { Some((ns_of(m), n)) } else { None } }', '<Option<Duration>>::lemma_mes(s);')
    u.prelude.append(r'''
pub open spec fn st_secs(t: SystemTime) -> u64 { (st_ns(t) / 1_000_000_000) as u64 }
pub open spec fn st_sub(t: SystemTime) -> u32 { (st_ns(t) % 1_000_000_000) as u32 }
pub open spec fn mkdur(s: u64, n: u32) -> Option<(u64, u32)> { if n > 1_000_000_000 || (s == u64::MAX && n == 1_000_000_000) { None } else if n == 1_000_000_000 { Some(((s + 1) as u64, 0u32)) } else { Some((s, n)) } }
pub open spec fn durtext(s: u64, n: u32) -> Seq<char> { seq!['{'] + "\"secs\":"@ + udec(s as int) + (if n > 0 { ",\"nanos\":"@ + udec(n as int) } else { Seq::empty() }) + seq!['}'] }
/// items k.. of a list, separated by commas
pub open spec fn jl<T: SerJson>(s: Seq<T>, k: int, tr: bool) -> Seq<char> decreases s.len() - k { if k < 0 || k >= s.len() { seq![] } else { s[k].js() + (if tr || k + 1 < s.len() { seq![','] } else { seq![] }) + jl(s, k + 1, tr) } }
pub open spec fn list_text<T: SerJson>(o: char, s: Seq<T>, tr: bool, c: char) -> Seq<char> { seq![o] + jl(s, 0, tr) + seq![c] }
pub open spec fn map_text<K: SerJson, V: SerJson>(s: Seq<(K, V)>, tr: bool) -> Seq<char> { seq!['{'] + jm(s, 0, tr) + seq!['}'] }
pub open spec fn jm<K: SerJson, V: SerJson>(s: Seq<(K, V)>, k: int, tr: bool) -> Seq<char> decreases s.len() - k { if k < 0 || k >= s.len() { seq![] } else { s[k].0.js() + seq![':'] + s[k].1.js() + (if tr || k + 1 < s.len() { seq![','] } else { seq![] }) + jm(s, k + 1, tr) } }
pub proof fn lemma_jm_step<K: SerJson, V: SerJson>(s: Seq<(K, V)>, n: int, o: Seq<char>) requires 0 <= n < s.len()
    ensures ({ let w = (o + s[n].0.js()).push(':') + s[n].1.js(); mtr() || n + 1 < s.len() ==> (w + seq![',']) + jm(s, n + 1, mtr()) == o + jm(s, n, mtr()) && w.push(',') + jm(s, n + 1, mtr()) == o + jm(s, n, mtr()) }),
      !mtr() && n + 1 == s.len() ==> ((o + s[n].0.js()).push(':') + s[n].1.js()) + jm(s, n + 1, mtr()) == o + jm(s, n, mtr())
{
    let w = (o + s[n].0.js()).push(':') + s[n].1.js(); let b = s[n].0.js() + seq![':'] + s[n].1.js();
    assert(w =~= o + b);
    if mtr() || n + 1 < s.len() { assert(w.push(',') =~= w + seq![',']); assert((w + seq![',']) + jm(s, n + 1, mtr()) =~= o + (b + seq![','] + jm(s, n + 1, mtr()))); }
    else { assert(b + seq![] + jm(s, n + 1, mtr()) =~= b + jm(s, n + 1, mtr())); assert(w + jm(s, n + 1, mtr()) =~= o + (b + jm(s, n + 1, mtr()))); }
}
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { esc(s.drop_last()) + ec(s.last()) } }
pub open spec fn quoted(s: Seq<char>) -> Seq<char> { seq!['"'] + esc(s) + seq!['"'] }
pub proof fn lemma_num(q: Seq<char>) ensures match lex_num(q) { Some((t, _)) => numok(t), None => true } { reveal(lex_num);
    let i = digs(sign(q).1, sign(q).0); let e = expo(frac(i)); ax_pf(e.0);
    if let Some(v) = i64::sp_from(e.0) { lemma_sign_kept(q); if e.0[0] == '-' { assert(e.0.skip(1) == body_i(e.0)); lemma_dval_pos(e.0.skip(1)); } }
    if let Some(v) = u64::sp_from(e.0) { if e.0[0] == '-' { assert(isdig(body_u(e.0)[0])); } assert(body_u(e.0) == body_i(e.0)); }
}
/// the text of a number starts with its sign
pub proof fn lemma_digs_pre(q: Seq<char>, a: Seq<char>) ensures digs(q, a).0.len() >= a.len(), a.len() > 0 ==> digs(q, a).0[0] == a[0] decreases q.len() { if isdig(hd(q)) { lemma_digs_pre(tl(q), a.push(hd(q))); } }
pub proof fn lemma_sign_kept(q: Seq<char>) ensures ({ let e = expo(frac(digs(sign(q).1, sign(q).0))); let s = sign(q).0; s.len() > 0 ==> e.0.len() > 0 && e.0[0] == s[0] }) {
    let i = digs(sign(q).1, sign(q).0); lemma_digs_pre(sign(q).1, sign(q).0);
    let f = frac(i); lemma_digs_pre(tl(i.1), i.0.push('.'));
    let a = f.0.push(hd(f.1)); let r = tl(f.1); lemma_digs_pre(tl(r), a.push(hd(r))); lemma_digs_pre(r, a);
}
pub proof fn lemma_surr()
    ensures forall|a: u32, b: u32| 0xd800 <= a < 0xdc00 && 0xdc00 <= b < 0xe000 ==> #[trigger] (((sub(a, 0xd800)) << 10) | (sub(b, 0xdc00))) == (a - 0xd800) * 0x400 + (b - 0xdc00),
        // the same facts for other ways to write them (masks, shifts with a sum)
        forall|x: u32, y: u32| x < 0x400 && y < 0x400 ==> #[trigger] ((x << 10) | y) == x * 0x400 + y,
        forall|x: u32| x < 0x400 ==> #[trigger] (x << 10) == x * 0x400,
        forall|a: u16| (#[trigger] (a & 0xfc00) == 0xd800 <==> 0xd800 <= a < 0xdc00) && (a & 0xfc00 == 0xdc00 <==> 0xdc00 <= a < 0xe000),
        forall|a: u16| #[trigger] (a & 0xf800) == 0xd800 <==> 0xd800 <= a < 0xe000,
        forall|a: u32| (#[trigger] (a & 0xfc00) == 0xd800 && a < 0x10000 <==> 0xd800 <= a < 0xdc00) && (a & 0xfc00 == 0xdc00 && a < 0x10000 <==> 0xdc00 <= a < 0xe000),
        forall|a: u32| (0xd800 <= a < 0xdc00 ==> #[trigger] (a & 0x3ff) == a - 0xd800) && (0xdc00 <= a < 0xe000 ==> a & 0x3ff == a - 0xdc00),
        forall|a: u16| (0xd800 <= a < 0xdc00 ==> #[trigger] (a & 0x3ff) == a - 0xd800) && (0xdc00 <= a < 0xe000 ==> a & 0x3ff == a - 0xdc00),
{
    assert forall|x: u32, y: u32| x < 0x400 && y < 0x400 implies #[trigger] ((x << 10) | y) == x * 0x400 + y by { assert((x << 10) | y == add(mul(x, 0x400), y)) by(bit_vector) requires x < 0x400, y < 0x400; }
    assert forall|x: u32| x < 0x400 implies #[trigger] (x << 10) == x * 0x400 by { assert(x << 10 == mul(x, 0x400)) by(bit_vector) requires x < 0x400; }
    assert(forall|a: u16| (#[trigger] (a & 0xfc00) == 0xd800 <==> 0xd800 <= a < 0xdc00) && (a & 0xfc00 == 0xdc00 <==> 0xdc00 <= a < 0xe000)) by(bit_vector);
    assert(forall|a: u16| #[trigger] (a & 0xf800) == 0xd800 <==> 0xd800 <= a < 0xe000) by(bit_vector);
    assert(forall|a: u32| (#[trigger] (a & 0xfc00) == 0xd800 && a < 0x10000 <==> 0xd800 <= a < 0xdc00) && (a & 0xfc00 == 0xdc00 && a < 0x10000 <==> 0xdc00 <= a < 0xe000)) by(bit_vector);
    assert forall|a: u32| (0xd800 <= a < 0xdc00 ==> #[trigger] (a & 0x3ff) == a - 0xd800) && (0xdc00 <= a < 0xe000 ==> a & 0x3ff == a - 0xdc00) by {
        assert((0xd800 <= a < 0xdc00 ==> (a & 0x3ff) == sub(a, 0xd800)) && (0xdc00 <= a < 0xe000 ==> a & 0x3ff == sub(a, 0xdc00))) by(bit_vector); }
    assert forall|a: u16| (0xd800 <= a < 0xdc00 ==> #[trigger] (a & 0x3ff) == a - 0xd800) && (0xdc00 <= a < 0xe000 ==> a & 0x3ff == a - 0xdc00) by {
        assert((0xd800 <= a < 0xdc00 ==> (a & 0x3ff) == sub(a, 0xd800)) && (0xdc00 <= a < 0xe000 ==> a & 0x3ff == sub(a, 0xdc00))) by(bit_vector); }
    assert forall|a: u32, b: u32| 0xd800 <= a < 0xdc00 && 0xdc00 <= b < 0xe000 implies #[trigger] (((sub(a, 0xd800)) << 10) | (sub(b, 0xdc00))) == (a - 0xd800) * 0x400 + (b - 0xdc00) by {
        let x = sub(a, 0xd800); let y = sub(b, 0xdc00);
        assert((x << 10) | y == add(mul(x, 0x400), y)) by(bit_vector) requires x < 0x400, y < 0x400;
    }
}
''')
    u.epilogue.append(rd('ttext_lemmas.rs', fmt))

    def rt(hdr, toks, rtok, ltoks, lexes, parses):
        u.epilogue.append('''%s {
  open spec fn toks(&self) -> Seq<Tk> { %s }
  open spec fn rtok(&self) -> bool { %s }
  proof fn lemma_toks(&self) { %s }
  proof fn lemma_lexes(&self, post: Seq<char>) { %s }
  proof fn lemma_parses(&self, rest: Seq<Tk>) { self.lemma_toks(); let x = self.toks() + rest; assert(x[0] == self.toks()[0]); %s }
}''' % (hdr, toks, rtok, ltoks, lexes, parses))
    MK1 = 'lemma_mk(self.toks()[0], rest); assert(self.toks() =~= seq![self.toks()[0]]);'
    for t in UNS:
        rt('impl RtJson for %s' % t, 'seq![Tk::U64(*self as u64, udec(*self as int))]', 'true', 'lemma_udec(*self as int); let d = udec(*self as int); assert(isdig(d[d.len() - 1]));',
           'lemma_udec(*self as int); lemma_lex_int(self.js(), false, post); lemma_one(self.js(), self.toks()[0], post);', MK1)
    for t in SIG:
        rt('impl RtJson for %s' % t, 'if *self >= 0 { seq![Tk::U64(*self as u64, idec(*self as int))] } else { seq![Tk::I64(*self as i64, idec(*self as int))] }', 'true',
           'let n = if *self >= 0 { *self as int } else { -(*self as int) }; lemma_udec(n); let d = udec(n); assert(isdig(d[d.len() - 1])); assert(self.js().last() == d.last());',
           'let n = if *self >= 0 { *self as int } else { -(*self as int) }; lemma_udec(n); lemma_lex_int(udec(n), *self < 0, post); lemma_one(self.js(), self.toks()[0], post);', MK1)
    for n in ('64', '32'):
        rt('impl RtJson for f' + n, 'seq![Tk::F64(pf64(fmt%s(*self))->0, fmt%s(*self))]' % (n, n), 'finite%s(*self)' % n, 'ax_fmt%s(*self); ax_pf(self.js()); lemma_ft_lex(ft%s(*self), seq![]);' % (n, n),
           'ax_fmt%s(*self); ax_pf(self.js()); lemma_ft_lex(ft%s(*self), post);' % (n, n), 'ax_fmt%s(*self); ' % n + MK1)
    rt('impl<T: RtJson> RtJson for Option<T>', 'match self { Some(x) => x.toks(), None => seq![%s] }' % TNONE, 'match self { Some(x) => x.rtok() && x.toks()[0] != %s, None => true }' % TNONE,
       'match self { Some(x) => { x.lemma_toks(); } None => { lemma_lex_word({N}, {T}, seq![]); } }'.replace('{N}', NONE).replace('{T}', TNONE), 'match self { Some(x) => { x.lemma_lexes(post); } None => { lemma_lex_word({N}, {T}, post); } }'.replace('{N}', NONE).replace('{T}', TNONE),
       'match self { Some(y) => { y.lemma_toks(); y.lemma_parses(rest); } None => { lemma_mk(%s, rest); } }' % TNONE)
    if ron:
        rt('impl RtJson for ()', 'seq![Tk::ParenOpen, Tk::ParenClose]', 'true', 'reveal_strlit("()");',
           """reveal_strlit("()"); lemma_punct(')', post); lemma_punct('(', seq![')'] + post); assert(self.js() + post =~= seq!['('] + (seq![')'] + post)); assert(self.toks() + stream(post) =~= seq![Tk::ParenOpen] + (seq![Tk::ParenClose] + stream(post)));""",
           'let y = seq![Tk::ParenClose] + rest; lemma_mk(Tk::ParenClose, rest); lemma_mk(Tk::ParenOpen, y); assert(x =~= seq![Tk::ParenOpen] + y);')
    else:
        rt('impl RtJson for ()', 'seq![Tk::Null]', 'true', 'lemma_lex_word("null"@, Tk::Null, seq![]);', 'lemma_lex_word("null"@, Tk::Null, post);', MK1)
    rt('impl RtJson for bool', 'seq![Tk::Bool(*self)]', 'true', 'lemma_lex_word(self.js(), Tk::Bool(*self), seq![]);', 'lemma_lex_word(self.js(), Tk::Bool(*self), post);', MK1)
    rt('impl RtJson for String', 'seq![Tk::Str(self@)]', 'true', '', 'lemma_quoted(self@, post);', MK1)
    for ty, items in [('Vec<T>', 'self@'), ('LinkedList<T>', 'items_ll(*self)'), ('HashSet<T>', 'items_hs(*self)'), ('BTreeSet<T>', 'items_bs(*self)')]:
        tr = 'true' if ron and ty == 'Vec<T>' else 'false'
        rt('impl<T: RtJson%s> RtJson for %s' % ({'HashSet<T>': ' + Hash + Eq', 'BTreeSet<T>': ' + Ord'}.get(ty, ''), ty), 'list_toks(Tk::BlockOpen, %s, %s, Tk::BlockClose)' % (items, tr), 'allrt(%s)' % items, '', "lemma_list('[', %s, %s, ']', post);" % (items, tr), 'lemma_list_rt(%s, %s, rest);' % (items, tr))
    rt('impl<T: RtJson, const N: usize> RtJson for [T; N]', 'list_toks(arr_o(), self@, false, arr_c())', 'allrt(self@)', '', 'lemma_list(arr_oc(), self@, false, arr_cc(), post);',
       'lemma_list_open(arr_o(), self@, false, arr_c(), rest); lemma_fix_parse(self@, 0, Seq::empty(), rest); assert(Seq::empty() + models(self@.skip(0)) =~= models(self@));')
    for ty, items, kb in [('HashMap<K, V>' if ron else 'HashMap<K, V, S>', 'items_hm(*self)', 'Eq + Hash'), ('BTreeMap<K, V>', 'items_bm(*self)', 'Eq + Ord')]:
        rt('impl<K: RtJson + %s, V: RtJson%s> RtJson for %s' % (kb, ', S: BuildHasher + Default' if 'S>' in ty else '', ty), 'map_toks(%s, mtr())' % items, 'kvrt(%s)' % items, '', 'lemma_map(%s, mtr(), post);' % items, 'lemma_map_rt(%s, mtr(), rest);' % items)
    rt('impl<T: RtJson> RtJson for Box<T>', '(**self).toks()', '(**self).rtok()', '(**self).lemma_toks();', '(**self).lemma_lexes(post);', '(**self).lemma_parses(rest);')
    for n in (2, 3, 4):
        ps = 'ABCD'[:n]
        # text pieces and token pieces, left to right
        pcs = ["seq!['%s']" % ao]; tps = ['seq![%s]' % AO]
        for k in range(n):
            pcs += ['self.%d.js()' % k, "seq!['%s']" % (',' if k + 1 < n else ac)]
            tps += ['self.%d.toks()' % k, 'seq![%s]' % ('Tk::Comma' if k + 1 < n else AC)]

        def chain(v, pieces, last, whole):  # whole + last == pieces[0] + (pieces[1] + (...)), one association at a time
            t = 'let %s0 = %s;' % (v, pieces[0])
            for i in range(1, len(pieces)):
                t += 'let %s%d = %s%d + %s;' % (v, i, v, i - 1, pieces[i])
            t += 'assert(%s == %s%d); let %sr%d = %s;' % (whole, v, len(pieces) - 1, v, len(pieces), last)
            for i in reversed(range(len(pieces))):
                t += 'let %sr%d = %s + %sr%d;' % (v, i, pieces[i], v, i + 1)
                if i:
                    t += 'lemma_assoc(%s%d, %s, %sr%d);' % (v, i - 1, pieces[i], v, i + 1)
            return t
        lx = chain('a', pcs, 'post', 'self.js()') + chain('b', tps, 'stream(post)', 'self.toks()')
        for i in reversed(range(len(pcs))):
            lx += ("lemma_punct('%s', ar%d);" % (pcs[i][6], i + 1)) if i % 2 == 0 else 'self.%d.lemma_lexes(ar%d);' % (i // 2, i + 1)
            lx += 'assert(stream(ar%d) == br%d);' % (i, i)
        pr = chain('b', tps, 'rest', 'self.toks()') + 'lemma_mk({C}, rest); lemma_wfs_cat(seq![{C}], rest);'.replace('{C}', AC)
        for k in reversed(range(n)):
            pr += 'lemma_item1(self.%d, br%d, %s);' % (k, 2 * k + 3 if k + 1 < n else 2 * k + 2, 'true' if k + 1 == n else 'false')
        pr += 'lemma_mk(%s, br1);' % AO
        rt('impl<%s> RtJson for (%s)' % (', '.join(p + ': RtJson' for p in ps), ', '.join(ps)), ' + '.join(tps),
           ' && '.join('self.%d.rtok()' % k for k in range(n)), '', lx, pr)
    u.prelude = [X(t) for t in u.prelude]
    u.epilogue = [X(t) for t in u.epilogue]
    return u
