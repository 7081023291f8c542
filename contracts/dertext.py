"""Contracts for the code the SerJson/DeJson and SerRon/DeRon derives generate, over the catalogue of shapes."""
import os
from asm import Unit, FnC
import ctext as _c
from dercat import *

SHIMS = '''
pub broadcast proof fn lemma_here(s: DeJsonState, i: VChars) requires #[trigger] inv0(s, i) ensures atpos(s.line as int, s.col as int, i.full(), i.pos()) { }
pub trait VOptRef { type R; spec fn sp_ref(&self) -> Option<Self::R>; fn v_as_ref(&self) -> (r: Option<&Self::R>) ensures match r { Some(x) => self.sp_ref() == Some(*x), None => self.sp_ref() is None }; }
impl<T> VOptRef for Option<T> { type R = T; open spec fn sp_ref(&self) -> Option<T> { *self } fn v_as_ref(&self) -> (r: Option<&T>) { match self { Some(x) => Some(x), None => None } } }
pub trait VUnwrapOr<T: VDefault> { spec fn sp_opt(self) -> Option<T>; fn v_unwrap_or_default(self) -> (r: T) ensures r.model() == match self.sp_opt() { Some(x) => x.model(), None => T::dflt() }; }
impl<T: VDefault> VUnwrapOr<T> for Option<T> { open spec fn sp_opt(self) -> Option<T> { self } fn v_unwrap_or_default(self) -> (r: T) { match self { Some(x) => x, None => T::v_default() } } }
'''

DM = {'0': '0u8', 'vec![]': 'Seq::empty()', 'String::new()': 'Seq::empty()', '"hey".to_string()': '"hey"@', 'Some("x".to_string())': 'Some("x"@)',
      '"".to_string()': '""@', '"z y".to_string()': '"z y"@', 'Some("w".to_string())': 'Some("w"@)', 'Some(String::new())': 'Some(""@)', '"a, b = c".to_string()': '"a, b = c"@',
      'Unit3::Ab': 'Unit3::Ab.model()', 'Some(Unit3::B)': 'Some(Unit3::B.model())'}


def dm(f):
    return DM.get(f.dflt, f.dflt)


def unit(fmt):
    ron = fmt == 'ron'
    X = (lambda t: t.replace('Json', 'Ron').replace('json', 'ron')) if ron else (lambda t: t)
    u = _c.build(fmt)
    u.name = X('derjson')
    u.min_verified = 500 if ron else 630
    u.crates = [dict(dir=None, modules=[X('serde_json')]), dict(dir=os.path.join(HERE, '..', 'catalogue'), modules=[''], pre=preprocess)]
    u.modules = [X('serde_json'), '']
    u.trust_modules = {X('serde_json'): 'contract discharged by the unit ' + X('cjson')}
    u.text_subs = list(u.text_subs) + [
        (r'\bAsRef::<str>::as_ref\(&s\.(strbuf|identbuf)\)', r's.\1.v_as_ref()'), (r'\.unwrap_or_default\(\)', '.v_unwrap_or_default()'),
        (r'\bFrom::<&\w+>::from\(', 'v_into_('), (r'\bInto::into\(', 'v_into_('), (r'\bDefault::default\(\)', 'VDefault::v_default()')]
    u.verus_args = ['--verify-module', 'derived', '--num-threads', '8']
    ts = [x for x in types(fmt[0]) if x.name not in ('Big', 'Many', 'Lots', 'LotsT', 'LotsE')]  # bounded search only: 301 variants; 13 to 40 fields (solver time grows with the square)
    names = {x.name for x in ts}
    u.only_traits = {X('SerJson'), X('DeJson')}
    u.only_types = names | {'Inner'}
    u.only_fns = {'forty', 'nine'}
    u.fns['forty'] = FnC('ensures __r == 40')
    u.fns['nine'] = FnC('ensures __r == 9')
    u.broadcast = 'hide(adv); hide(wfs); hide(inv0); broadcast use {lemma_wf_stream, lemma_adv, lemma_here};'
    u.loop_broadcast = 'broadcast use {lemma_wf_stream, lemma_adv, lemma_here};'
    D = []      # prelude of the module with the derived code
    D.append(DEFAULTS.split('/// conversions written')[0] if ron else DEFAULTS)
    D.append(_c.rd('tder.rs', fmt))
    D.append(SHIMS)
    D.append('\n'.join(model_of(x) for x in ts + ([] if ron else EXTRA[:1])))
    E = []      # its epilogue: lemmas
    o, c = ('(', ')') if ron else ('[', ']')
    PO, PC = ('Tk::ParenOpen', 'Tk::ParenClose') if ron else ('Tk::BlockOpen', 'Tk::BlockClose')
    SB = 'broadcast use {lemma_wf_stream, lemma_adv};'
    st = '$0'
    for x in ts:
        live = lambda v: [f for f in cfields(x, v) if not f.skip]
        g = gens(x)
        gp = '<%s>' % ', '.join(g) if g else ''

        def gb(b):
            return '<%s>' % ', '.join('%s: %s' % (p, b) for p in g) if g else ''

        def fb(b):  # bounds of the free lemmas
            return gb(b)

        def oname(v):
            return 'O_%s_%s' % (x.name, v.name) if v else x.name

        def aname(v):
            return '%sA' % (x.name + ('_' + v.name if v else ''))

        def pty(f):
            return 'Px' if f.proxy else f.ty

        def ptxt(f, e):  # the value that is written in place of field e (when it is written)
            if f.proxy:
                return 'pxv(%s->0)' % e if f.opt else 'pxv(%s)' % e
            return e

        def pmod(f, e):
            return ptxt(f, e) + '.model()'

        def cond(f, e):
            return '%s is Some' % e if f.opt and not f.null else 'true'

        def own(f):
            return f.ty

        named = [v for v in cases(x) if (v.kind if v else x.kind) == 'named']
        key = lambda f: '"%s"@' % rlit(f.rn)
        vkey = lambda v: '"%s"@' % rlit(v.rn)
        args = lambda v: ', '.join('%s: %s' % (fa(f), f.ty) for f in live(v))
        fa = lambda f: 'p' + fid(f)
        # ---------------------------------------------------------------- records: struct bodies and named variants
        for v in named:
            O, A = oname(v), aname(v)
            OT = O + gp
            L = live(v)
            ps = ['P%d' % i for i in range(len(L))]
            if v:
                D.append('pub ghost struct %s%s { %s }' % (O, gp, ', '.join('pub g%d: Option<%s>' % (i, q) for i, q in enumerate(g))))
            if L:
                D.append('pub ghost struct %s%s { %s }' % (A, '<%s>' % ', '.join(ps), ', '.join('pub %s: Option<%s>' % (fid(f), p) for f, p in zip(L, ps))))
            at = A + '<%s>' % ', '.join('<%s as Model>::M' % pty2(f) for f in L) if L else '()'
            init = '%s { %s }' % (A, ', '.join('%s: None' % fid(f) for f in L)) if L else '()'
            other = 'None' if ron else 'match skip_value(s) { None => None, Some(n) => Some((a, n)) }'
            step = ''.join('if k == %s { match <%s as %s>::parse(s) { None => None, Some((m, n)) => Some((%s, n)) } } else ' % (key(f), pty2(f), X('DeJson'), upd(A, L, f, 'm', 'a')) for f in L)
            step = step + '{ %s }' % other if L else other
            req = [f for f in L if f.dflt is None and not f.opt]
            vals = []
            for f in cfields(x, v):
                a = 'a.' + fid(f)
                if f.skip:
                    vals.append(dm(f))
                elif f.proxy:
                    vals.append('(match %s { Some(v) => Some(of_px(v)), None => None })' % a if f.opt else 'of_px(%s->0)' % a)
                elif f in req:
                    vals.append(a + '->0')
                else:
                    vals.append('(match %s { Some(v) => v, None => %s })' % (a, dm(f) if f.dflt else 'None'))
            fin = 'Some(%s)' % mctor(x, v, vals)
            if req:
                fin = 'if %s { %s } else { None }' % (' && '.join('a.%s is Some' % fid(f) for f in req), fin)
            miss = ''.join('if a.%s is None { Some("%s"@) } else ' % (fid(f), f.name) for f in req) + ('{ None }' if req else 'None')
            ls = ''.join('if k == %s { <%s as %s>::lemma_mes(s); } else ' % (key(f), pty2(f), X('DeJson')) for f in L)
            lo = '' if ron else 'lemma_mes_skip(s);'
            D.append('''impl%s Obj for %s { type A = %s; type F = %s;
  open spec fn init() -> Self::A { %s }
  open spec fn step(k: Seq<char>, s: JS, a: Self::A) -> Option<(Self::A, JS)> { %s }
  open spec fn fin(a: Self::A) -> Option<Self::F> { %s }
  open spec fn miss(a: Self::A) -> Option<Seq<char>> { %s }
  proof fn lemma_step(k: Seq<char>, s: JS, a: Self::A) { %s }
}''' % (gb(X('DeJson')), OT, at, mty(x), init, step, fin, miss, (ls + '{ %s }' % lo) if L else lo))
            # the text
            es = 'Seq::empty()'
            tk = 'Seq::empty()'
            for f in L:
                es = 'oe(%s, %s, %s, %s.js())' % (es, cond(f, fa(f)), key(f), ptxt(f, fa(f)))
                tk = 'ot(%s, %s, %s.toks())' % (tk, cond(f, fa(f)), ptxt(f, fa(f)))
            acc = '%s { %s }' % (A, ', '.join('%s: %s' % (fid(f), 'if %s { Some(%s) } else { None }' % (cond(f, fa(f)), pmod(f, fa(f))) if cond(f, fa(f)) != 'true' else 'Some(%s)' % pmod(f, fa(f))) for f in L)) if L else '()'
            D.append('pub open spec fn es_%s%s(%s) -> Seq<En> { %s }' % (O, gb(X('SerJson')), args(v), es))
            E.append('pub open spec fn ts_%s%s(%s) -> Seq<Seq<Tk>> { %s }' % (O, gb(X('RtJson')), args(v), tk))
            E.append('pub open spec fn acc_%s%s(%s) -> %s { %s }' % (O, gb(X('RtJson')), args(v), at, acc))
            # reading the text back
            rt = []
            for f in L:
                a = fa(f)
                if f.proxy:
                    rt.append(('%s is Some ==> ' % a if f.opt else '') + ptxt(f, a) + '.rtok()')
                else:
                    rt.append('%s.rtok()' % a)
                if f.opt and f.dflt not in (None, 'None') and not f.null:
                    rt.append('%s is Some' % a)
            E.append('pub open spec fn rt_%s%s(%s) -> bool { %s }' % (O, gb(X('RtJson')), args(v), ' && '.join('(%s)' % e for e in rt) or 'true'))
            E.append('pub proof fn names_%s() ensures %s true { %s }' % (
                O, ''.join('plain(%s), ' % key(f) for f in L) + ''.join('%s != %s, ' % (key(p), key(q)) for i, p in enumerate(L) for q in L[:i]), lit_names([f.rn for f in L], ron)))
            gt = '::' + gp if g else ''
            for f in L:
                a = fa(f)
                E.append('''pub proof fn stp_%s_%s%s(%s: %s, a: %s) requires %s, (%s).rtok() ensures stp::<%s>(%s, (%s).toks(), a, %s), lxs((%s).js(), (%s).toks()) {
  names_%s(); reveal(stp); lemma_lxs(%s);
  assert forall|r: Seq<Tk>| wfs(r) && r[0] != Tk::Bad implies #[trigger] <%s as Obj>::step(%s, mk((%s).toks() + r), a) == Some((%s, mk(r))) by { (%s).lemma_parses(r); }
}''' % (O, fid(f), gb(X('RtJson')), a, f.ty, at, cond(f, a), ptxt(f, a), OT, key(f), ptxt(f, a), upd(A, L, f, pmod(f, a), 'a'), ptxt(f, a), ptxt(f, a), O, ptxt(f, a), OT, key(f), ptxt(f, a), upd(A, L, f, pmod(f, a), 'a'), ptxt(f, a)))
            b = 'names_%s(); lemma_good_nil::<%s>(); let e0: Seq<En> = Seq::empty(); let t0: Seq<Seq<Tk>> = Seq::empty(); let a0 = <%s as Obj>::init();' % (O, OT, OT)
            for i, f in enumerate(L):
                a = fa(f)
                q = dict(i=i, j=i + 1, c=cond(f, a), k=key(f), x=ptxt(f, a), u=upd(A, L, f, pmod(f, a), 'a%d' % i), O=O, f=fid(f), a=a, gt=gt, OT=OT)
                b += '''
  let e{j} = oe(e{i}, {c}, {k}, ({x}).js()); let t{j} = ot(t{i}, {c}, ({x}).toks()); let a{j} = if {c} {{ {u} }} else {{ a{i} }};
  if {c} {{ stp_{O}_{f}{gt}({a}, a{i}); lemma_good_push::<{OT}>(e{i}, t{i}, a{i}, {k}, ({x}).js(), ({x}).toks(), a{j}); }}'''.format(**q)
            al = ', '.join(fa(f) for f in L)
            E.append('pub proof fn good_%s%s(%s) requires rt_%s%s(%s) ensures good::<%s>(es_%s%s(%s), ts_%s%s(%s), acc_%s%s(%s)) { %s }' % (O, gb(X('RtJson')), args(v), O, gt, al, OT, O, gt, al, O, gt, al, O, gt, al, b))

        def rec(v, pre, names_):  # es/ts/acc of a record with field expressions
            return '%s_%s%s(%s)' % (pre, oname(v), ('::' + gp) if g else '', ', '.join(names_))
        refs = lambda v, n: [m for f, m in zip(cfields(x, v), n) if not f.skip]
        # ---------------------------------------------------------------- pieces of text: (text, tokens, lemma for what follows)
        P = lambda ch, tok: ("seq!['%s']" % ch, 'seq![%s]' % tok, "lemma_punct('%s', {r});" % ch)
        PN = lambda v: ('ntext(%s)' % vkey(v), 'seq![ntok(%s)]' % vkey(v), 'lemma_name(%s, {r});' % vkey(v))

        def PV(e):
            return ('%s.js()' % e, '%s.toks()' % e, '%s.lemma_lexes({r});' % e)

        def PR(v, n):
            return ('obj(%s)' % rec(v, 'es', n), 'otoks(%s, %s)' % (rec(v, 'es', n), rec(v, 'ts', n)), 'lemma_good_lex::<%s%s>(%s, %s, %s, {r});' % (oname(v), gp, rec(v, 'es', n), rec(v, 'ts', n), rec(v, 'acc', n)))

        def tuple_pieces(fs, n, sep):
            p = [P(o, PO)]
            for i, m in enumerate([m for f, m in zip(fs, n) if not f.skip]):
                if i:
                    p.append(sep)
                p.append(PV(m))
            return p + [P(c, PC)]
        COMMA, COMMASP = P(',', 'Tk::Comma'), ("seq![',', ' ']", 'seq![Tk::Comma]', 'lemma_commasp({r});')

        def pieces(v, n):
            """n: expressions of the fields, all of them"""
            k = v.kind if v else x.kind
            if not v:
                if x.attr and x.attr.startswith('proxy'):
                    return [PV('(PxC { n: !(%s) })' % n[0])]
                if k == 'named':
                    return [PR(None, refs(None, n))]
                if x.transparent:
                    return [PV(n[0])]
                if k == 'unit' and ron:
                    return [P(o, PO), P(c, PC)]
                if k == 'unit':
                    return [P('{', 'Tk::CurlyOpen'), P('}', 'Tk::CurlyClose')]
                return tuple_pieces(x.fields, n, COMMASP)
            if k == 'unit':
                return [PN(v)]
            body = [PR(v, refs(v, n))] if k == 'named' else tuple_pieces(v.fields, n, COMMA)
            if ron:
                return [PN(v)] + body
            return [P('{', 'Tk::CurlyOpen'), PN(v), P(':', 'Tk::Colon')] + body + [P('}', 'Tk::CurlyClose')]
        nm = lambda v: ['x%d' % i for i in range(len(cfields(x, v)))]
        dr = lambda v: ['(*x%d)' % i for i in range(len(cfields(x, v)))]
        js = 'match self { %s }' % '\n '.join('%s => %s,' % (rpat(x, v, nm(v)), ' + '.join(p[0] for p in pieces(v, dr(v)))) for v in cases(x))
        # ---------------------------------------------------------------- writing
        slots = {'end': '; proof { ' + ('reveal_strlit(", "); ' if x.kind == 'tuple' and len(x.fields) > 1 else '') + ('reveal_strlit(","); assert(","@ =~= seq![\',\']); ' if ron and any(v and v.kind == 'tuple' and len(v.fields) > 1 for v in cases(x)) else '') + 'assert($2.out@ =~= old($2).out@ + self.js()); }'}
        ns = 0  # ser calls
        nr = 0  # records
        nc = 0  # conl
        for v in cases(x):
            k = v.kind if v else x.kind
            if k == 'named':
                slots['after:st_pre#%d' % nr] = 'let ghost mut __e: Seq<En> = Seq::empty(); let ghost __b = $2.out@; proof { assert(__b + jo(__e) =~= __b); }'
                nr += 1
                for f in live(v):
                    e = '*' + f.name if v else 'self.' + f.name
                    pu = 'proof { lemma_jo_push(__b, __e, %s, %s.js()); __e = __e.push((%s, %s.js())); }' % (key(f), '(%s)' % ptxt(f, '(%s)' % e), key(f), '(%s)' % ptxt(f, '(%s)' % e))
                    if ron:
                        slots['after:conl#%d' % nc] = pu
                    else:
                        slots['after:ser_json#%d' % ns] = pu
                        if f.null:
                            ns += 1
                            slots['after:ser_json#%d' % ns] = pu
                    ns += 1
                    nc += 1
                slots['before:st_post#%d' % (nr - 1)] = 'proof { assert(__e == %s); }' % rec(v, 'es', [('*' + f.name if v else 'self.' + f.name) for f in live(v)])
            elif k == 'tuple':
                ns += len(live(v))
        u.impl(X('SerJson'), self_ty(x), members='open spec fn js(&self) -> Seq<char> { %s }' % js, fns={X('ser_json'): FnC('', slots, attrs='#[verifier::spinoff_prover] #[verifier::rlimit(200)]')})
        # ---------------------------------------------------------------- reading
        def tup(v, s, wrap='Some((%s, z))'):
            fs = cfields(x, v)
            n = len(fs)
            single = not ron and not v and n == 1
            e = 'match eat(t%d, %s) { None => None, Some(z) => %s }' % (n, PC, wrap % mctor(x, v, [dm(f) if f.skip else 'm%d' % i for i, f in enumerate(fs)]))
            for i in reversed(range(n)):
                if fs[i].skip:
                    e = 'match t%d { t%d => %s }' % (i, i + 1, e)
                    continue
                it = '<%s as DeJson>::parse(t0)' % fs[i].ty if single else 'item::<%s>(t%d)' % (fs[i].ty, i)
                e = 'match %s { None => None, Some((m%d, t%d)) => %s }' % (it, i, i + 1, e)
            return 'match eat(%s, %s) { None => None, Some(t0) => %s }' % (s, PO, e)

        def tmes(v, s):
            fs = cfields(x, v)
            n = len(fs)
            single = not ron and not v and n == 1
            e = ''
            for i in reversed(range(n)):
                if fs[i].skip:
                    e = 'let t%d = t%d; %s' % (i + 1, i, e)
                    continue
                it = '<%s as DeJson>::parse(t0)' % fs[i].ty if single else 'item::<%s>(t%d)' % (fs[i].ty, i)
                lm = '<%s as DeJson>::lemma_mes(t0);' % fs[i].ty if single else 'lemma_mes_item::<%s>(t%d);' % (fs[i].ty, i)
                e = '%s if let Some((m%d, t%d)) = %s { %s }' % (lm, i, i + 1, it, e)
            return 'if let Some(t0) = eat(%s, %s) { %s }' % (s, PO, e)
        missx = ''
        if x.kind == 'enum':
            def ifs(vs, f, els='None'):
                return ''.join('if k == %s { %s } else ' % (vkey(v), f(v)) for v in vs) + '{ %s }' % els
            data = [v for v in x.variants if v.kind != 'unit']
            units = [v for v in x.variants if v.kind == 'unit']
            if ron:
                arm = lambda v: 'Some((%s, s1))' % mctor(x, v, []) if v.kind == 'unit' else tup(v, 's1') if v.kind == 'tuple' else 'pobj::<%s%s>(s1)' % (oname(v), gp)
                lar = lambda v: '' if v.kind == 'unit' else tmes(v, 's1') if v.kind == 'tuple' else 'lemma_mes_obj::<%s%s>(s1);' % (oname(v), gp)
                parse = 'match vhead(s) { None => None, Some((k, s1)) => %s }' % ifs(x.variants, arm)
                mes = 'lemma_mes_vhead(s); if let Some((k, s1)) = vhead(s) { %s }' % ifs(x.variants, lar, '')
            else:
                arm = lambda v: tup(v, 's1') if v.kind == 'tuple' else 'pobj::<%s%s>(s1)' % (oname(v), gp)
                lar = lambda v: tmes(v, 's1') if v.kind == 'tuple' else 'lemma_mes_obj::<%s%s>(s1);' % (oname(v), gp)
                un = ifs(units, lambda v: 'match adv(s.r) { None => None, Some(n) => Some((%s, n)) }' % mctor(x, v, []))
                parse = 'match s.t { '
                if data:
                    parse += 'Tk::CurlyOpen => match vhead(s) { None => None, Some((k, s1)) => match %s { None => None, Some((m, n)) => match eat(n, Tk::CurlyClose) { None => None, Some(z) => Some((m, z)) } } }, ' % ifs(data, arm)
                if units:
                    parse += 'Tk::Str(k) => %s, ' % un
                parse += '_ => None }'
                mes = 'lemma_mes_vhead(s); if let Some((k, s1)) = vhead(s) { %s }' % ifs(data, lar, '') if data else ''
            nv = [v for v in data if v.kind == 'named']
            if nv:
                missx = 'match vhead(%s) { Some((k, s1)) => %s, None => None }' % (_c.JO, ifs(x.variants if ron else data, lambda v: 'pmiss::<%s%s>(s1)' % (oname(v), gp) if v in nv else 'None'))
        elif x.attr and x.attr.startswith('proxy'):
            parse = 'match PxC::parse(s) { None => None, Some((m, n)) => Some((ProxyCM { f0: !m.n }, n)) }'
            mes = 'PxC::lemma_mes(s);'
        elif x.kind == 'named':
            parse = 'pobj::<%s>(s)' % self_ty(x)
            mes = 'lemma_mes_obj::<%s>(s);' % self_ty(x)
            missx = 'pmiss::<%s>(%s)' % (self_ty(x), _c.JO)
        elif x.transparent:
            parse = 'match <%s as DeJson>::parse(s) { None => None, Some((m, n)) => Some((%s, n)) }' % (x.fields[0].ty, mctor(x, None, ['m']))
            mes = '<%s as DeJson>::lemma_mes(s);' % x.fields[0].ty
        elif x.kind == 'unit':
            parse = 'match eat(s, %s) { None => None, Some(t0) => match eat(t0, %s) { None => None, Some(z) => Some((%s { }, z)) } }' % (PO if ron else 'Tk::CurlyOpen', PC if ron else 'Tk::CurlyClose', x.name + 'M')
            mes = ''
        else:
            parse = tup(None, 's')
            mes = tmes(None, 's')
        slots = {}
        for li, v in enumerate(named):
            L = live(v)
            A = aname(v)
            OT = oname(v) + gp
            now = '%s { %s }' % (A, ', '.join('%s: om::<%s>($k%d:%s;)' % (fid(f), pty2(f), li, rlit(f.rn)) for f in L)) if L else '()'
            slots['L%d.pre' % li] = 'let ghost __s0 = jst(*$0, *$1);'
            slots['L%d.spec' % li] = 'invariant inv(*$0, *$1), moved(*old($1), *$1), flds::<%s>(__s0, <%s as Obj>::init()) == flds::<%s>(jst(*$0, *$1), %s) decreases mes(jst(*$0, *$1))' % (OT, OT, OT, now)
            slots['L%d.start' % li] = 'proof { if let Some((k, s2)) = fkey(jst(*$0, *$1)) { <%s as Obj>::lemma_step(k, s2, %s); } }' % (OT, now)
        spec = 'ensures __r matches Err(e) ==> names(e, %s),' % missx if missx else ''
        u.impl(X('DeJson'), self_ty(x), members='open spec fn parse(s: JS) -> Option<(Self::M, JS)> { %s }\nproof fn lemma_mes(s: JS) { %s %s }' % (X(parse), SB, X(mes)),
               fns={X('de_json'): FnC(spec, slots, attrs='#[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(60)]')})
        # ---------------------------------------------------------------- reading what was written
        arms_t, arms_r, arms_g, arms_l, arms_p = [], [], [], [], []
        for v in cases(x):
            n, d = nm(v), dr(v)
            pat = rpat(x, v, n)
            ps = pieces(v, d)
            fs = cfields(x, v)
            k = v.kind if v else x.kind
            arms_t.append('%s => %s,' % (pat, ' + '.join(p[1] for p in ps)))
            r = []
            if k == 'named':
                r.append(rec(v, 'rt', refs(v, d)))
                r += ['%s.model() == %s' % (e, dm(f)) for f, e in zip(fs, d) if f.skip]
            elif x.attr and x.attr.startswith('proxy'):
                r.append('(PxC { n: !%s }).rtok()' % d[0])
            else:
                r += ['%s.model() == %s' % (e, dm(f)) if f.skip else '%s.rtok()' % e for f, e in zip(fs, d)]
            arms_r.append('%s => %s,' % (pat, ' && '.join(r) or 'true'))
            good = ''
            if v:
                good += 'names_v_%s();' % x.name
            if k == 'named':
                good += rec(v, 'good', refs(v, d)) + ';'
                for f, e in zip(fs, d):
                    if f.proxy and not f.skip:
                        good += 'if let Some(i) = %s { lemma_px(i); }' % e if f.opt else 'lemma_px(%s);' % e
            # lexing, right to left
            l = good + chain('a', [p[0] for p in ps], 'post', 'self.js()') + chain('b', [p[1] for p in ps], 'stream(post)', 'self.toks()')
            for i in reversed(range(len(ps))):
                l += ps[i][2].replace('{r}', 'ar%d' % (i + 1)) + 'assert(stream(ar%d) == br%d);' % (i, i)
            arms_l.append('%s => { %s }' % (pat, l))
            arms_g.append('%s => { %s }' % (pat, good + (rec(v, 'x', []) and '')))
            # parsing
            p = good + chain('b', [q[1] for q in ps], 'rest', 'self.toks()')
            i = len(ps) - 1
            while i >= 0:
                tok = ps[i][1]
                if tok.startswith('seq!['):
                    t = tok[5:-1]
                    p += 'lemma_mk(%s, br%d); lemma_wfs_cat(%s, br%d);' % (t, i + 1, tok, i + 1)
                elif tok.startswith('otoks'):
                    e = refs(v, d)
                    p += 'lemma_good_parse::<%s%s>(%s, %s, %s, br%d); lemma_wfs_cat(%s, br%d);' % (oname(v), gp, rec(v, 'es', e), rec(v, 'ts', e), rec(v, 'acc', e), i + 1, tok, i + 1)
                else:
                    e = tok[:-len('.toks()')]
                    if k == 'tuple' and not x.transparent and not (x.attr and x.attr.startswith('proxy')) and not (not ron and not v and len(fs) == 1):
                        last = ps[i + 1][1] == 'seq![%s]' % PC
                        p += 'lemma_item1(%s, br%d, %s);' % (e, i + 1 if last else i + 2, 'true' if last else 'false')
                    else:
                        p += '%s.lemma_toks(); %s.lemma_parses(br%d); lemma_wfs_cat(%s, br%d);' % (e, e, i + 1, tok, i + 1)
                i -= 1
            if x.attr and x.attr.startswith('proxy'):
                p += 'let n0 = %s; assert(!(!n0) == n0) by(bit_vector);' % d[0]
            if len(x.variants or ()) > 1:
                # one lemma per variant: smaller proofs, and a failure names the variant
                E.append('''#[verifier::spinoff_prover] #[verifier::rlimit(60)] pub proof fn read_%s_%s%s(me: &%s, rest: Seq<Tk>) requires me is %s, me.rtok(), wfs(rest), rest[0] != Tk::Bad
  ensures <%s as DeJson>::parse(mk(me.toks() + rest)) == Some((me.model(), mk(rest))) { match me { %s => { %s } _ => { } } }''' % (x.name, v.name, gb('RtJson'), self_ty(x), v.name, self_ty(x), pat, p.replace('self.', 'me.')))
                p = 'read_%s_%s(self, rest);' % (x.name, v.name)
            arms_p.append('%s => { %s }' % (pat, p))
        if x.kind == 'enum':
            vs = x.variants
            E.append('pub proof fn names_v_%s() ensures %s true { %s }' % (
                x.name, ''.join('plain(%s), ' % vkey(v) for v in vs) + ''.join('%s != %s, ' % (vkey(p), vkey(q)) for i, p in enumerate(vs) for q in vs[:i]), lit_names([v.rn for v in vs], ron)))
        E.append('''impl%s RtJson for %s {
  open spec fn toks(&self) -> Seq<Tk> { match self { %s } }
  open spec fn rtok(&self) -> bool { match self { %s } }
  #[verifier::spinoff_prover] #[verifier::rlimit(60)] proof fn lemma_toks(&self) { %s }
  #[verifier::spinoff_prover] #[verifier::rlimit(60)] proof fn lemma_lexes(&self, post: Seq<char>) { match self { %s } }
  #[verifier::spinoff_prover] #[verifier::rlimit(60)] proof fn lemma_parses(&self, rest: Seq<Tk>) { match self { %s } }
}''' % (gb('RtJson'), self_ty(x), '\n '.join(arms_t), '\n '.join(arms_r), toks_proof(x, pieces, nm, dr), '\n '.join(arms_l), '\n '.join(arms_p)))
    u.derived = dict(module='derived', prelude=[X(t) for t in D], epilogue=[X(t) for t in E])
    return u


def toks_proof(x, pieces, nm, dr):
    """first token and last character"""
    a = []
    for v in cases(x):
        ps = pieces(v, dr(v))
        if len(ps) == 1 and ps[0][0].endswith('.js()'):
            t = '%s.lemma_toks();' % ps[0][0][:-len('.js()')]
        elif ps[0][0].startswith('obj(') or ps[-1][0].startswith('obj('):
            t = ''
        else:
            t = ''
        if v:
            t += 'names_v_%s();' % x.name
        a.append('%s => { %s }' % (rpat(x, v, nm(v)), t))
    return 'match self { %s }' % '\n '.join(a)


def pty2(f):
    return 'Px' if f.proxy else f.ty


def upd(A, L, f, e, a):
    if len(L) == 1:
        return '%s { %s: Some(%s) }' % (A, fid(f), e)
    return '%s { %s: Some(%s), ..%s }' % (A, fid(f), e, a)


def lit_names(ns, ron):
    o = ' '.join('reveal_strlit("%s");' % rlit(n) for n in ns)
    if ron:
        o += ' reveal_strlit("true"); reveal_strlit("false");'
    for i, n in enumerate(ns):
        o += ' assert("%s"@.len() == %d);' % (rlit(n), len(n))
    for i, p in enumerate(ns):
        for q in ns[:i] + (['true', 'false'] if ron else []):
            if len(p) == len(q):
                k = next(j for j in range(len(p)) if p[j] != q[j])
                o += ' assert("%s"@[%d] != "%s"@[%d]);' % (rlit(p), k, rlit(q), k)
    return o


def chain(v, pieces, last, whole):
    """whole + last == pieces[0] + (pieces[1] + (...)), one association at a time"""
    t = 'let %s0 = %s;' % (v, pieces[0])
    for i in range(1, len(pieces)):
        t += 'let %s%d = %s%d + %s;' % (v, i, v, i - 1, pieces[i])
    t += 'assert(%s == %s%d); let %sr%d = %s;' % (whole, v, len(pieces) - 1, v, len(pieces), last)
    for i in reversed(range(len(pieces))):
        t += 'let %sr%d = %s + %sr%d;' % (v, i, pieces[i], v, i + 1)
        if i:
            t += 'lemma_assoc(%s%d, %s, %sr%d);' % (v, i - 1, pieces[i], v, i + 1)
    return t
