"""Contracts for the code the SerBin/DeBin derives generate, over the catalogue of shapes."""
import os
from asm import Unit, FnC
import bin as _b
from dercat import *


def pty(f):
    return f.proxy or f.ty


def from_m(f, e):
    return 'of_px(%s)' % e if f.proxy else e


def binx(x, v, names, first=None):
    """bytes of the fields bound to names (references)"""
    return [first] * bool(first) + [('pxv(*%s)' if f.proxy else '%s') % n for f, n in zip(cfields(x, v), names) if not f.skip]


ARITY = set()


def chain(x, v, typ=None):
    """parse of the fields of v (typ: of the variant index before them)"""
    fs = cfields(x, v)
    live = [f for f in fs if not f.skip]
    vals = []
    k = 1 if typ else 0
    for f in fs:
        if f.skip:
            vals.append('<%s as VDefault>::dflt()' % f.ty)
        else:
            vals.append(from_m(f, 'm.%d' % k))
            k += 1
    if k == 0:
        return 'Some((%s, o))' % mctor(x, v, vals)
    return 'match %s(d, o) { None => None, Some((m, e)) => Some((%s, e)) }' % (pt(live, typ), mctor(x, v, vals))


def pt(live, typ):
    ty = [typ] * bool(typ) + [pty(f) for f in live]
    ARITY.add(len(ty))
    return 'parse_t%d::<%s>' % (len(ty), ', '.join(ty))


def tup(es):
    return '(%s,)' % es[0] if len(es) == 1 else '(%s)' % ', '.join(es)


def arity(n):
    """n values one after the other: parsing, locality, round trip (generic, proved once)"""
    A = ['A%d' % i for i in range(n)]
    e = 'Some((%s, o%d))' % (tup(['m%d' % i for i in range(n)]), n)
    for i in reversed(range(n)):
        e = 'match %s::parse(d, o%d) { None => None, Some((m%d, o%d)) => %s }' % (A[i], i, i, i + 1, e)
    o = 'pub open spec fn parse_t%d<%s>(d: Seq<u8>, o0: int) -> Option<(%s, int)> { %s }\n' % (n, ', '.join(a + ': DeBin' for a in A), tup([a + '::M' for a in A]), e)
    P = 'parse_t%d::<%s>' % (n, ', '.join(A))
    loc = ''
    for i in range(n):
        loc += 'let o%d = pe(%s::parse(d, o%d)); %s::lemma_local(d, o%d, d2); ' % (i + 1, A[i], i, A[i], i)
    loc += 'let z = o%d; if d2.len() >= z && d2.subrange(o0, z) == d.subrange(o0, z) { ' % n
    for i in range(n - 1):
        loc += 'lemma_sub_split(d, d2, o%d, o%d, z); ' % (i, i + 1)
    loc += '}'
    o += """pub proof fn local_t%d<%s>(d: Seq<u8>, o0: int, d2: Seq<u8>) requires 0 <= o0 <= d.len(), %s(d, o0) is Some
  ensures o0 <= pe(A0::parse(d, o0)) <= pe(%s(d, o0)) <= d.len(), (d2.len() >= pe(%s(d, o0)) && d2.subrange(o0, pe(%s(d, o0))) == d.subrange(o0, pe(%s(d, o0)))) ==> %s(d2, o0) == %s(d, o0) { %s }\n""" % (
        (n, ', '.join(a + ': DeBin' for a in A)) + (P,) * 7 + (loc,))
    xs = ['x%d' % i for i in range(n)]
    bs = ['b%d' % i for i in range(n)]
    left = lambda i, b: '(' * i + 'pre' + ''.join(' + %s)' % e for e in b[:i])
    right = lambda i, b: ''.join('%s + (' % e for e in b[i:]) + 'post' + ')' * (n - i)
    whole = lambda b: '(' * (n - 1) + b[0] + ''.join(' + %s)' % e for e in b[1:])
    body = ''.join('let b%d = x%d.bin(); ' % (i, i) for i in range(n)) + 'lemma_cat%d(pre, %s, post); ' % (n, ', '.join(bs))
    for i in range(n):
        body += 'x%d.lemma_rt(%s, %s); ' % (i, left(i, bs), right(i + 1, bs))
    xb = ['x%d.bin()' % i for i in range(n)]
    o += """pub proof fn rt_t%d<%s>(%s, pre: Seq<u8>, post: Seq<u8>) ensures %s(pre + (%s) + post, pre.len() as int) == Some((%s, (pre.len() + (%s).len()) as int)) { %s }\n""" % (
        n, ', '.join(a + ': RtBin' for a in A), ', '.join('x%d: %s' % (i, a) for i, a in enumerate(A)), P, whole(xb), tup(['x%d.model()' % i for i in range(n)]), whole(xb), body)
    c = 'pub proof fn lemma_cat%d(pre: Seq<u8>, %s, post: Seq<u8>) ensures ' % (n, ', '.join(b + ': Seq<u8>' for b in bs))
    c += ', '.join('(pre + %s) + post == (%s) + b%d + (%s)' % (whole(bs), left(i, bs), i, right(i + 1, bs)) for i in range(n)) + ' { '
    for i in reversed(range(1, n)):
        w = '(' * (i - 1) + 'b0' + ''.join(' + %s)' % b for b in bs[1:i])
        c += 'lemma_assoc(%s, b%d, %s); ' % (w, i, right(i + 1, bs))
    c += 'lemma_assoc(pre, %s, post); ' % whole(bs)
    for i in range(n):
        c += 'lemma_assoc(%s, b%d, %s); ' % (left(i, bs), i, right(i + 1, bs))
    return o + c + '}'


def unit():
    u = _b.unit()
    u.name = 'derbin'
    u.min_verified = 290
    u.crates = [dict(dir=None, modules=['serde_bin']), dict(dir=os.path.join(HERE, '..', 'catalogue'), modules=[''], pre=preprocess)]
    u.modules = ['serde_bin', '']
    u.text_subs = list(u.text_subs) + [(r'\bDefault::default\(\)', 'VDefault::v_default()'), (r'\bInto::into\(', 'v_into_(')]
    u.trust_modules = {'serde_bin': 'contract discharged by the unit bin (checks C01 to C04)'}
    ts = [x for x in types('b') if x.name not in ('Big', 'Lots', 'LotsE')]  # 301 variants, 40 fields: bounded search only
    names = {x.name for x in ts}
    u.prelude.append(DEFAULTS)
    u.prelude.append('\n'.join(model_of(x) for x in ts + EXTRA[:1]))
    u.only_traits = {'SerBin', 'DeBin'}
    u.only_types = names | {'Inner'}
    for x in ts:
        hdr = self_ty(x)
        cs = cases(x)
        cont = x.attr and x.attr.startswith('proxy')
        # bytes
        def es(i, v):
            n = ['x%d' % k for k in range(len(cfields(x, v)))]
            return n, ['(!x0)'] if cont else binx(x, v, n, '%du16' % i if x.kind == 'enum' else None)
        arms = []
        for i, v in enumerate(cs):
            n, b = es(i, v)
            arms.append('%s => %s,' % (rpat(x, v, n), ' + '.join(e + '.bin()' for e in b) or 'seq![]'))
        u.impl('SerBin', hdr, members='open spec fn bin(&self) -> Seq<u8> { match self { %s } }' % '\n'.join(arms), fns={'ser_bin': FnC('')})
        # parsing
        if cont:
            p = 'match PxC::parse(d, o) { None => None, Some((m, e)) => Some((ProxyCM { f0: !m.n }, e)) }'
            l = 'PxC::lemma_local(d, o, d2);'
            r = '(!self.0).lemma_rt(pre, post); let n0 = self.0; assert(!(!n0) == n0) by(bit_vector);'
        else:
            arms = []
            for i, v in enumerate(cs):
                n, b = es(i, v)
                pxs = ''.join('lemma_px(*%s); ' % a for f, a in zip(cfields(x, v), n) if f.proxy)
                arms.append('%s => { %s }' % (rpat(x, v, n), pxs + 'rt_t%d(%s, pre, post);' % (len(b), ', '.join(e if '(' in e or 'u16' in e else '*' + e for e in b)) if b else ''))
            r = 'match self { %s }' % '\n'.join(arms)
            if x.kind == 'enum':
                p = 'match u16::parse(d, o) { None => None, Some((id, _)) => ' + ' else '.join('if id == %d { %s }' % (i, chain(x, v, 'u16')) for i, v in enumerate(cs)) + ' else { None } }'
                l = 'u16::lemma_local(d, o, d2); let oi = pe(u16::parse(d, o)); let z = pe(Self::parse(d, o)); let id = pm(u16::parse(d, o)); '
                l += ' else '.join('if id == %d { %s(d, o, d2); }' % (i, pt(v.fields, 'u16').replace('parse', 'local')) for i, v in enumerate(cs))
                l += ' if d2.len() >= z && d2.subrange(o, z) == d.subrange(o, z) { lemma_sub_split(d, d2, o, oi, z); }'
            else:
                live = [f for f in x.fields if not f.skip]
                p = chain(x, None)
                l = '%s(d, o, d2);' % pt(live, None).replace('parse', 'local') if live else ''
        u.impl('DeBin', hdr, members='open spec fn parse(d: Seq<u8>, o: int) -> Option<(Self::M, int)> { %s }\nproof fn lemma_local(d: Seq<u8>, o: int, d2: Seq<u8>) { %s }' % (p, l), fns={'de_bin': FnC('')})
        skips = [f for _, f in all_fields(x) if f.skip]
        body = r
        if skips:
            assert not x.generics
            u.epilogue.append('pub proof fn lemma_rt_%s(s: %s, pre: Seq<u8>, post: Seq<u8>) requires %s ensures %s::parse(pre + s.bin() + post, pre.len() as int) == Some((s.model(), (pre.len() + s.bin().len()) as int)) { %s }' % (
                x.name, hdr, ', '.join('s.%s.model() == <%s as VDefault>::dflt()' % (f.name, f.ty) for f in skips), hdr, body.replace('match self', 'match &s')))
        else:
            u.epilogue.append('%s RtBin for %s { proof fn lemma_rt(&self, pre: Seq<u8>, post: Seq<u8>) { %s } }' % (impl_hdr(x, 'RtBin'), hdr, body))
    for n in sorted(ARITY):
        u.prelude.append(arity(n))
    u.prelude.append('pub proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }')
    return u
