"""Shared by the units about derived code: the catalogue of types and their models."""
import os, sys, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'catalogue'))
from spec import TYPES, F, T, V, rlit
sys.path.pop(0)

# recursive types: their model would be a recursive function through trait dispatch, which Verus rejects
RECURSIVE = {'Tree', 'Rec'}
INNER = [F('hi', 'u8'), F('lo', 'u8')]
EXTRA = [T('Inner', 'named', INNER, fmts=''), T('Px', 'named', [F('v', 'u16')], fmts='bj'), T('PxC', 'named', [F('n', 'u32')], fmts='bj')]

DEFAULTS = '''
// ------------------------------------------------------------------ Default, From/Into: as std defines them for the types used
pub trait VDefault: Model + Sized { spec fn dflt() -> Self::M; fn v_default() -> (r: Self) ensures r.model() == Self::dflt(); }
impl<T: Model> VDefault for Option<T> { open spec fn dflt() -> Self::M { None } #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() } }
impl<T: Model> VDefault for Vec<T> { open spec fn dflt() -> Self::M { Seq::empty() } #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() } }
impl VDefault for String { open spec fn dflt() -> Self::M { Seq::empty() } #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() } }
impl VDefault for bool { open spec fn dflt() -> Self::M { false } #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() } }
''' + '\n'.join('impl VDefault for %s { open spec fn dflt() -> Self::M { 0%s } #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() } }' % (t, t)
                for t in 'u8 u16 u32 u64 i8 i16 i32 i64'.split()) + '''
/// conversions written by the user of the derive (the catalogue's Px and PxC)
pub trait VIntoT<T: Model>: Sized { spec fn into_m(&self) -> T::M; fn v_into(self) -> (r: T) ensures r.model() == self.into_m(); }
pub fn v_into_<S: VIntoT<T>, T: Model>(s: S) -> (r: T) ensures r.model() == s.into_m() { s.v_into() }
#[verifier::opaque] pub open spec fn px_of(i: InnerM<u8, u8>) -> PxM<u16> { PxM { v: (i.hi * 256 + i.lo) as u16 } }
#[verifier::opaque] pub open spec fn of_px(p: PxM<u16>) -> InnerM<u8, u8> { InnerM { hi: (p.v / 256) as u8, lo: (p.v % 256) as u8 } }
pub open spec fn pxv(i: Inner) -> Px { Px { v: px_of(i.model()).v } }
pub proof fn lemma_px(i: Inner) ensures of_px(pxv(i).model()) == i.model() {
  reveal(px_of); reveal(of_px);
  let h = i.hi as int; let l = i.lo as int; let v = h * 256 + l;
  assert(0 <= v < 65536 && v / 256 == h && v % 256 == l) by(nonlinear_arith) requires 0 <= h < 256, 0 <= l < 256, v == h * 256 + l;
}
impl<'a> VIntoT<Px> for &'a Inner { open spec fn into_m(&self) -> <Px as Model>::M { px_of((**self).model()) } #[verifier::external_body] fn v_into(self) -> (r: Px) { unimplemented!() } }
impl<'a> VIntoT<Inner> for &'a Px { open spec fn into_m(&self) -> <Inner as Model>::M { of_px((**self).model()) } #[verifier::external_body] fn v_into(self) -> (r: Inner) { unimplemented!() } }
impl<'a> VIntoT<PxC> for &'a ProxyC { open spec fn into_m(&self) -> <PxC as Model>::M { PxCM { n: !self.0 } } #[verifier::external_body] fn v_into(self) -> (r: PxC) { unimplemented!() } }
impl<'a> VIntoT<ProxyC> for &'a PxC { open spec fn into_m(&self) -> <ProxyC as Model>::M { ProxyCM { f0: !self.n } } #[verifier::external_body] fn v_into(self) -> (r: ProxyC) { unimplemented!() } }
'''


def gens(x):
    return [g.strip() for g in x.generics.split(',')] if x.generics else []


def self_ty(x):
    return x.name + ('<%s>' % ','.join(gens(x)) if x.generics else '')


def impl_hdr(x, bound):
    g = gens(x)
    return 'impl' + ('<%s>' % ', '.join('%s: %s' % (p, bound) for p in g) if g else '')


def fid(f):
    """name of the field in the ghost model"""
    return 'f' + f.name if f.name.isdigit() else f.name


def all_fields(x):
    """(variant or None, field) in order"""
    if x.kind == 'enum':
        return [(v, f) for v in x.variants for f in v.fields]
    return [(None, f) for f in x.fields]


def mty(x):
    a = ['<%s as Model>::M' % f.ty for _, f in all_fields(x)]
    return x.name + 'M' + ('<%s>' % ', '.join(a) if a else '')


def mctor(x, v, vals):
    """ghost constructor expression; vals: list aligned with the fields"""
    fs = v.fields if v else x.fields
    n = '%sM::%s' % (x.name, v.name) if v else x.name + 'M'
    if v and not fs:
        return n
    return '%s { %s }' % (n, ', '.join('%s: %s' % (fid(f), e) for f, e in zip(fs, vals)))


def rpat(x, v, names):
    """pattern over the real type"""
    fs, kind = (v.fields, v.kind) if v else (x.fields, x.kind)
    n = '%s::%s' % (x.name, v.name) if v else x.name
    if kind == 'unit':
        return n
    if kind == 'tuple':
        return '%s(%s)' % (n, ', '.join(names))
    return '%s { %s }' % (n, ', '.join('%s: %s' % (f.name, m) for f, m in zip(fs, names)))


def cases(x):
    return x.variants if x.kind == 'enum' else [None]


def cfields(x, v):
    return v.fields if v else x.fields


def model_of(x):
    af = all_fields(x)
    gp = ['P%d' % i for i in range(len(af))]
    g = '<%s>' % ', '.join(gp) if gp else ''
    o = []
    if x.kind == 'enum':
        i = 0
        vs = []
        for v in x.variants:
            if v.fields:
                vs.append('%s { %s }' % (v.name, ', '.join('%s: %s' % (fid(f), gp[i + k]) for k, f in enumerate(v.fields))))
            else:
                vs.append(v.name)
            i += len(v.fields)
        o.append('pub ghost enum %sM%s { %s }' % (x.name, g, ', '.join(vs)))
    else:
        o.append('pub ghost struct %sM%s { %s }' % (x.name, g, ', '.join('pub %s: %s' % (fid(f), p) for (_, f), p in zip(af, gp))))
    arms = []
    for v in cases(x):
        fs = cfields(x, v)
        n = ['x%d' % i for i in range(len(fs))]
        arms.append('%s => %s,' % (rpat(x, v, n), mctor(x, v, ['%s.model()' % m for m in n])))
    o.append('%s Model for %s { type M = %s; open spec fn model(&self) -> Self::M { match self { %s } } }' % (impl_hdr(x, 'Model'), self_ty(x), mty(x), '\n '.join(arms)))
    return '\n'.join(o)


def types(fmt):
    return [x for x in EXTRA + TYPES if fmt in x.fmts and x.name not in RECURSIVE]


def preprocess(text):
    """paths into nanoserde become names of the same file; bounds by traits of std on type parameters, which only restrict them, go"""
    text = re.sub(r'\b(crate\s*::\s*ns|nanoserde)\s*::\s*', '', text)
    std = r'(?:::core::\w+::)?(?:Clone|PartialEq|Send)\b'
    text = re.sub(r'(:\s*)%s(\s*\+\s*%s)*\s*\+\s*' % (std, std), r'\1', text)
    text = re.sub(r'\bwhere\s+[A-Z]:\s*%s(\s*\+\s*%s)*\s*(?=[{;])' % (std, std), '', text)
    return re.sub(r'\b([A-Z]):\s*%s(\s*\+\s*%s)*(?=\s*[,>])' % (std, std), r'\1', text)
