"""Contracts for /repo/src/serde_bin.rs"""
import os
from asm import Unit, FnC

HERE = os.path.dirname(os.path.abspath(__file__))
INTS = [('u8', 1), ('u16', 2), ('u32', 4), ('u64', 8), ('u128', 16), ('i8', 1), ('i16', 2), ('i32', 4), ('i64', 8), ('i128', 16)]


def common():
    t = open(os.path.join(HERE, 'common.rs')).read()
    ints = '\n'.join('impl Model for %s { type M = %s; open spec fn model(&self) -> %s { *self } }' % (t_, t_, t_)
                     for t_ in ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'char'])
    return t.replace('//@MODEL_INTS', ints)


LE = r'''
// ------------------------------------------------------------------ little-endian layout
pub open spec fn p256(k: nat) -> int decreases k { if k == 0 { 1 } else { 256 * p256((k - 1) as nat) } }
pub open spec fn le(v: int, k: nat) -> Seq<u8> decreases k {
    if k == 0 { seq![] } else { seq![(v % 256) as u8] + le(v / 256, (k - 1) as nat) }
}
pub open spec fn unle(b: Seq<u8>) -> int decreases b.len() {
    if b.len() == 0 { 0 } else { b[0] as int + 256 * unle(b.skip(1)) }
}
pub proof fn lemma_le_len(v: int, k: nat) ensures le(v, k).len() == k decreases k { if k > 0 { lemma_le_len(v / 256, (k - 1) as nat); } }
pub proof fn lemma_unle_le(v: int, k: nat)
    requires 0 <= v < p256(k)
    ensures unle(le(v, k)) == v, le(v, k).len() == k
    decreases k
{
    lemma_le_len(v, k);
    if k > 0 {
        lemma_unle_le(v / 256, (k - 1) as nat);
        assert(le(v, k).skip(1) =~= le(v / 256, (k - 1) as nat));
    }
}
pub proof fn lemma_unle_bound(b: Seq<u8>) ensures 0 <= unle(b) < p256(b.len()) decreases b.len() { if b.len() > 0 { lemma_unle_bound(b.skip(1)); } }
pub proof fn lemma_p256() ensures p256(1) == 0x100, p256(2) == 0x1_0000, p256(4) == 0x1_0000_0000, p256(8) == 0x1_0000_0000_0000_0000, p256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000 {
    reveal_with_fuel(p256, 17);
}
/// what `to_le_bytes` yields: the two's complement pattern, least significant byte first
pub trait VLe<const N: usize>: Sized {
    spec fn lepat(self) -> Seq<u8>;
    spec fn unlepat(b: Seq<u8>) -> Self;
    fn v_to_le_bytes(&self) -> (r: [u8; N]) ensures r@ == (*self).lepat();
    fn v_from_le_bytes(b: [u8; N]) -> (r: Self) ensures r == Self::unlepat(b@);
}
pub trait VTryInto<const N: usize> { spec fn sp_b(&self) -> Seq<u8>; fn v_try_into(&self) -> (r: Result<[u8; N], VErr>) ensures r is Ok <==> self.sp_b().len() == N, r is Ok ==> r->Ok_0@ == self.sp_b(); }
impl<const N: usize> VTryInto<N> for [u8] { open spec fn sp_b(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_try_into(&self) -> (r: Result<[u8; N], VErr>) { unimplemented!() } }
'''


def le_impls():
    out = []
    for t, n in INTS:
        un = 'u%d' % (8 * n)
        if t[0] == 'u':
            to = 'le(self as int, %d)' % n
            fr = 'unle(b) as %s' % t
        else:
            to = 'le((self as %s) as int, %d)' % (un, n)
            fr = '(unle(b) as %s) as %s' % (un, t)
        out.append('''impl VLe<%d> for %s { open spec fn lepat(self) -> Seq<u8> { %s } open spec fn unlepat(b: Seq<u8>) -> %s { %s }
 #[verifier::external_body] fn v_to_le_bytes(&self) -> (r: [u8; %d]) { unimplemented!() } #[verifier::external_body] fn v_from_le_bytes(b: [u8; %d]) -> (r: Self) { unimplemented!() } }''' % (n, t, to, t, fr, n, n))
        if t[0] == 'u':
            cast = ''
        else:
            cast = 'assert((x as %s) as %s == x) by(bit_vector);' % (un, t)
        out.append('''pub proof fn lemma_le_%s(x: %s) ensures %s::unlepat(x.lepat()) == x, x.lepat().len() == %d {
   lemma_p256(); lemma_unle_le(%s, %d); %s }''' % (t, t, t, n, 'x as int' if t[0] == 'u' else '(x as %s) as int' % un, n, cast))
    for t, u, n in [('f32', 'u32', 4), ('f64', 'u64', 8)]:
        out.append('''impl VLe<%d> for %s { open spec fn lepat(self) -> Seq<u8> { le(bits%d(self) as int, %d) } uninterp spec fn unlepat(b: Seq<u8>) -> %s;
 #[verifier::external_body] fn v_to_le_bytes(&self) -> (r: [u8; %d]) { unimplemented!() } #[verifier::external_body] fn v_from_le_bytes(b: [u8; %d]) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub proof fn ax_%s(b: Seq<u8>) ensures b.len() == %d ==> bits%d(%s::unlepat(b)) == unle(b) {}''' % (n, t, 8 * n, n, t, n, n, t, n, 8 * n, t))
    return '\n'.join(out)


SER_SPEC = 'ensures final($1)@ == old($1)@ + self.bin() /*#C04 C01 APPEND*/'
DE_SPEC = '''requires *old($0) <= $1@.len(), $1@.len() <= 0x7fff_ffff_ffff_ffff, $1@.len() <= cap_limit()
ensures
  *old($0) <= *final($0) <= $1@.len() /*#C02*/,
  match __r { Ok(v) => Self::parse($1@, *old($0) as int) == Some((v.model(), *final($0) as int)) /*#C04 C01 C03*/, Err(_) => Self::parse($1@, *old($0) as int) is None /*#C04 C01 C03*/ }'''

TR_DE = '''
spec fn parse(d: Seq<u8>, o: int) -> Option<(Self::M, int)>;
proof fn lemma_local(d: Seq<u8>, o: int, d2: Seq<u8>)
    requires 0 <= o <= d.len(), Self::parse(d, o) is Some
    ensures
        o <= pe(Self::parse(d, o)) <= d.len(),
        (d2.len() >= pe(Self::parse(d, o)) && d2.subrange(o, pe(Self::parse(d, o))) == d.subrange(o, pe(Self::parse(d, o)))) ==> Self::parse(d2, o) == Self::parse(d, o);
'''

HELPERS = r'''
pub open spec fn pe<A>(x: Option<(A, int)>) -> int { match x { Some((_, e)) => e, None => 0 } }
pub open spec fn pm<A>(x: Option<(A, int)>) -> A { match x { Some((m, _)) => m, None => arbitrary() } }
pub open spec fn sub(d: Seq<u8>, a: int, b: int) -> Seq<u8> { d.subrange(a, b) }
/// fixed-width read
pub open spec fn rdn(d: Seq<u8>, o: int, n: int) -> Option<(Seq<u8>, int)> { if o + n <= d.len() { Some((d.subrange(o, o + n), o + n)) } else { None } }
pub open spec fn flat<T: SerBin>(s: Seq<T>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { flat(s.drop_last()) + s.last().bin() } }
pub open spec fn flatkv<K: SerBin, V: SerBin>(s: Seq<(K, V)>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { flatkv(s.drop_last()) + s.last().0.bin() + s.last().1.bin() } }
pub open spec fn parse_n<T: DeBin>(d: Seq<u8>, o: int, n: nat) -> Option<(Seq<T::M>, int)> decreases n {
    if n == 0 { Some((Seq::empty(), o)) } else {
        match parse_n::<T>(d, o, (n - 1) as nat) { None => None, Some((s, o1)) => match T::parse(d, o1) { None => None, Some((m, o2)) => Some((s.push(m), o2)) } }
    }
}
pub open spec fn parse_kv<K: DeBin, V: DeBin>(d: Seq<u8>, o: int, n: nat) -> Option<(Seq<(K::M, V::M)>, int)> decreases n {
    if n == 0 { Some((Seq::empty(), o)) } else {
        match parse_kv::<K, V>(d, o, (n - 1) as nat) { None => None, Some((s, o1)) => match K::parse(d, o1) { None => None, Some((m, o2)) => match V::parse(d, o2) { None => None, Some((mv, o3)) => Some((s.push((m, mv)), o3)) } } }
    }
}
pub proof fn lemma_n_mono<T: DeBin>(d: Seq<u8>, o: int, i: nat, n: nat)
    requires i <= n, parse_n::<T>(d, o, i) is None ensures parse_n::<T>(d, o, n) is None decreases n - i
{ if i < n { assert(parse_n::<T>(d, o, i + 1) is None); lemma_n_mono::<T>(d, o, i + 1, n); } }
pub proof fn lemma_kv_mono<K: DeBin, V: DeBin>(d: Seq<u8>, o: int, i: nat, n: nat)
    requires i <= n, parse_kv::<K, V>(d, o, i) is None ensures parse_kv::<K, V>(d, o, n) is None decreases n - i
{ if i < n { assert(parse_kv::<K, V>(d, o, i + 1) is None); lemma_kv_mono::<K, V>(d, o, i + 1, n); } }
pub proof fn lemma_sub_split(d: Seq<u8>, d2: Seq<u8>, a: int, b: int, c: int)
    requires 0 <= a <= b <= c <= d.len(), c <= d2.len(), d2.subrange(a, c) == d.subrange(a, c)
    ensures d2.subrange(a, b) == d.subrange(a, b), d2.subrange(b, c) == d.subrange(b, c)
{
    assert(d2.subrange(a, c).subrange(0, b - a) =~= d2.subrange(a, b)); assert(d.subrange(a, c).subrange(0, b - a) =~= d.subrange(a, b));
    assert(d2.subrange(a, c).subrange(b - a, c - a) =~= d2.subrange(b, c)); assert(d.subrange(a, c).subrange(b - a, c - a) =~= d.subrange(b, c));
}
pub proof fn lemma_n_local<T: DeBin>(d: Seq<u8>, o: int, n: nat, d2: Seq<u8>)
    requires 0 <= o <= d.len(), parse_n::<T>(d, o, n) is Some
    ensures o <= pe(parse_n::<T>(d, o, n)) <= d.len(), pm(parse_n::<T>(d, o, n)).len() == n,
      (d2.len() >= pe(parse_n::<T>(d, o, n)) && d2.subrange(o, pe(parse_n::<T>(d, o, n))) == d.subrange(o, pe(parse_n::<T>(d, o, n)))) ==> parse_n::<T>(d2, o, n) == parse_n::<T>(d, o, n)
    decreases n
{
    if n > 0 {
        lemma_n_local::<T>(d, o, (n - 1) as nat, d2);
        let o1 = pe(parse_n::<T>(d, o, (n - 1) as nat)); let o2 = pe(parse_n::<T>(d, o, n));
        T::lemma_local(d, o1, d2);
        if d2.len() >= o2 && d2.subrange(o, o2) == d.subrange(o, o2) { lemma_sub_split(d, d2, o, o1, o2); }
    }
}
pub proof fn lemma_kv_local<K: DeBin, V: DeBin>(d: Seq<u8>, o: int, n: nat, d2: Seq<u8>)
    requires 0 <= o <= d.len(), parse_kv::<K, V>(d, o, n) is Some
    ensures o <= pe(parse_kv::<K, V>(d, o, n)) <= d.len(), pm(parse_kv::<K, V>(d, o, n)).len() == n,
      (d2.len() >= pe(parse_kv::<K, V>(d, o, n)) && d2.subrange(o, pe(parse_kv::<K, V>(d, o, n))) == d.subrange(o, pe(parse_kv::<K, V>(d, o, n)))) ==> parse_kv::<K, V>(d2, o, n) == parse_kv::<K, V>(d, o, n)
    decreases n
{
    if n > 0 {
        lemma_kv_local::<K, V>(d, o, (n - 1) as nat, d2);
        let o1 = pe(parse_kv::<K, V>(d, o, (n - 1) as nat)); let o3 = pe(parse_kv::<K, V>(d, o, n));
        K::lemma_local(d, o1, d2);
        let o2 = pe(K::parse(d, o1));
        V::lemma_local(d, o2, d2);
        if d2.len() >= o3 && d2.subrange(o, o3) == d.subrange(o, o3) { lemma_sub_split(d, d2, o, o1, o3); lemma_sub_split(d, d2, o1, o2, o3); }
    }
}
/// C03: no shorter prefix of the consumed bytes decodes, and nothing outside them matters
pub proof fn lemma_truncated<T: DeBin>(d: Seq<u8>, o: int, t: int)
    requires 0 <= o <= t < pe(T::parse(d, o)), o <= d.len(), T::parse(d, o) is Some, t <= d.len()
    ensures T::parse(d.take(t), o) is None
{
    let p = d.take(t);
    T::lemma_local(d, o, d);
    if T::parse(p, o) is Some {
        let e = pe(T::parse(p, o));
        T::lemma_local(p, o, d);
        assert(d.subrange(o, e) =~= p.subrange(o, e));
    }
}
/// C01: what was encoded decodes to the same value, whatever surrounds it
pub trait RtBin: SerBin + DeBin {
    proof fn lemma_rt(&self, pre: Seq<u8>, post: Seq<u8>)
        ensures Self::parse(pre + self.bin() + post, pre.len() as int) == Some((self.model(), (pre.len() + self.bin().len()) as int));
}
pub proof fn lemma_flat_rt<T: RtBin>(s: Seq<T>, pre: Seq<u8>, post: Seq<u8>)
    ensures parse_n::<T>(pre + flat(s) + post, pre.len() as int, s.len()) == Some((models(s), (pre.len() + flat(s).len()) as int))
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); let b = s.last().bin();
        lemma_flat_rt(t, pre, b + post);
        assert(pre + flat(t) + (b + post) =~= pre + flat(s) + post);
        s.last().lemma_rt(pre + flat(t), post);
        assert((pre + flat(t)) + b + post =~= pre + flat(s) + post);
        assert(models(s) =~= models(t).push(s.last().model()));
    } else { assert(models(s) =~= Seq::empty()); }
}
pub proof fn lemma_flatkv_rt<K: RtBin, V: RtBin>(s: Seq<(K, V)>, pre: Seq<u8>, post: Seq<u8>)
    ensures parse_kv::<K, V>(pre + flatkv(s) + post, pre.len() as int, s.len()) == Some((kvmodels(s), (pre.len() + flatkv(s).len()) as int))
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); let b = s.last().0.bin(); let c = s.last().1.bin();
        lemma_flatkv_rt(t, pre, b + c + post);
        assert(pre + flatkv(t) + (b + c + post) =~= pre + flatkv(s) + post);
        s.last().0.lemma_rt(pre + flatkv(t), c + post);
        assert((pre + flatkv(t)) + b + (c + post) =~= pre + flatkv(s) + post);
        s.last().1.lemma_rt(pre + flatkv(t) + b, post);
        assert((pre + flatkv(t) + b) + c + post =~= pre + flatkv(s) + post);
        assert(kvmodels(s) =~= kvmodels(t).push((s.last().0.model(), s.last().1.model())));
    } else { assert(kvmodels(s) =~= Seq::empty()); }
}
'''


def fixed(t, n, conv, spec_model):
    """types read as a fixed number of bytes"""
    return ''


def unit():
    u = Unit('bin', ['serde_bin'])
    u.min_verified = 150
    u.prelude = [common(), LE, le_impls(), HELPERS]
    u.skip |= {('Clone', 'DeBinErr'), ('Clone', 'DeBinErrReason')}
    u.traits['SerBin'] = dict(bounds='Model', members='spec fn bin(&self) -> Seq<u8>;', methods={
        'serialize_bin': FnC('ensures __r@ == self.bin() /*#C04 C01*/', {'tail': 'proof { assert($l0@ =~= self.bin()); }'}),
        'ser_bin': FnC(SER_SPEC),
    })
    u.traits['DeBin'] = dict(bounds='Model', members=TR_DE, methods={
        'deserialize_bin': FnC('''requires $0@.len() <= 0x7fff_ffff_ffff_ffff, $0@.len() <= cap_limit()
ensures match __r { Ok(v) => Self::parse($0@, 0) is Some && pm(Self::parse($0@, 0)) == v.model() /*#C04 C01 C03*/, Err(_) => Self::parse($0@, 0) is None /*#C04 C01 C03*/ }'''),
        'de_bin': FnC(DE_SPEC),
    })
    u.impl(None, 'DeBinErr', fns={'new': FnC('')})

    def ser(ty, binspec, slots=None, where='', before=''):
        u.impl('SerBin', ty, members='open spec fn bin(&self) -> Seq<u8> { %s }' % binspec, fns={'ser_bin': FnC('', slots)}, where=where, before=before)

    def de(ty, parse, local, slots=None, after='', trusted=None):
        u.impl('DeBin', ty, members='open spec fn parse(d: Seq<u8>, o: int) -> Option<(Self::M, int)> { %s }\nproof fn lemma_local(d: Seq<u8>, o: int, d2: Seq<u8>) { %s }' % (parse, local),
               fns={'de_bin': FnC('', slots, trusted=trusted)}, after=after)

    def rt(hdr, body):
        u.epilogue.append('%s { proof fn lemma_rt(&self, pre: Seq<u8>, post: Seq<u8>) { let d = pre + self.bin() + post; let o = pre.len() as int; %s } }' % (hdr, body))

    for t, n in INTS + [('f32', 4), ('f64', 8)]:
        if t == 'u8':
            ser('u8', 'seq![*self]')
            de('u8', 'match rdn(d, o, 1) { Some((b, e)) => Some((b[0], e)), None => None }', 'if d2.len() >= o + 1 && d2.subrange(o, o + 1) == d.subrange(o, o + 1) { }')
            rt('impl RtBin for u8', '')
            continue
        conv = '%s::unlepat(b)' % t
        if t[0] == 'f':
            conv = 'unle(b) as u%d' % (8 * n)
        ser(t, '(*self).lepat()')
        slots = {'start': 'proof { if *$0 + %d <= $1@.len() { let __b = $1@.subrange(*$0 as int, *$0 + %d); %s } }' % (n, n, 'ax_%s(__b);' % t if t[0] == 'f' else '')}
        de(t, 'match rdn(d, o, %d) { Some((b, e)) => Some((%s, e)), None => None }' % (n, conv), '', slots)
        if t[0] == 'f':
            rt('impl RtBin for %s' % t, 'lemma_p256(); lemma_unle_le(bits%d(*self) as int, %d); assert(d.subrange(o, o + %d) =~= self.bin());' % (8 * n, n, n))
        else:
            rt('impl RtBin for %s' % t, 'lemma_le_%s(*self); assert(d.subrange(o, o + %d) =~= self.bin());' % (t, n))
    ser('usize', 'le(*self as int, 8)')
    de('usize', 'match rdn(d, o, 8) { Some((b, e)) => Some((unle(b) as usize, e)), None => None }', '')
    rt('impl RtBin for usize', 'lemma_p256(); lemma_unle_le(*self as int, 8); assert(d.subrange(o, o + 8) =~= self.bin());')
    ser('bool', 'seq![if *self { 1u8 } else { 0u8 }]')
    de('bool', 'match rdn(d, o, 1) { Some((b, e)) => Some((b[0] != 0, e)), None => None }', 'if d2.len() >= o + 1 && d2.subrange(o, o + 1) == d.subrange(o, o + 1) { assert(d.subrange(o, o + 1)[0] == d2.subrange(o, o + 1)[0]); }')
    rt('impl RtBin for bool', '')
    ser('String', 'le(encode_utf8(self@).len() as int, 8) + encode_utf8(self@)')
    de('String', '''match usize::parse(d, o) { None => None, Some((n, e)) => match rdn(d, e, n as int) { None => None,
        Some((b, e2)) => if valid_utf8(b) { Some((decode_utf8(b), e2)) } else { None } } }''',
       'let e = pe(usize::parse(d, o)); let e2 = pe(Self::parse(d, o)); usize::lemma_local(d, o, d2); if d2.len() >= e2 && d2.subrange(o, e2) == d.subrange(o, e2) { lemma_sub_split(d, d2, o, e, e2); }')
    rt('impl RtBin for String', '''let b = encode_utf8(self@); ax_len_string(*self); let n = b.len() as usize;
        n.lemma_rt(pre, b + post); assert(pre + n.bin() + (b + post) =~= d); lemma_le_len(n as int, 8);
        assert(d.subrange(o + 8, o + 8 + b.len()) =~= b); encode_utf8_valid_utf8(self@); encode_utf8_decode_utf8(self@);''')

    # sequences
    for ty, items, view, lenax in [('Vec<T>', 'self@', '$l1@', 'ax_len_vec(*self)'), ('LinkedList<T>', 'items_ll(*self)', 'items_ll($l1)', 'ax_len_ll(*self)'),
                            ('HashSet<T>', 'items_hs(*self)', None, 'ax_len_hs(*self)'), ('BTreeSet<T>', 'items_bs(*self)', None, 'ax_len_bs(*self)')]:
        ser(ty, 'le(%s.len() as int, 8) + flat(%s)' % (items, items), {
            'L0.pre': 'let ghost __b0 = $1@; let ghost __n: int = 0; proof { assert(%s.take(0) =~= Seq::empty()); }' % items,
            'L0.spec': '''invariant 0 <= __n <= {I}.len(), __it0@ == Seq::new(({I}.len() - __n) as nat, |i: int| &{I}[i + __n]), $1@ == __b0 + flat({I}.take(__n))
              ensures __it0@.len() == 0 decreases __it0@.len()'''.replace('{I}', items),
            'L0.start': 'let ghost __n0 = __n;',
            'L0.end': 'proof { __n = __n + 1; assert({I}.take(__n).drop_last() =~= {I}.take(__n0)); assert({I}.take(__n).last() == {I}[__n0]); assert(__it0@ =~= Seq::new(({I}.len() - __n) as nat, |i: int| &{I}[i + __n])); assert($1@ =~= __b0 + flat({I}.take(__n))); }'.replace('{I}', items),
            'L0.after': 'proof { assert({I}.take(__n) =~= {I}); assert($1@ =~= old($1)@ + self.bin()); }'.replace('{I}', items),
        })
        kind = 'set' if view is None else 'seq'
        if kind == 'seq':
            inv = 'models(%s) == __p' % view
            res = 's'
        else:
            inv = '$l1.model() == fold_set(__p)'
            res = 'fold_set(s)'
        endp = 'assert(models(%s) =~= __p); ' % view if kind == 'seq' else 'assert(__p.drop_last() =~= __p0); '
        de(ty, 'match usize::parse(d, o) { None => None, Some((n, e)) => match parse_n::<T>(d, e, n as nat) { None => None, Some((s, e2)) => Some((%s, e2)) } }' % res,
           'let e = pe(usize::parse(d, o)); let n = pm(usize::parse(d, o)); usize::lemma_local(d, o, d2); lemma_n_local::<T>(d, e, n as nat, d2); let e2 = pe(parse_n::<T>(d, e, n as nat)); if d2.len() >= e2 && d2.subrange(o, e2) == d.subrange(o, e2) { lemma_sub_split(d, d2, o, e, e2); }', {
            'L0.pre': 'let ghost __o1 = *$0; let ghost mut __p: Seq<T::M> = Seq::empty(); proof { assert(models(%s) =~= Seq::empty()); }' % (view if view else {'HashSet<T>': 'items_hs($l1)', 'BTreeSet<T>': 'items_bs($l1)'}[ty]),
            'L0.spec': '''invariant usize::parse($1@, *old($0) as int) == Some(($l0, __o1 as int)), *old($0) <= __o1 <= *$0 <= $1@.len() <= 0x7fff_ffff_ffff_ffff, $1@.len() <= cap_limit(), __p.len() + __it0@.len() == $l0,
               parse_n::<T>($1@, __o1 as int, __p.len()) == Some((__p, *$0 as int)), %s
              ensures __it0@.len() == 0 decreases __it0@.len()''' % inv,
            'L0.start': 'let ghost __p0 = __p; let ghost __o2 = *$0 as int; proof { if T::parse($1@, __o2) is None { assert(parse_n::<T>($1@, __o1 as int, __p.len() + 1) is None); lemma_n_mono::<T>($1@, __o1 as int, __p.len() + 1, $l0 as nat); } }',
            'L0.end': '; proof { __p = __p.push(pm(T::parse($1@, __o2))); %s }' % endp,
           })
        rt('impl<T: RtBin%s> RtBin for %s' % ({'HashSet<T>': ' + Hash + Eq', 'BTreeSet<T>': ' + Ord'}.get(ty, ''), ty),
           '''let s = {I}; {A}; let n = s.len() as usize; n.lemma_rt(pre, flat(s) + post); assert(pre + n.bin() + (flat(s) + post) =~= d); lemma_le_len(n as int, 8);
              lemma_flat_rt(s, pre + n.bin(), post); assert((pre + n.bin()) + flat(s) + post =~= d);'''.replace('{I}', items).replace('{A}', lenax))
    for ty, items, lenax, kb in [('HashMap<K,V>', 'items_hm(*self)', 'ax_len_hm(*self)', 'Eq + Hash'), ('BTreeMap<K,V>', 'items_bm(*self)', 'ax_len_bm(*self)', 'Eq + Ord')]:
        new = {'HashMap<K,V>': 'items_hm($l1)', 'BTreeMap<K,V>': 'items_bm($l1)'}[ty]
        ser(ty, 'le(%s.len() as int, 8) + flatkv(%s)' % (items, items), {
            'L0.pre': 'let ghost __b0 = $1@; let ghost __n: int = 0; proof { assert(%s.take(0) =~= Seq::empty()); }' % items,
            'L0.spec': '''invariant 0 <= __n <= {I}.len(), __it0@ == Seq::new(({I}.len() - __n) as nat, |i: int| (&{I}[i + __n].0, &{I}[i + __n].1)), $1@ == __b0 + flatkv({I}.take(__n))
              ensures __it0@.len() == 0 decreases __it0@.len()'''.replace('{I}', items),
            'L0.start': 'let ghost __n0 = __n;',
            'L0.end': 'proof { __n = __n + 1; assert({I}.take(__n).drop_last() =~= {I}.take(__n0)); assert({I}.take(__n).last() == {I}[__n0]); assert(__it0@ =~= Seq::new(({I}.len() - __n) as nat, |i: int| (&{I}[i + __n].0, &{I}[i + __n].1))); assert($1@ =~= __b0 + flatkv({I}.take(__n))); }'.replace('{I}', items),
            'L0.after': 'proof { assert({I}.take(__n) =~= {I}); assert($1@ =~= old($1)@ + self.bin()); }'.replace('{I}', items),
        })
        de(ty, 'match usize::parse(d, o) { None => None, Some((n, e)) => match parse_kv::<K, V>(d, e, n as nat) { None => None, Some((s, e2)) => Some((fold_map(s), e2)) } }',
           'let e = pe(usize::parse(d, o)); let n = pm(usize::parse(d, o)); usize::lemma_local(d, o, d2); lemma_kv_local::<K, V>(d, e, n as nat, d2); let e2 = pe(parse_kv::<K, V>(d, e, n as nat)); if d2.len() >= e2 && d2.subrange(o, e2) == d.subrange(o, e2) { lemma_sub_split(d, d2, o, e, e2); }', {
            'L0.pre': 'let ghost __o1 = *$0; let ghost mut __p: Seq<(K::M, V::M)> = Seq::empty(); proof { assert(kvmodels(%s) =~= Seq::empty()); }' % new,
            'L0.spec': '''invariant usize::parse($1@, *old($0) as int) == Some(($l0, __o1 as int)), *old($0) <= __o1 <= *$0 <= $1@.len() <= 0x7fff_ffff_ffff_ffff, $1@.len() <= cap_limit(), __p.len() + __it0@.len() == $l0,
               parse_kv::<K, V>($1@, __o1 as int, __p.len()) == Some((__p, *$0 as int)), $l1.model() == fold_map(__p)
              ensures __it0@.len() == 0 decreases __it0@.len()''',
            'L0.start': '''let ghost __p0 = __p; let ghost __o2 = *$0 as int; proof { let kp = K::parse($1@, __o2); if kp is None || V::parse($1@, pe(kp)) is None { assert(parse_kv::<K, V>($1@, __o1 as int, __p.len() + 1) is None); lemma_kv_mono::<K, V>($1@, __o1 as int, __p.len() + 1, $l0 as nat); } }''',
            'L0.end': '; proof { let kp = K::parse($1@, __o2)->0; __p = __p.push((kp.0, pm(V::parse($1@, kp.1)))); assert(__p.drop_last() =~= __p0); }',
           })
        rt('impl<K: RtBin + %s, V: RtBin> RtBin for %s' % (kb, ty),
           '''let s = {I}; {A}; let n = s.len() as usize; n.lemma_rt(pre, flatkv(s) + post); assert(pre + n.bin() + (flatkv(s) + post) =~= d); lemma_le_len(n as int, 8);
              lemma_flatkv_rt(s, pre + n.bin(), post); assert((pre + n.bin()) + flatkv(s) + post =~= d);'''.replace('{I}', items).replace('{A}', lenax))
    ser('[T]', 'flat(self@)', {
            'L0.pre': 'let ghost __b0 = $1@; let ghost __n: int = 0; proof { assert(%s.take(0) =~= Seq::empty()); }' % 'self@',
            'L0.spec': '''invariant 0 <= __n <= {I}.len(), __it0@ == Seq::new(({I}.len() - __n) as nat, |i: int| &{I}[i + __n]), $1@ == __b0 + flat({I}.take(__n))
              ensures __it0@.len() == 0 decreases __it0@.len()'''.replace('{I}', 'self@'),
            'L0.start': 'let ghost __n0 = __n;',
            'L0.end': 'proof { __n = __n + 1; assert({I}.take(__n).drop_last() =~= {I}.take(__n0)); assert({I}.take(__n).last() == {I}[__n0]); assert(__it0@ =~= Seq::new(({I}.len() - __n) as nat, |i: int| &{I}[i + __n])); assert($1@ =~= __b0 + flat({I}.take(__n))); }'.replace('{I}', 'self@'),
            'L0.after': 'proof { assert({I}.take(__n) =~= {I}); assert($1@ =~= old($1)@ + self.bin()); }'.replace('{I}', 'self@'),
        })
    ser('[T;N]', 'flat(self@)')
    de('[T;N]', 'parse_n::<T>(d, o, N as nat)', 'lemma_n_local::<T>(d, o, N as nat, d2);', {
            'start': 'let ghost mut __p: Seq<T::M> = Seq::empty(); let ghost __o0 = *$0 as int;',
            'L0.spec': '''invariant __o0 == *old($0), *old($0) <= *$0 <= $1@.len() <= 0x7fff_ffff_ffff_ffff, $1@.len() <= cap_limit(), __p.len() <= N, $l0@.len() == N,
               __it0@ == Seq::new((N - __p.len()) as nat, |i: int| (i + __p.len()) as usize),
               forall|i: int| 0 <= i < __p.len() ==> (#[trigger] $l0@[i])@ is Some /*#C20*/, forall|i: int| 0 <= i < __p.len() ==> (#[trigger] $l0@[i])@->0.model() == __p[i],
               __led.n@ == old(__led).n@ + __p.len() /*#C20*/,
               parse_n::<T>($1@, __o0, __p.len()) == Some((__p, *$0 as int))
              ensures __p.len() == N, __it0@.len() == 0 decreases __it0@.len()''',
            'L0.start': 'let ghost __o2 = *$0 as int; proof { if T::parse($1@, __o2) is None { assert(parse_n::<T>($1@, __o0, __p.len() + 1) is None); lemma_n_mono::<T>($1@, __o0, __p.len() + 1, N as nat); } }',
            'L0.end': '; proof { __p = __p.push(pm(T::parse($1@, __o2))); assert(__it0@ =~= Seq::new((N - __p.len()) as nat, |i: int| (i + __p.len()) as usize)); }',
            'L1.init': '#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]',
            'L1.spec': '''invariant
               forall|i: int| 0 <= i < __it1@.len() ==> (#[trigger] __it1@[i]).1@ is Some /*#C20*/, __led.n@ == old(__led).n@ + __it1@.len() /*#C20*/
              ensures __it1@.len() == 0 decreases __it1@.len()''',
            'before:assume_init_read#0': 'proof { assert(models(slots($l0@)) =~= __p); }'})
    rt('impl<T: RtBin, const N: usize> RtBin for [T; N]', 'lemma_flat_rt(self@, pre, post);')
    ser('Option<T>', 'match self { Some(x) => seq![1u8] + x.bin(), None => seq![0u8] }')
    de('Option<T>', '''match rdn(d, o, 1) { None => None, Some((b, e)) => if b[0] == 1 { match T::parse(d, e) { None => None, Some((m, e2)) => Some((Some(m), e2)) } } else { Some((None, e)) } }''',
       '''let b = d.subrange(o, o + 1); if b[0] == 1 { T::lemma_local(d, o + 1, d2); } let e2 = pe(Self::parse(d, o)); if d2.len() >= e2 && d2.subrange(o, e2) == d.subrange(o, e2) { lemma_sub_split(d, d2, o, o + 1, e2); assert(d.subrange(o, o + 1)[0] == d2.subrange(o, o + 1)[0]); }''')
    rt('impl<T: RtBin> RtBin for Option<T>', '''assert(d.subrange(o, o + 1)[0] == self.bin()[0]); if let Some(x) = self { x.lemma_rt(pre + seq![1u8], post); assert(pre + seq![1u8] + x.bin() + post =~= d); }''')
    ser('()', 'seq![]')
    de('()', 'Some(((), o))', '')
    rt('impl RtBin for ()', '')
    for n in (2, 3, 4):
        ps = 'ABCD'[:n]
        ty = '(%s)' % ','.join(ps)
        ser(ty, ' + '.join('self.%d.bin()' % i for i in range(n)))
        e = 'Some(((%s), o%d))' % (', '.join('m%d' % i for i in range(n)), n)
        for i in reversed(range(n)):
            e = 'match %s::parse(d, %s) { None => None, Some((m%d, o%d)) => %s }' % (ps[i], 'o%d' % i if i else 'o', i, i + 1, e)
        loc = 'let o0 = o; let z = pe(Self::parse(d, o)); '
        for i in range(n):
            loc += 'let o%d = pe(%s::parse(d, o%d)); %s::lemma_local(d, o%d, d2); ' % (i + 1, ps[i], i, ps[i], i)
        loc += 'if d2.len() >= z && d2.subrange(o, z) == d.subrange(o, z) { '
        for i in range(n - 1):
            loc += 'lemma_sub_split(d, d2, o%d, o%d, z); ' % (i, i + 1)
        loc += '}'
        de(ty, e, loc)
        body = ''
        for i in range(n):
            p = 'pre' + ''.join(' + self.%d.bin()' % j for j in range(i))
            q = ''.join('self.%d.bin() + ' % j for j in range(i + 1, n)) + 'post'
            body += 'self.%d.lemma_rt(%s, %s); assert((%s) + self.%d.bin() + (%s) =~= d); ' % (i, p, q, p, i, q)
        rt('impl<%s> RtBin for (%s)' % (', '.join(p + ': RtBin' for p in ps), ', '.join(ps)), body)
    ser('Box<T>', '(**self).bin()')
    de('Box<T>', 'T::parse(d, o)', 'T::lemma_local(d, o, d2);')
    rt('impl<T: RtBin> RtBin for Box<T>', '(**self).lemma_rt(pre, post);')
    ser('Duration', 'dsecs(*self).bin() + dnanos(*self).bin()')
    de('Duration', '''match <(u64, u32)>::parse(d, o) { None => None, Some(((s, n), e)) => if n > 1_000_000_000 || (s == u64::MAX && n == 1_000_000_000) { None } else if n == 1_000_000_000 { Some((((s + 1) as u64, 0u32), e)) } else { Some(((s, n), e)) } }''',
       '<(u64, u32)>::lemma_local(d, o, d2);')
    rt('impl RtBin for Duration', 'ax_dnanos(*self); (dsecs(*self), dnanos(*self)).lemma_rt(pre, post);')
    ser('SystemTime', 'if st_ns(*self) >= 0 { seq![1u8] + st_secs(*self).bin() + st_sub(*self).bin() } else { seq![0u8] }',
        {'start': 'proof { ax_st_repr(*self); }', 'end': 'proof { if let Some(__d) = $l0 { ax_dnanos(__d); assert(dsecs(__d) == st_secs(*self) && dnanos(__d) == st_sub(*self)); } assert($1@ =~= old($1)@ + self.bin()); }'})
    de('SystemTime', '''match <Option<Duration>>::parse(d, o) { None => None, Some((None, e)) => Some((0int, e)), Some((Some(m), e)) => if st_repr(ns_of(m)) { Some((ns_of(m), e)) } else { None } }''',
       '<Option<Duration>>::lemma_local(d, o, d2);')
    u.prelude.append('''
pub open spec fn st_secs(t: SystemTime) -> u64 { (st_ns(t) / 1_000_000_000) as u64 }
pub open spec fn st_sub(t: SystemTime) -> u32 { (st_ns(t) % 1_000_000_000) as u32 }
''')
    u.epilogue.append('''
pub proof fn lemma_rt_systemtime(t: SystemTime, pre: Seq<u8>, post: Seq<u8>)
    requires st_ns(t) >= 0
    ensures SystemTime::parse(pre + t.bin() + post, pre.len() as int) == Some((t.model(), (pre.len() + t.bin().len()) as int))
{
    ax_st_repr(t);
    let d = pre + t.bin() + post; let s = st_secs(t); let n = st_sub(t);
    assert(d[pre.len() as int] == 1u8);
    assert(d.subrange(pre.len() as int, pre.len() as int + 1)[0] == 1u8);
    (s, n).lemma_rt(pre + seq![1u8], post);
    assert(pre + seq![1u8] + (s, n).bin() + post =~= d);
}''')
    return u
