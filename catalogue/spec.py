"""The catalogue: types whose derived implementations are put under contract and searched.

F(name, type, attr, default=expr): a field; attr is the text inside #[nserde(..)]; rn its name in
text formats; dflt the Rust expression a missing field takes; skip: not serialized.
"""
class F:
    def __init__(s, name, ty, attr=None, rn=None, dflt=None, skip=False, null=False, proxy=None, doc=''):
        s.doc = doc
        s.name, s.ty, s.attr, s.rn, s.dflt, s.skip, s.null, s.proxy = name, ty, attr, rn or name, dflt, skip, null, proxy
        s.opt = ty.startswith(('Option<', 'core::option::Option<'))


class T:
    """kind: named, tuple, unit, enum"""
    def __init__(s, name, kind, fields=None, fmts='bjr', attr=None, generics='', insts=None, variants=None, where='', transparent=False, doc='', decl=None):
        s.where, s.doc = where, doc
        s.decl = decl  # the generics as declared: bounds, defaults
        s.name, s.kind, s.fields, s.fmts, s.attr = name, kind, fields or [], fmts, attr
        s.generics, s.insts, s.variants = generics, insts, variants or []
        s.transparent = transparent


class V:
    def __init__(s, name, kind, fields=None, attr=None, rn=None, disc=None):
        s.disc = disc
        s.name, s.kind, s.fields, s.attr, s.rn = name, kind, fields or [], attr, rn or name


def rlit(s):
    """the inside of a Rust string literal (as {:?} prints it)"""
    o = ''
    for c in s:
        o += {'\\': '\\\\', '"': '\\"', '\n': '\\n', '\r': '\\r', '\t': '\\t'}.get(c) or ('\\u{%x}' % ord(c) if ord(c) < 0x20 or ord(c) == 0x7f else c)
    return o


def jlit(s):
    """the inside of a JSON string"""
    o = ''
    for c in s:
        o += {'\\': '\\\\', '"': '\\"'}.get(c) or ('\\u%04x' % ord(c) if ord(c) < 0x20 or ord(c) == 0x7f else c)
    return o


def ren(rn):
    return dict(attr='rename = "%s"' % rlit(rn), rn=rn)


def t(*tys):
    return [F(str(i), x) for i, x in enumerate(tys)]


TYPES = [
    T('Plain', 'named', [F('a', 'u8'), F('b', 'String')]),
    T('One', 'named', [F('only', 'i32')]),
    T('Mixed', 'named', [F('a', 'u64'), F('b', 'i16'), F('c', 'bool'), F('d', 'String'), F('e', 'Vec<u8>'), F('f', 'Option<i32>'), F('g', '(u8, bool)'), F('h', '[u16; 2]')]),
    T('Opts', 'named', [F('a', 'Option<u8>'), F('b', 'u8'), F('c', 'Option<String>'), F('d', 'Option<Vec<u8>>')]),
    T('AllOpt', 'named', [F('a', 'Option<bool>'), F('b', 'Option<i64>')]),
    T('Names', 'named', [F('a', 'u8'), F('ab', 'u8'), F('abc', 'u8'), F('A', 'u8'), F('_a', 'u8'), F('a1', 'u8')]),
    T('Many', 'named', [F('f%d' % i, ty) for i, ty in enumerate(['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'bool', 'String', 'f64', 'f32', 'Option<u8>'])]),
    T('Defs', 'named', [F('a', 'u8', 'default', dflt='0u8'), F('b', 'u8', 'default = 7', dflt='7u8'), F('c', 'String', 'default = "hey"', dflt='"hey".to_string()'),
                        F('d', 'i32', 'default_with = "forty"', dflt='40i32'), F('e', 'Option<u8>', 'default = 3', dflt='Some(3u8)'),
                        F('g', 'Option<u8>', 'default', dflt='None'), F('h', 'Vec<u8>', 'default', dflt='vec![]'), F('i', 'bool'), F('j', 'String', 'default', dflt='String::new()')]),
    T('ContDef', 'named', [F('a', 'u8', dflt='0'), F('b', 'String', dflt='String::new()'), F('c', 'Option<u8>', dflt='None'), F('d', 'bool', 'default = "true"', dflt='true')], attr='default'),
    T('Ren', 'named', [F('a', 'u8', 'rename = "x"', rn='x'), F('b', 'String', 'rename = "type"', rn='type'), F('c', 'Option<u8>', 'rename = "a"', rn='a'), F('d', 'u16')]),
    T('RenDef', 'named', [F('a', 'u8', 'rename = "aa", default = 9', rn='aa', dflt='9u8'), F('b', 'u8')]),
    T('Skip', 'named', [F('a', 'u8'), F('b', 'u8', 'skip', skip=True, dflt='0u8'), F('c', 'String'), F('d', 'Option<u8>', 'skip', skip=True, dflt='None')]),
    T('SkipFirst', 'named', [F('a', 'u8', 'skip', skip=True, dflt='0u8'), F('b', 'u16'), F('c', 'u8', 'skip', skip=True, dflt='0u8')]),
    T('SkipDef', 'named', [F('a', 'u8', 'skip, default = 5', skip=True, dflt='5u8'), F('b', 'u16')], fmts='jr'),
    T('Outer', 'named', [F('p', 'Plain'), F('q', 'Vec<Plain>'), F('r', 'Option<Plain>'), F('e', 'Shape'), F('u', 'Unit3')]),
    T('Tree', 'named', [F('v', 'u8'), F('kids', 'Vec<Tree>')]),
    T('Maps', 'named', [F('m', 'BTreeMap<String, u8>'), F('n', 'BTreeMap<String, Plain>'), F('s', 'BTreeSet<u16>'), F('l', 'LinkedList<bool>')]),
    T('Boxed', 'named', [F('a', 'Box<Plain>'), F('b', 'Option<Box<u8>>'), F('c', '()')]),
    T('Gen1', 'named', [F('v', 'X'), F('w', 'Vec<X>'), F('o', 'Option<X>')], generics='X', insts=['u8', 'Plain']),
    T('Empty', 'named', []),
    T('NullS', 'named', [F('a', 'Option<u8>', null=True), F('b', 'u8'), F('c', 'Option<String>', null=True)], fmts='j', attr='serialize_none_as_null'),
    T('NullF', 'named', [F('a', 'Option<u8>', 'serialize_none_as_null', null=True), F('b', 'Option<u8>'), F('c', 'Option<Vec<u8>>', 'serialize_none_as_null', null=True)], fmts='j'),
    T('ProxyF', 'named', [F('b', 'u8'), F('a', 'Inner', 'proxy = "Px"', proxy='Px'), F('z', 'u8', 'skip', skip=True, dflt='0u8'), F('c', 'u16'), F('d', 'Inner', 'proxy = "Px", rename = "dd"', rn='dd', proxy='Px')], fmts='bj'),
    T('ProxyO', 'named', [F('a', 'Option<Inner>', 'proxy = "Px"', proxy='Px'), F('b', 'u8')], fmts='j'),
    T('T1', 'tuple', t('u8')),
    T('T2', 'tuple', t('u8', 'String')),
    T('T3', 'tuple', t('Vec<u8>', 'Option<u8>', 'T1')),
    T('G2', 'tuple', t('X', 'Y'), generics='X, Y', insts=['u8, String', 'Plain, bool']),
    T('TN', 'tuple', t('String'), fmts='j', attr='transparent', transparent=True),
    T('TNV', 'tuple', t('Vec<u8>'), fmts='j', attr='transparent', transparent=True),
    T('UnitS', 'unit'),
    T('Unit3', 'enum', variants=[V('A', 'unit'), V('Ab', 'unit'), V('B', 'unit')]),
    T('Shape', 'enum', variants=[V('Nothing', 'unit'), V('Dot', 'tuple', t('u8')), V('Pair', 'tuple', t('u8', 'String')), V('Rec', 'named', [F('a', 'u8'), F('b', 'Option<u8>'), F('c', 'String')]), V('Last', 'unit')]),
    T('OnlyData', 'enum', variants=[V('Left', 'tuple', t('Plain')), V('Right', 'tuple', t('Vec<Unit3>'))]),
    T('VDef', 'enum', variants=[V('S', 'named', [F('a', 'u8', 'default = 7', dflt='7u8'), F('b', 'u8', 'rename = "bee"', rn='bee'), F('c', 'String', 'default', dflt='String::new()')]), V('N', 'named', [F('x', 'Unit3')])]),
    T('RenE', 'enum', variants=[V('A', 'unit', attr='rename = "B"', rn='B'), V('B', 'unit', attr='rename = "A"', rn='A'), V('C', 'tuple', t('u8'), attr='rename = "see"', rn='see'), V('D', 'named', [F('x', 'u8', 'rename = "y"', rn='y')], attr='rename = "dee"', rn='dee')]),
    T('GenE', 'enum', generics='X', insts=['u8', 'Unit3'], variants=[V('Zero', 'unit'), V('One', 'tuple', t('X')), V('More', 'named', [F('xs', 'Vec<X>'), F('o', 'Option<X>')])]),
    T('Rec', 'enum', variants=[V('Leaf', 'tuple', t('u8')), V('Node', 'tuple', t('Box<Rec>', 'Box<Rec>')), V('Seq', 'named', [F('of', 'Vec<Rec>')])]),
    T('OddNames', 'named', [F('a', 'u8', **ren('q"q')), F('b', 'String', **ren('back\\slash')), F('c', 'Option<u8>', **ren('tab\tnul\x01')), F('d', 'u16', **ren('\u00e9 \u4e16')), F('e', 'bool', **ren('{}'))], fmts='j'),
    T('OddE', 'enum', variants=[V('A', 'unit', **ren('"')), V('B', 'tuple', t('u8'), **ren('b\\')), V('C', 'named', [F('x', 'u8', **ren('\n'))], **ren('c"\x7f'))], fmts='j'),
    T('VSkip', 'enum', variants=[V('S', 'named', [F('a', 'u8'), F('b', 'u16', 'skip', skip=True, dflt='0u16'), F('c', 'Option<u8>')]), V('O', 'named', [F('p', 'Option<u8>', 'skip', skip=True, dflt='None'), F('q', 'String')]), V('E', 'named', [F('z', 'u8', 'skip', skip=True, dflt='0u8')])], fmts='jr'),
    T('TSkip1', 'tuple', [F('0', 'u8', 'skip', skip=True, dflt='0u8'), F('1', 'u16'), F('2', 'String')], fmts='br'),
    T('TSkip2', 'tuple', [F('0', 'u16'), F('1', 'u8', 'skip', skip=True, dflt='0u8'), F('2', 'Option<u8>'), F('3', 'u32', 'skip', skip=True, dflt='0u32')], fmts='br'),
    T('Combo', 'named', [F('a', 'Option<u8>', 'rename = "b"', rn='b'), F('b', 'u8', 'skip, default = 6', skip=True, dflt='6u8'), F('c', 'Option<String>', 'default = "x"', dflt='Some("x".to_string())'), F('d', 'u8', 'rename = "e", default_with = "nine"', rn='e', dflt='9u8'), F('e', 'Option<u8>', 'skip', skip=True, dflt='None'), F('f', 'Vec<Option<u8>>'), F('g', 'Option<bool>', 'rename = "a"', rn='a')], fmts='jr'),
    T('ContDef2', 'named', [F('a', 'Option<u8>', 'default = 5', dflt='Some(5u8)'), F('b', 'u8', 'rename = "x"', rn='x', dflt='0u8'), F('c', 'u8', 'skip', skip=True, dflt='0u8'), F('d', 'Option<String>', dflt='None')], attr='default', fmts='jr'),
    T('NullMix', 'named', [F('z', 'u8', 'skip', skip=True, dflt='0u8'), F('a', 'Option<Inner>', 'proxy = "Px"', proxy='Px'), F('b', 'Option<u8>', 'rename = "bb"', rn='bb', null=True), F('c', 'u8')], fmts='j', attr='serialize_none_as_null'),
    T('VProxy', 'enum', variants=[V('N', 'unit'), V('P', 'named', [F('a', 'Inner', 'proxy = "Px"', proxy='Px'), F('b', 'Option<Inner>', 'proxy = "Px", rename = "c"', rn='c', proxy='Px'), F('c', 'u8', 'skip', skip=True, dflt='0u8')])], fmts='j'),
    T('TProxy', 'tuple', [F('0', 'u8'), F('1', 'Inner', 'proxy = "Px"', proxy='Px'), F('2', 'u8', 'skip', skip=True, dflt='0u8'), F('3', 'Inner', 'proxy = "Px"', proxy='Px')], fmts='b'),
    T('Wide', 'enum', variants=[V('A', 'unit'), V('B', 'tuple', t('u16')), V('C', 'named', [F('a', 'u8')]), V('D', 'tuple', t('u8', 'bool', 'u16')), V('E', 'named', [F('b', 'Option<u8>')]), V('F', 'unit')]),
    T('Paths', 'named', [F('a', 'core::option::Option<u8>'), F('b', 'std::vec::Vec<u8>'), F('c', 'std::string::String'), F('d', 'core::option::Option<u16>', 'default', dflt='None')]),
    T('Crated', 'named', [F('a', 'u8'), F('b', 'Option<u8>')], attr='crate = "crate::ns"'),
    T('CratedE', 'enum', variants=[V('A', 'unit'), V('B', 'tuple', t('u8')), V('C', 'named', [F('x', 'u8')])], attr='crate = "crate::ns"'),
    T('GenB', 'named', [F('v', 'X'), F('w', 'u8')], generics='X', insts=['u8', 'String'], decl='X: Clone + PartialEq'),
    T('GenW', 'named', [F('p', 'X'), F('q', 'Y')], generics='X, Y', insts=['u8, bool'], decl='X: Clone, Y', where='where Y: Clone + Send'),
    T('GenD', 'named', [F('v', 'X')], generics='X', insts=['u16'], decl='X = u8'),
    T('GenBE', 'enum', generics='X', insts=['u8'], decl='X: Clone', where='where X: Send', variants=[V('A', 'tuple', t('X')), V('B', 'named', [F('x', 'X')])]),
    T('Disc', 'enum', variants=[V('A', 'unit', disc=7), V('B', 'unit', disc=1), V('C', 'unit')]),
    T('Docs', 'named', [F('a', 'u8', doc='/// a "quoted" text\n'), F('b', 'Option<u8>', doc='#[allow(unused)]\n')], doc='/// of #[nserde(rename = "x")]\n#[allow(non_snake_case)]\n'),
    T('VMix', 'enum', variants=[V('S', 'named', [F('a', 'Option<u8>', 'rename = "x"', rn='x'), F('b', 'u8'), F('c', 'Option<String>', 'rename = "type"', rn='type')]), V('O', 'tuple', t('Option<u8>', 'bool'))]),
    T('VMixD', 'enum', variants=[V('D', 'named', [F('x', 'u8', 'rename = "y", default = 3', rn='y', dflt='3u8'), F('y', 'Option<u8>', 'rename = "x", default = 4', rn='x', dflt='Some(4u8)'), F('z', 'u8', 'default_with = "nine"', dflt='9u8')]), V('P', 'named', [F('q', 'Option<u8>', 'rename = "p"', rn='p')])]),
    T('Split', 'named', [F('a', 'u8', 'default = 2', doc='#[nserde(rename = "x")]\n', rn='x', dflt='2u8'), F('b', 'Option<u8>', 'rename = "a"', doc='/// text\n#[nserde(default)]\n#[allow(unused)]\n', rn='a', dflt='None'), F('c', 'u16', 'skip', doc='#[nserde(default = 4)]\n/// more\n', skip=True, dflt='4u16'), F('d', 'bool', doc='#[allow(unused)]\n')], fmts='jr'),
    T('SkipMany', 'named', [F('a', 'u8', 'skip', skip=True, dflt='0u8'), F('b', 'u16'), F('c', 'Option<u8>', 'skip', skip=True, dflt='None'), F('d', 'String', 'skip', skip=True, dflt='String::new()'), F('e', 'u8', 'skip', skip=True, dflt='0u8'), F('f', 'bool', 'skip', skip=True, dflt='false'), F('g', 'String')]),
    T('SkipDefS', 'named', [F('a', 'String', 'skip, default = "z y"', skip=True, dflt='"z y".to_string()'), F('b', 'Option<String>', 'skip, default = "w"', skip=True, dflt='Some("w".to_string())'), F('c', 'Option<u8>', 'skip, default = 4', skip=True, dflt='Some(4u8)'), F('d', 'u8', 'skip, default_with = "nine"', skip=True, dflt='9u8'), F('e', 'bool')], fmts='jr'),
    T('DefExpr', 'named', [F('a', 'Unit3', 'default = "Unit3::Ab"', dflt='Unit3::Ab'), F('b', 'Option<Unit3>', 'default = "Unit3::B"', dflt='Some(Unit3::B)'), F('c', 'i16', 'default = "-3"', dflt='-3i16'), F('e', 'String', 'default = ""', dflt='"".to_string()'), F('f', 'String', 'default = "a, b = c"', dflt='"a, b = c".to_string()'), F('g', 'Option<String>', 'default = ""', dflt='Some(String::new())'), F('h', 'u8')], fmts='jr'),
    T('Lots', 'named', [F('f%d' % i, 'Option<u8>' if i % 5 == 4 else 'u8', **({'attr': 'rename = "r%d"' % i, 'rn': 'r%d' % i} if i % 7 == 3 else {})) for i in range(40)]),
    T('LotsT', 'tuple', t(*['u8'] * 20)),
    T('LotsE', 'enum', variants=[V('T', 'tuple', t(*['u8', 'Option<u8>'] * 9)), V('N', 'named', [F('f%d' % i, 'u8' if i % 4 else 'Option<u8>') for i in range(18)]), V('U', 'unit')]),
    T('Big', 'enum', variants=[V('V%d' % i, 'unit') for i in range(300)] + [V('Last', 'tuple', t('u8'))]),
    T('ProxyC', 'tuple', t('u32'), fmts='bj', attr='proxy = "PxC"'),
]
HAND = '''
/// the crate under another name
pub mod ns {
    pub use nanoserde::*;
}
/// not serializable itself; goes through Px
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Inner {
    pub hi: u8,
    pub lo: u8,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson)]
pub struct Px {
    pub v: u16,
}
impl From<&Inner> for Px {
    fn from(i: &Inner) -> Px {
        Px { v: i.hi as u16 * 256 + i.lo as u16 }
    }
}
impl From<&Px> for Inner {
    fn from(p: &Px) -> Inner {
        Inner { hi: (p.v / 256) as u8, lo: (p.v % 256) as u8 }
    }
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson)]
pub struct PxC {
    pub n: u32,
}
impl From<&ProxyC> for PxC {
    fn from(p: &ProxyC) -> PxC {
        PxC { n: !p.0 }
    }
}
impl From<&PxC> for ProxyC {
    fn from(p: &PxC) -> ProxyC {
        ProxyC(!p.n)
    }
}
pub fn nine() -> u8 {
    9
}
pub fn forty() -> i32 {
    40
}
'''
