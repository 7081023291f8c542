//! generated by catalogue/gen.py from spec.py
#![allow(clippy::all)]
use nanoserde::*;
use std::collections::*;

/// the crate under another name
pub mod ns {
    pub use nanoserde::*;
}
/// not serializable itself; goes through Px
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Inner {
    pub hi: u8,
    pub lo: u8,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson)]
pub struct Px {
    pub v: u16,
}
impl From<&Inner> for Px {
    fn from(i: &Inner) -> Px {
        Px { v: i.hi as u16 * 256 + i.lo as u16 }
    }
}
impl From<&Px> for Inner {
    fn from(p: &Px) -> Inner {
        Inner { hi: (p.v / 256) as u8, lo: (p.v % 256) as u8 }
    }
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson)]
pub struct PxC {
    pub n: u32,
}
impl From<&ProxyC> for PxC {
    fn from(p: &ProxyC) -> PxC {
        PxC { n: !p.0 }
    }
}
impl From<&PxC> for ProxyC {
    fn from(p: &PxC) -> ProxyC {
        ProxyC(!p.n)
    }
}
pub fn nine() -> u8 {
    9
}
pub fn forty() -> i32 {
    40
}

#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Plain {
    pub a: u8,
    pub b: String,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct One {
    pub only: i32,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Mixed {
    pub a: u64,
    pub b: i16,
    pub c: bool,
    pub d: String,
    pub e: Vec<u8>,
    pub f: Option<i32>,
    pub g: (u8, bool),
    pub h: [u16; 2],
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Opts {
    pub a: Option<u8>,
    pub b: u8,
    pub c: Option<String>,
    pub d: Option<Vec<u8>>,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct AllOpt {
    pub a: Option<bool>,
    pub b: Option<i64>,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Names {
    pub a: u8,
    pub ab: u8,
    pub abc: u8,
    pub A: u8,
    pub _a: u8,
    pub a1: u8,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Many {
    pub f0: u8,
    pub f1: i8,
    pub f2: u16,
    pub f3: i16,
    pub f4: u32,
    pub f5: i32,
    pub f6: u64,
    pub f7: i64,
    pub f8: bool,
    pub f9: String,
    pub f10: f64,
    pub f11: f32,
    pub f12: Option<u8>,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Defs {
    #[nserde(default)]
    pub a: u8,
    #[nserde(default = 7)]
    pub b: u8,
    #[nserde(default = "hey")]
    pub c: String,
    #[nserde(default_with = "forty")]
    pub d: i32,
    #[nserde(default = 3)]
    pub e: Option<u8>,
    #[nserde(default)]
    pub g: Option<u8>,
    #[nserde(default)]
    pub h: Vec<u8>,
    pub i: bool,
    #[nserde(default)]
    pub j: String,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct ContDef {
    pub a: u8,
    pub b: String,
    pub c: Option<u8>,
    #[nserde(default = "true")]
    pub d: bool,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Ren {
    #[nserde(rename = "x")]
    pub a: u8,
    #[nserde(rename = "type")]
    pub b: String,
    #[nserde(rename = "a")]
    pub c: Option<u8>,
    pub d: u16,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct RenDef {
    #[nserde(rename = "aa", default = 9)]
    pub a: u8,
    pub b: u8,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Skip {
    pub a: u8,
    #[nserde(skip)]
    pub b: u8,
    pub c: String,
    #[nserde(skip)]
    pub d: Option<u8>,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct SkipFirst {
    #[nserde(skip)]
    pub a: u8,
    pub b: u16,
    #[nserde(skip)]
    pub c: u8,
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson, SerRon, DeRon)]
pub struct SkipDef {
    #[nserde(skip, default = 5)]
    pub a: u8,
    pub b: u16,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Outer {
    pub p: Plain,
    pub q: Vec<Plain>,
    pub r: Option<Plain>,
    pub e: Shape,
    pub u: Unit3,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Tree {
    pub v: u8,
    pub kids: Vec<Tree>,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Maps {
    pub m: BTreeMap<String, u8>,
    pub n: BTreeMap<String, Plain>,
    pub s: BTreeSet<u16>,
    pub l: LinkedList<bool>,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Boxed {
    pub a: Box<Plain>,
    pub b: Option<Box<u8>>,
    pub c: (),
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Gen1<X> {
    pub v: X,
    pub w: Vec<X>,
    pub o: Option<X>,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Empty {
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
#[nserde(serialize_none_as_null)]
pub struct NullS {
    pub a: Option<u8>,
    pub b: u8,
    pub c: Option<String>,
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
pub struct NullF {
    #[nserde(serialize_none_as_null)]
    pub a: Option<u8>,
    pub b: Option<u8>,
    #[nserde(serialize_none_as_null)]
    pub c: Option<Vec<u8>>,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson)]
pub struct ProxyF {
    pub b: u8,
    #[nserde(proxy = "Px")]
    pub a: Inner,
    #[nserde(skip)]
    pub z: u8,
    pub c: u16,
    #[nserde(proxy = "Px", rename = "dd")]
    pub d: Inner,
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
pub struct ProxyO {
    #[nserde(proxy = "Px")]
    pub a: Option<Inner>,
    pub b: u8,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct T1(pub u8);
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct T2(pub u8, pub String);
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct T3(pub Vec<u8>, pub Option<u8>, pub T1);
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct G2<X, Y>(pub X, pub Y);
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
#[nserde(transparent)]
pub struct TN(pub String);
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
#[nserde(transparent)]
pub struct TNV(pub Vec<u8>);
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct UnitS;
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum Unit3 {
    A,
    Ab,
    B,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum Shape {
    Nothing,
    Dot(u8),
    Pair(u8, String),
    Rec {
        a: u8,
        b: Option<u8>,
        c: String,
    },
    Last,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum OnlyData {
    Left(Plain),
    Right(Vec<Unit3>),
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum VDef {
    S {
        #[nserde(default = 7)]
        a: u8,
        #[nserde(rename = "bee")]
        b: u8,
        #[nserde(default)]
        c: String,
    },
    N {
        x: Unit3,
    },
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum RenE {
    #[nserde(rename = "B")]
    A,
    #[nserde(rename = "A")]
    B,
    #[nserde(rename = "see")]
    C(u8),
    #[nserde(rename = "dee")]
    D {
        #[nserde(rename = "y")]
        x: u8,
    },
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum GenE<X> {
    Zero,
    One(X),
    More {
        xs: Vec<X>,
        o: Option<X>,
    },
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum Rec {
    Leaf(u8),
    Node(Box<Rec>, Box<Rec>),
    Seq {
        of: Vec<Rec>,
    },
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
pub struct OddNames {
    #[nserde(rename = "q\"q")]
    pub a: u8,
    #[nserde(rename = "back\\slash")]
    pub b: String,
    #[nserde(rename = "tab\tnul\u{1}")]
    pub c: Option<u8>,
    #[nserde(rename = "é 世")]
    pub d: u16,
    #[nserde(rename = "{}")]
    pub e: bool,
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
pub enum OddE {
    #[nserde(rename = "\"")]
    A,
    #[nserde(rename = "b\\")]
    B(u8),
    #[nserde(rename = "c\"\u{7f}")]
    C {
        #[nserde(rename = "\n")]
        x: u8,
    },
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson, SerRon, DeRon)]
pub enum VSkip {
    S {
        a: u8,
        #[nserde(skip)]
        b: u16,
        c: Option<u8>,
    },
    O {
        #[nserde(skip)]
        p: Option<u8>,
        q: String,
    },
    E {
        #[nserde(skip)]
        z: u8,
    },
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerRon, DeRon)]
pub struct TSkip1(#[nserde(skip)] pub u8, pub u16, pub String);
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerRon, DeRon)]
pub struct TSkip2(pub u16, #[nserde(skip)] pub u8, pub Option<u8>, #[nserde(skip)] pub u32);
#[derive(Clone, Debug, PartialEq, SerJson, DeJson, SerRon, DeRon)]
pub struct Combo {
    #[nserde(rename = "b")]
    pub a: Option<u8>,
    #[nserde(skip, default = 6)]
    pub b: u8,
    #[nserde(default = "x")]
    pub c: Option<String>,
    #[nserde(rename = "e", default_with = "nine")]
    pub d: u8,
    #[nserde(skip)]
    pub e: Option<u8>,
    pub f: Vec<Option<u8>>,
    #[nserde(rename = "a")]
    pub g: Option<bool>,
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct ContDef2 {
    #[nserde(default = 5)]
    pub a: Option<u8>,
    #[nserde(rename = "x")]
    pub b: u8,
    #[nserde(skip)]
    pub c: u8,
    pub d: Option<String>,
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
#[nserde(serialize_none_as_null)]
pub struct NullMix {
    #[nserde(skip)]
    pub z: u8,
    #[nserde(proxy = "Px")]
    pub a: Option<Inner>,
    #[nserde(rename = "bb")]
    pub b: Option<u8>,
    pub c: u8,
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
pub enum VProxy {
    N,
    P {
        #[nserde(proxy = "Px")]
        a: Inner,
        #[nserde(proxy = "Px", rename = "c")]
        b: Option<Inner>,
        #[nserde(skip)]
        c: u8,
    },
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin)]
pub struct TProxy(pub u8, #[nserde(proxy = "Px")] pub Inner, #[nserde(skip)] pub u8, #[nserde(proxy = "Px")] pub Inner);
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum Wide {
    A,
    B(u16),
    C {
        a: u8,
    },
    D(u8, bool, u16),
    E {
        b: Option<u8>,
    },
    F,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Paths {
    pub a: core::option::Option<u8>,
    pub b: std::vec::Vec<u8>,
    pub c: std::string::String,
    #[nserde(default)]
    pub d: core::option::Option<u16>,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(crate = "crate::ns")]
pub struct Crated {
    pub a: u8,
    pub b: Option<u8>,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(crate = "crate::ns")]
pub enum CratedE {
    A,
    B(u8),
    C {
        x: u8,
    },
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct GenB<X: Clone + PartialEq> {
    pub v: X,
    pub w: u8,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct GenW<X: Clone, Y> where Y: Clone + Send {
    pub p: X,
    pub q: Y,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct GenD<X = u8> {
    pub v: X,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum GenBE<X: Clone> where X: Send {
    A(X),
    B {
        x: X,
    },
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum Disc {
    A = 7,
    B = 1,
    C,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
/// of #[nserde(rename = "x")]
#[allow(non_snake_case)]
pub struct Docs {
    /// a "quoted" text
    pub a: u8,
    #[allow(unused)]
    pub b: Option<u8>,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum VMix {
    S {
        #[nserde(rename = "x")]
        a: Option<u8>,
        b: u8,
        #[nserde(rename = "type")]
        c: Option<String>,
    },
    O(Option<u8>, bool),
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum VMixD {
    D {
        #[nserde(rename = "y", default = 3)]
        x: u8,
        #[nserde(rename = "x", default = 4)]
        y: Option<u8>,
        #[nserde(default_with = "nine")]
        z: u8,
    },
    P {
        #[nserde(rename = "p")]
        q: Option<u8>,
    },
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson, SerRon, DeRon)]
pub struct Split {
    #[nserde(rename = "x")]
    #[nserde(default = 2)]
    pub a: u8,
    /// text
#[nserde(default)]
#[allow(unused)]
    #[nserde(rename = "a")]
    pub b: Option<u8>,
    #[nserde(default = 4)]
/// more
    #[nserde(skip)]
    pub c: u16,
    #[allow(unused)]
    pub d: bool,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct SkipMany {
    #[nserde(skip)]
    pub a: u8,
    pub b: u16,
    #[nserde(skip)]
    pub c: Option<u8>,
    #[nserde(skip)]
    pub d: String,
    #[nserde(skip)]
    pub e: u8,
    #[nserde(skip)]
    pub f: bool,
    pub g: String,
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson, SerRon, DeRon)]
pub struct SkipDefS {
    #[nserde(skip, default = "z y")]
    pub a: String,
    #[nserde(skip, default = "w")]
    pub b: Option<String>,
    #[nserde(skip, default = 4)]
    pub c: Option<u8>,
    #[nserde(skip, default_with = "nine")]
    pub d: u8,
    pub e: bool,
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson, SerRon, DeRon)]
pub struct DefExpr {
    #[nserde(default = "Unit3::Ab")]
    pub a: Unit3,
    #[nserde(default = "Unit3::B")]
    pub b: Option<Unit3>,
    #[nserde(default = "-3")]
    pub c: i16,
    #[nserde(default = "")]
    pub e: String,
    #[nserde(default = "a, b = c")]
    pub f: String,
    #[nserde(default = "")]
    pub g: Option<String>,
    pub h: u8,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Lots {
    pub f0: u8,
    pub f1: u8,
    pub f2: u8,
    #[nserde(rename = "r3")]
    pub f3: u8,
    pub f4: Option<u8>,
    pub f5: u8,
    pub f6: u8,
    pub f7: u8,
    pub f8: u8,
    pub f9: Option<u8>,
    #[nserde(rename = "r10")]
    pub f10: u8,
    pub f11: u8,
    pub f12: u8,
    pub f13: u8,
    pub f14: Option<u8>,
    pub f15: u8,
    pub f16: u8,
    #[nserde(rename = "r17")]
    pub f17: u8,
    pub f18: u8,
    pub f19: Option<u8>,
    pub f20: u8,
    pub f21: u8,
    pub f22: u8,
    pub f23: u8,
    #[nserde(rename = "r24")]
    pub f24: Option<u8>,
    pub f25: u8,
    pub f26: u8,
    pub f27: u8,
    pub f28: u8,
    pub f29: Option<u8>,
    pub f30: u8,
    #[nserde(rename = "r31")]
    pub f31: u8,
    pub f32: u8,
    pub f33: u8,
    pub f34: Option<u8>,
    pub f35: u8,
    pub f36: u8,
    pub f37: u8,
    #[nserde(rename = "r38")]
    pub f38: u8,
    pub f39: Option<u8>,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct LotsT(pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8);
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum LotsE {
    T(u8, Option<u8>, u8, Option<u8>, u8, Option<u8>, u8, Option<u8>, u8, Option<u8>, u8, Option<u8>, u8, Option<u8>, u8, Option<u8>, u8, Option<u8>),
    N {
        f0: Option<u8>,
        f1: u8,
        f2: u8,
        f3: u8,
        f4: Option<u8>,
        f5: u8,
        f6: u8,
        f7: u8,
        f8: Option<u8>,
        f9: u8,
        f10: u8,
        f11: u8,
        f12: Option<u8>,
        f13: u8,
        f14: u8,
        f15: u8,
        f16: Option<u8>,
        f17: u8,
    },
    U,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum Big {
    V0,
    V1,
    V2,
    V3,
    V4,
    V5,
    V6,
    V7,
    V8,
    V9,
    V10,
    V11,
    V12,
    V13,
    V14,
    V15,
    V16,
    V17,
    V18,
    V19,
    V20,
    V21,
    V22,
    V23,
    V24,
    V25,
    V26,
    V27,
    V28,
    V29,
    V30,
    V31,
    V32,
    V33,
    V34,
    V35,
    V36,
    V37,
    V38,
    V39,
    V40,
    V41,
    V42,
    V43,
    V44,
    V45,
    V46,
    V47,
    V48,
    V49,
    V50,
    V51,
    V52,
    V53,
    V54,
    V55,
    V56,
    V57,
    V58,
    V59,
    V60,
    V61,
    V62,
    V63,
    V64,
    V65,
    V66,
    V67,
    V68,
    V69,
    V70,
    V71,
    V72,
    V73,
    V74,
    V75,
    V76,
    V77,
    V78,
    V79,
    V80,
    V81,
    V82,
    V83,
    V84,
    V85,
    V86,
    V87,
    V88,
    V89,
    V90,
    V91,
    V92,
    V93,
    V94,
    V95,
    V96,
    V97,
    V98,
    V99,
    V100,
    V101,
    V102,
    V103,
    V104,
    V105,
    V106,
    V107,
    V108,
    V109,
    V110,
    V111,
    V112,
    V113,
    V114,
    V115,
    V116,
    V117,
    V118,
    V119,
    V120,
    V121,
    V122,
    V123,
    V124,
    V125,
    V126,
    V127,
    V128,
    V129,
    V130,
    V131,
    V132,
    V133,
    V134,
    V135,
    V136,
    V137,
    V138,
    V139,
    V140,
    V141,
    V142,
    V143,
    V144,
    V145,
    V146,
    V147,
    V148,
    V149,
    V150,
    V151,
    V152,
    V153,
    V154,
    V155,
    V156,
    V157,
    V158,
    V159,
    V160,
    V161,
    V162,
    V163,
    V164,
    V165,
    V166,
    V167,
    V168,
    V169,
    V170,
    V171,
    V172,
    V173,
    V174,
    V175,
    V176,
    V177,
    V178,
    V179,
    V180,
    V181,
    V182,
    V183,
    V184,
    V185,
    V186,
    V187,
    V188,
    V189,
    V190,
    V191,
    V192,
    V193,
    V194,
    V195,
    V196,
    V197,
    V198,
    V199,
    V200,
    V201,
    V202,
    V203,
    V204,
    V205,
    V206,
    V207,
    V208,
    V209,
    V210,
    V211,
    V212,
    V213,
    V214,
    V215,
    V216,
    V217,
    V218,
    V219,
    V220,
    V221,
    V222,
    V223,
    V224,
    V225,
    V226,
    V227,
    V228,
    V229,
    V230,
    V231,
    V232,
    V233,
    V234,
    V235,
    V236,
    V237,
    V238,
    V239,
    V240,
    V241,
    V242,
    V243,
    V244,
    V245,
    V246,
    V247,
    V248,
    V249,
    V250,
    V251,
    V252,
    V253,
    V254,
    V255,
    V256,
    V257,
    V258,
    V259,
    V260,
    V261,
    V262,
    V263,
    V264,
    V265,
    V266,
    V267,
    V268,
    V269,
    V270,
    V271,
    V272,
    V273,
    V274,
    V275,
    V276,
    V277,
    V278,
    V279,
    V280,
    V281,
    V282,
    V283,
    V284,
    V285,
    V286,
    V287,
    V288,
    V289,
    V290,
    V291,
    V292,
    V293,
    V294,
    V295,
    V296,
    V297,
    V298,
    V299,
    Last(u8),
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson)]
#[nserde(proxy = "PxC")]
pub struct ProxyC(pub u32);
