//! Runtime of the generated-input search: operations, an independent reference
//! model, generators, sweeps and a shrinker. It knows nothing about how the
//! macros are written; it only knows the documented behaviour.
#![allow(clippy::all)]
pub mod gen;
pub mod model;
pub mod run;

pub type Bytes = Vec<u8>;

/// One call. `k` is one of the `K_*` codes, `f` a field index, `a`/`b` scalar
/// arguments (endian, flags, offset, length), `v` a value in little-endian bytes.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Op { pub k: u16, pub f: u16, pub a: u32, pub b: u32, pub v: Bytes }

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unit,
    Bool(bool),
    Bits(Bytes),
    Ok(Bytes),
    Err(Bytes),
    Two(u32, u32),
    Str(String),
    /// Model only: any of these strings.
    AnyStr(Vec<String>),
    /// Model only: the result is unspecified (but must not panic).
    Any,
    Panic(String),
    /// The glue does not implement the call (a harness bug).
    Missing,
}

pub const K_CONST: u16 = 1;
pub const K_GET: u16 = 2;
pub const K_SET: u16 = 3;
pub const K_CSET: u16 = 4;
pub const K_NEW: u16 = 5;
pub const K_NEWWO: u16 = 6;
pub const K_DEFAULT: u16 = 7;
pub const K_BNEW: u16 = 8;
pub const K_BWITH: u16 = 9;
pub const K_BCWITH: u16 = 10;
pub const K_BBUILD: u16 = 11;
pub const K_FROM: u16 = 12;
pub const K_INTO: u16 = 13;
pub const K_FROMT: u16 = 14;
pub const K_INTOT: u16 = 15;
pub const K_FROMS: u16 = 16;
pub const K_INTOS: u16 = 17;
pub const K_WRITE: u16 = 18;
pub const K_WRITEDEF: u16 = 19;
pub const K_GETBIT: u16 = 20;
pub const K_CGETBIT: u16 = 21;
pub const K_SETBIT: u16 = 22;
pub const K_CSETBIT: u16 = 23;
pub const K_GETR: u16 = 24;
pub const K_CGETR: u16 = 25;
pub const K_SETR: u16 = 26;
pub const K_CSETR: u16 = 27;
pub const K_CLR: u16 = 28;
pub const K_CLRDEF: u16 = 29;
pub const K_CLRF: u16 = 30;
pub const K_CLRFD: u16 = 31;
pub const K_INV: u16 = 32;
pub const K_INVF: u16 = 33;
pub const K_FINV: u16 = 34;
pub const K_DBG: u16 = 35;
pub const K_SNAP: u16 = 36;
pub const K_RESTORE: u16 = 37;
pub const K_SETRAW: u16 = 38;
pub const K_SETIGN: u16 = 39;

pub const KNAMES: [&str; 40] = ["?", "CONST", "GET", "SET", "CSET", "NEW", "NEWWO", "DEFAULT", "BNEW", "BWITH",
    "BCWITH", "BBUILD", "FROM", "INTO", "FROMT", "INTOT", "FROMS", "INTOS", "WRITE", "WRITEDEF", "GETBIT",
    "CGETBIT", "SETBIT", "CSETBIT", "GETR", "CGETR", "SETR", "CSETR", "CLR", "CLRDEF", "CLRF", "CLRFD", "INV",
    "INVF", "FINV", "DBG", "SNAP", "RESTORE", "SETRAW", "SETIGN"];

impl Op {
    pub fn new(k: u16) -> Op { Op { k, ..Default::default() } }
    pub fn enc(&self) -> String {
        format!("{}:{}:{}:{}:{}", KNAMES[self.k as usize], self.f, self.a, self.b, hex(&self.v))
    }
    pub fn dec(s: &str) -> Op {
        let p: Vec<&str> = s.split(':').collect();
        Op {
            k: KNAMES.iter().position(|n| *n == p[0]).expect("op name") as u16,
            f: p[1].parse().unwrap(),
            a: p[2].parse().unwrap(),
            b: p[3].parse().unwrap(),
            v: unhex(p[4]),
        }
    }
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(s: &str) -> Bytes {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn enc_ops(ops: &[Op]) -> String { ops.iter().map(|o| o.enc()).collect::<Vec<_>>().join(";") }
pub fn dec_ops(s: &str) -> Vec<Op> { s.split(';').filter(|x| !x.is_empty()).map(Op::dec).collect() }

/// What the generated glue of one declaration implements.
pub trait Subj {
    fn raw(&self) -> Bytes;
    fn apply(&mut self, op: &Op) -> Out;
    /// Ignored fields: 0 all default, 1 all modified, 2 anything else.
    fn ign(&self) -> u8 { 0 }
    fn snap_raw(&self) -> Option<Bytes> { None }
}

pub struct Entry { pub id: u32, pub schema: &'static str, pub mk: fn() -> Box<dyn Subj> }

/// Values as little-endian bytes of the type's width.
pub trait V: Sized { fn dec(b: &[u8]) -> Self; fn enc(&self) -> Bytes; }
macro_rules! vint { ($($t:ty)*) => { $(impl V for $t {
    fn dec(b: &[u8]) -> Self { let mut a = [0u8; core::mem::size_of::<$t>()]; let n = a.len().min(b.len()); a[..n].copy_from_slice(&b[..n]); <$t>::from_le_bytes(a) }
    fn enc(&self) -> Bytes { self.to_le_bytes().to_vec() }
})* } }
vint!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
impl V for bool {
    fn dec(b: &[u8]) -> Self { b.first().map_or(false, |x| x & 1 == 1) }
    fn enc(&self) -> Bytes { vec![*self as u8] }
}
impl<const N: usize> V for [u8; N] {
    fn dec(b: &[u8]) -> Self { let mut a = [0u8; N]; let n = N.min(b.len()); a[..n].copy_from_slice(&b[..n]); a }
    fn enc(&self) -> Bytes { self.to_vec() }
}
pub fn d<T: V>(o: &Op) -> T { T::dec(&o.v) }

/// Custom field types: a newtype whose bits are scrambled, so that bypassing
/// the conversion functions is visible.
macro_rules! xor { ($($n:ident $t:ty, $k:expr;)*) => { $(
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub struct $n(pub $t);
    impl $n {
        pub const fn from_bits(b: $t) -> Self { Self(b ^ ($k as $t)) }
        pub const fn into_bits(self) -> $t { self.0 ^ ($k as $t) }
    }
    impl V for $n {
        fn dec(b: &[u8]) -> Self { $n(<$t as V>::dec(b) ^ ($k as $t)) }
        fn enc(&self) -> Bytes { (self.0 ^ ($k as $t)).enc() }
    }
)* } }
xor! { X8 u8, 0xA6; X16 u16, 0x5A3C; X32 u32, 0x91E6_7D2Bu32; X64 u64, 0x0F1E_2D3C_4B5A_6978u64; X128 u128, 0xC3A5_1122_3344_5566_7788_99AA_BBCC_DDEFu128; }

pub fn r<T: V>(x: T) -> Out { Out::Bits(x.enc()) }
pub fn rr<T: V, E>(x: Result<T, E>) -> Out { match x { Ok(v) => Out::Ok(v.enc()), Err(_) => Out::Err(vec![]) } }
pub fn ru<E>(x: Result<(), E>) -> Out { match x { Ok(()) => Out::Ok(vec![]), Err(_) => Out::Err(vec![]) } }
pub fn rb<E>(x: Result<bool, E>) -> Out { match x { Ok(b) => Out::Ok(vec![b as u8]), Err(_) => Out::Err(vec![]) } }
