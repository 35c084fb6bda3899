//! The reference model: a plain bit vector plus the documented rules.
use crate::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Uint, Int, Bool, Arr, Custom }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Acc { Rw, Ro, Wo, Na, Reserved }

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub kind: Kind,
    /// Width of the value type in bits (arrays: 8 * length, bool: 1).
    pub tw: usize,
    pub bits: usize,
    pub acc: Acc,
    pub default: Option<Bytes>,
    pub off: usize,
    pub canon: Canon,
}
/// What converting bits into a custom type and back does to them.
#[derive(Clone, Debug, PartialEq)]
pub enum Canon { Id, Even, Sat, Low10, Flag { little: bool, base: u128, vals: Vec<u128> } }
impl Canon {
    fn parse(s: &str) -> Canon {
        match s {
            "" | "id" => Canon::Id, "even" => Canon::Even, "sat" => Canon::Sat, "low10" => Canon::Low10,
            _ => { let p: Vec<&str> = s.split('/').collect(); Canon::Flag { little: p[0] == "flagl", base: p[1].parse().unwrap(), vals: p[2..].iter().map(|x| x.parse().unwrap()).collect() } },
        }
    }
    fn apply(&self, v: &[u8], tw: usize) -> Bytes {
        let n = (tw + 7) / 8;
        let mut w = v.to_vec();
        w.resize(16, 0);
        let x = u128::from_le_bytes(w[..16].try_into().unwrap());
        let y = match self {
            Canon::Id => return { let mut w = v.to_vec(); w.resize(n, 0); w },
            Canon::Even => if x == 0 { 2 } else { x & !1 },
            Canon::Sat => x.min(10),
            Canon::Low10 => x & 0x3FF,
            Canon::Flag { little, base, vals } => {
                let sw = |q: u128| if *little { q.swap_bytes() >> (128 - tw) } else { q };
                let k = sw(x);
                sw(if vals.contains(&k) { k } else { *base })
            },
        };
        y.to_le_bytes()[..n].to_vec()
    }
}
impl Field {
    pub fn canon(&self, v: &[u8]) -> Bytes { self.canon.apply(v, self.tw) }
    pub fn getter(&self) -> bool { matches!(self.acc, Acc::Rw | Acc::Ro) }
    pub fn setter(&self) -> bool { matches!(self.acc, Acc::Rw | Acc::Wo) }
    pub fn readable(&self) -> bool { matches!(self.acc, Acc::Rw | Acc::Ro | Acc::Reserved) }
    pub fn named(&self) -> bool { matches!(self.acc, Acc::Rw | Acc::Ro | Acc::Wo) }
}

#[derive(Clone, Debug)]
pub struct Schema {
    pub name: String,
    pub int: bool,
    pub nbytes: usize,
    pub fields: Vec<Field>,
    /// false = big, true = little
    pub from_le: bool,
    pub into_le: bool,
    pub write_le: bool,
    /// Operation codes that exist for this declaration.
    pub kinds: Vec<u16>,
    pub has_ign: bool,
    /// owner[bit] = field index
    pub owner: Vec<usize>,
}

impl Schema {
    /// `name|int or arr|nbytes|lsb or msb|from,into,write (b/l)|kinds,..|ign|field;field;..`
    /// where field = `name,kind,tw,bits,access,default-hex or -`.
    pub fn parse(s: &str) -> Schema {
        let p: Vec<&str> = s.split('|').collect();
        let nbytes: usize = p[2].parse().unwrap();
        let e: Vec<bool> = p[4].split(',').map(|x| x == "l").collect();
        let mut fields: Vec<Field> = p[7].split(';').map(|f| {
            let q: Vec<&str> = f.split(',').collect();
            let (kind, canon) = q[1].split_once(':').unwrap_or((q[1], ""));
            let canon = Canon::parse(canon);
            let tw: usize = q[2].parse().unwrap();
            let default = if q[5] == "-" { None } else { Some(canon.apply(&unhex(q[5]), tw)) };
            Field {
                name: q[0].to_string(),
                canon,
                kind: match kind { "u" => Kind::Uint, "i" => Kind::Int, "b" => Kind::Bool, "a" => Kind::Arr, "c" => Kind::Custom, _ => panic!("kind") },
                tw: q[2].parse().unwrap(),
                bits: q[3].parse().unwrap(),
                acc: match q[4] { "rw" => Acc::Rw, "ro" => Acc::Ro, "wo" => Acc::Wo, "na" => Acc::Na, "rs" => Acc::Reserved, _ => panic!("access") },
                default,
                off: 0,
            }
        }).collect();
        let total = nbytes * 8;
        let msb = p[3] == "msb";
        let mut at = 0;
        for f in fields.iter_mut() {
            f.off = if msb { total - at - f.bits } else { at };
            at += f.bits;
        }
        assert_eq!(at, total, "schema widths");
        let mut owner = vec![0; total];
        for (i, f) in fields.iter().enumerate() { for b in f.off..f.off + f.bits { owner[b] = i; } }
        Schema {
            name: p[0].to_string(), int: p[1] == "int", nbytes, fields,
            from_le: e[0], into_le: e[1], write_le: e[2],
            kinds: p[5].split(',').map(|x| x.parse().unwrap()).collect(),
            has_ign: p[6] == "1", owner,
        }
    }
    pub fn total(&self) -> usize { self.nbytes * 8 }
}

pub fn bit(b: &[u8], i: usize) -> bool { b.get(i / 8).map_or(false, |x| x >> (i % 8) & 1 == 1) }
pub fn put(b: &mut [u8], i: usize, v: bool) { if v { b[i / 8] |= 1 << (i % 8) } else { b[i / 8] &= !(1 << (i % 8)) } }

#[derive(Clone)]
pub struct Model<'a> {
    pub s: &'a Schema,
    pub st: Bytes,
    pub builder: Option<Bytes>,
    pub snap: Option<(Bytes, u8)>,
    pub ign: u8,
}

impl<'a> Model<'a> {
    pub fn new(s: &'a Schema) -> Self { Model { s, st: vec![0; s.nbytes], builder: None, snap: None, ign: 0 } }

    fn field_value(&self, st: &[u8], f: &Field, invert: bool) -> Bytes {
        let mut out = vec![0u8; (f.tw + 7) / 8];
        for i in 0..f.bits { put(&mut out, i, bit(st, f.off + i) ^ invert); }
        if f.kind == Kind::Int && bit(&out, f.bits - 1) { for i in f.bits..f.tw { put(&mut out, i, true); } }
        out
    }
    fn store(st: &mut [u8], f: &Field, v: &[u8]) { for i in 0..f.bits { put(st, f.off + i, bit(v, i)); } }
    pub fn fits(f: &Field, v: &[u8]) -> bool {
        match f.kind {
            Kind::Bool => true,
            Kind::Int => { let s = bit(v, f.bits - 1); (f.bits..f.tw).all(|i| bit(v, i) == s) },
            _ => (f.bits..f.tw).all(|i| !bit(v, i)),
        }
    }
    fn apply_defaults(s: &Schema, st: &mut [u8], reserved_only: bool) {
        for f in &s.fields {
            if let Some(d) = &f.default { if !reserved_only || f.acc == Acc::Reserved { Self::store(st, f, d); } }
        }
    }
    pub fn fresh(s: &Schema, with_defaults: bool) -> Bytes {
        let mut st = vec![0; s.nbytes];
        Self::apply_defaults(s, &mut st, !with_defaults);
        st
    }
    /// Whether the bits read out of the bitfield are as expected. Whole-value operations, of which reading the bits out
    /// is one, may pass a field of a lossy type through its conversions.
    pub fn same(&self, raw: &[u8]) -> bool {
        if raw == self.st { return true; }
        let cut = |st: &[u8], f: &Field| { let mut v = vec![0u8; (f.tw + 7) / 8]; for i in 0..f.bits { put(&mut v, i, bit(st, f.off + i)); } v };
        let low = |v: Bytes, f: &Field| { let mut w = v; for i in f.bits..f.tw { put(&mut w, i, false); } w };
        self.s.fields.iter().all(|f| {
            if f.canon == Canon::Id { return (f.off..f.off + f.bits).all(|i| bit(raw, i) == bit(&self.st, i)); }
            let (got, want) = (cut(raw, f), cut(&self.st, f));
            let once = low(f.canon(&want), f);
            got == want || got == once || got == low(f.canon(&once), f)
        })
    }
    fn rev(v: &[u8]) -> Bytes { v.iter().rev().copied().collect() }
    fn pad(v: &[u8], n: usize) -> Bytes { let mut x = v.to_vec(); x.resize(n, 0); x }
    /// Argument bytes -> state bytes.
    fn from_e(&self, le: bool, v: &[u8]) -> Bytes {
        let v = Self::pad(v, self.s.nbytes);
        if self.s.int == le { Self::rev(&v) } else { v }
    }
    fn into_e(&self, le: bool) -> Bytes { if self.s.int == le { Self::rev(&self.st) } else { self.st.clone() } }
    fn write_e(&self, le: bool, v: &[u8]) -> Bytes { let v = Self::pad(v, self.s.nbytes); if le { Self::rev(&v) } else { v } }
    fn endian(a: u32, dflt: bool) -> bool { match a { 0 => dflt, 1 => true, _ => false } }
    fn oob(&self, a: u32, b: u32) -> bool { a as u64 >= self.s.total() as u64 || a as u64 + b as u64 > self.s.total() as u64 }
    fn construct(&mut self, st: Bytes) { self.st = st; self.ign = 0; }

    pub fn apply(&mut self, o: &Op) -> Out {
        let s = self.s;
        let total = s.total();
        let f = &s.fields[(o.f as usize).min(s.fields.len() - 1)];
        let given;
        let o = if f.canon != Canon::Id && matches!(o.k, K_SET | K_CSET | K_BWITH | K_BCWITH) { given = Op { v: f.canon(&o.v), ..o.clone() }; &given } else { o };
        match o.k {
            K_CONST => Out::Two(f.bits as u32, f.off as u32),
            K_GET => Out::Bits(f.canon(&self.field_value(&self.st, f, false))),
            K_FINV => Out::Bits(f.canon(&self.field_value(&self.st, f, true))),
            K_SET => { Self::store(&mut self.st, f, &o.v); Out::Unit },
            K_CSET => if Self::fits(f, &o.v) { Self::store(&mut self.st, f, &o.v); Out::Ok(vec![]) } else { Out::Err(vec![]) },
            K_NEW | K_DEFAULT => { self.construct(Self::fresh(s, true)); Out::Unit },
            K_NEWWO => { self.construct(Self::fresh(s, false)); Out::Unit },
            K_BNEW => { self.builder = Some(Self::fresh(s, o.a != 1)); Out::Unit },
            K_BWITH => { if let Some(b) = &mut self.builder { Self::store(b, f, &o.v); } Out::Unit },
            K_BCWITH => match &mut self.builder {
                None => Out::Unit,
                Some(b) => if Self::fits(f, &o.v) { Self::store(b, f, &o.v); Out::Ok(vec![]) } else { self.builder = None; Out::Err(vec![]) },
            },
            K_BBUILD => { if let Some(b) = self.builder.take() { self.construct(b); } Out::Unit },
            K_FROM => {
                let mut st = self.from_e(Self::endian(o.a, s.from_le), &o.v);
                if o.b & 1 == 1 { Self::apply_defaults(s, &mut st, false); }
                self.construct(st);
                Out::Unit
            },
            K_FROMT => { let st = self.from_e(s.from_le, &o.v); self.construct(st); Out::Unit },
            K_FROMS => {
                let checked = o.b & 2 == 2;
                if checked && o.v.len() < s.nbytes { return Out::Err(vec![]); }
                let mut st = self.from_e(Self::endian(o.a, s.from_le), &o.v[..o.v.len().min(s.nbytes)]);
                if o.b & 1 == 1 { Self::apply_defaults(s, &mut st, false); }
                self.construct(st);
                if checked { Out::Ok(vec![]) } else { Out::Unit }
            },
            K_INTO => Out::Bits(self.into_e(Self::endian(o.a, s.into_le))),
            K_INTOT => Out::Bits(self.into_e(s.into_le)),
            K_INTOS => {
                let src = self.into_e(Self::endian(o.a, s.into_le));
                let mut buf = o.v.clone();
                if o.b & 1 == 1 && buf.len() < s.nbytes { return Out::Err(buf); }
                for i in 0..buf.len().min(s.nbytes) { buf[i] = src[i]; }
                if o.b & 1 == 1 { Out::Ok(buf) } else { Out::Bits(buf) }
            },
            K_WRITE => {
                let v = self.write_e(Self::endian(o.a, s.write_le), &o.v);
                for i in 0..total { if s.fields[s.owner[i]].setter() { put(&mut self.st, i, bit(&v, i)); } }
                if o.b & 1 == 1 { Self::apply_defaults(s, &mut self.st, false); }
                Out::Unit
            },
            K_WRITEDEF => { Self::apply_defaults(s, &mut self.st, false); Out::Unit },
            K_GETBIT | K_CGETBIT => {
                let ok = (o.a as u64) < total as u64 && s.fields[s.owner[o.a as usize]].readable();
                let v = ok && bit(&self.st, o.a as usize);
                if o.k == K_GETBIT { Out::Bool(v) } else if ok { Out::Ok(vec![v as u8]) } else { Out::Err(vec![]) }
            },
            K_SETBIT | K_CSETBIT => {
                let ok = (o.a as u64) < total as u64 && s.fields[s.owner[o.a as usize]].setter();
                if ok { put(&mut self.st, o.a as usize, o.b & 1 == 1); }
                if o.k == K_SETBIT { Out::Unit } else if ok { Out::Ok(vec![]) } else { Out::Err(vec![]) }
            },
            K_GETR | K_CGETR => {
                let mut out = vec![0u8; s.nbytes];
                let mut bad = self.oob(o.a, o.b);
                if !bad {
                    for i in 0..o.b as usize {
                        let p = o.a as usize + i;
                        if s.fields[s.owner[p]].readable() { put(&mut out, i, bit(&self.st, p)); } else { bad = true; }
                    }
                }
                if o.k == K_GETR { Out::Bits(out) } else if o.b == 0 { Out::Any } else if bad { Out::Err(vec![]) } else { Out::Ok(out) }
            },
            K_SETR | K_CSETR => {
                let oob = self.oob(o.a, o.b);
                let prot = !oob && (0..o.b as usize).any(|i| !s.fields[s.owner[o.a as usize + i]].setter());
                if !oob && !(o.k == K_CSETR && prot) {
                    for i in 0..o.b as usize {
                        let p = o.a as usize + i;
                        if s.fields[s.owner[p]].setter() { put(&mut self.st, p, bit(&o.v, i)); }
                    }
                }
                if o.k == K_SETR { Out::Unit } else if o.b == 0 { Out::Any } else if oob || prot { Out::Err(vec![]) } else { Out::Ok(vec![]) }
            },
            K_CLR => { self.st = Self::fresh(s, false); Out::Unit },
            K_CLRDEF => { self.st = Self::fresh(s, true); Out::Unit },
            K_CLRF => { Self::store(&mut self.st, f, &[]); Out::Unit },
            K_CLRFD => { let d = f.default.clone().unwrap(); Self::store(&mut self.st, f, &d); Out::Unit },
            K_INV => {
                for i in 0..total { if s.fields[s.owner[i]].setter() { let b = bit(&self.st, i); put(&mut self.st, i, !b); } }
                Out::Unit
            },
            K_INVF => { for i in f.off..f.off + f.bits { let b = bit(&self.st, i); put(&mut self.st, i, !b); } Out::Unit },
            K_DBG => Out::AnyStr([false, true].iter().map(|l| self.debug(*l, o.a == 1)).collect()),
            K_SNAP => { self.snap = Some((self.st.clone(), self.ign)); Out::Unit },
            K_RESTORE => { if let Some((x, i)) = &self.snap { self.st = x.clone(); self.ign = *i; } Out::Unit },
            K_SETRAW => { self.st = Self::pad(&o.v, s.nbytes); Out::Unit },
            K_SETIGN => { self.ign = 1; Out::Unit },
            _ => panic!("op"),
        }
    }

    fn debug(&self, int_arrays_as_list: bool, pretty: bool) -> String {
        struct D<'b>(&'b Model<'b>, bool);
        impl std::fmt::Debug for D<'_> {
            fn fmt(&self, fm: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                let s = self.0.s;
                let mut ds = fm.debug_struct(&s.name);
                for f in &s.fields {
                    let v = self.0.field_value(&self.0.st, f, false);
                    match f.kind {
                        Kind::Bool => ds.field(&f.name, &(v[0] & 1 == 1)),
                        Kind::Int => {
                            let mut w = v.clone();
                            let neg = bit(&v, f.tw - 1);
                            w.resize(16, if neg { 0xFF } else { 0 });
                            ds.field(&f.name, &i128::from_le_bytes(w.try_into().unwrap()))
                        },
                        Kind::Arr if !s.int || self.1 => ds.field(&f.name, &v),
                        _ => {
                            let mut w = v.clone();
                            w.resize(16, 0);
                            ds.field(&f.name, &u128::from_le_bytes(w.try_into().unwrap()))
                        },
                    };
                }
                ds.finish()
            }
        }
        if pretty { format!("{:#?}", D(self, int_arrays_as_list)) } else { format!("{:?}", D(self, int_arrays_as_list)) }
    }
}
