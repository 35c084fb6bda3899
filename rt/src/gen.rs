//! Generators: seeded, boundary-biased values, offsets, operations, sweeps and histories.
use crate::model::*;
use crate::*;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Bytes { (0..n).map(|_| self.next() as u8).collect() }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
}

pub fn ones(bits: usize, n: usize) -> Bytes { let mut v = vec![0; n]; for i in 0..bits.min(n * 8) { put(&mut v, i, true); } v }
pub fn one_at(i: usize, n: usize) -> Bytes { let mut v = vec![0; n]; if i < n * 8 { put(&mut v, i, true); } v }
fn trim(v: &mut Bytes, tw: usize) { for i in tw..v.len() * 8 { put(v, i, false); } }
fn sext(v: &mut Bytes, f: &Field) {
    let s = f.kind == Kind::Int && bit(v, f.bits - 1);
    for i in f.bits..f.tw { put(v, i, s); }
}

/// A backing-wide value.
pub fn state(r: &mut Rng, n: usize) -> Bytes {
    match r.below(12) {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        2 => one_at(r.below(n * 8), n),
        3 => one_at(r.below(n * 8), n).iter().map(|x| !x).collect(),
        4 => { let b = *r.pick(&[0xAAu8, 0x55, 0x80, 0x01, 0x7F, 0xFE, 0x0F, 0xF0]); vec![b; n] },
        5 => (1..=n).map(|x| x as u8).collect(),
        6 => { let mut v = vec![0; n]; let a = r.below(n * 8); let l = r.below(n * 8 - a) + 1; for i in a..a + l { put(&mut v, i, true); } v },
        _ => r.bytes(n),
    }
}
/// A value of a field's type, biased to the width's bounds.
pub fn value(r: &mut Rng, f: &Field) -> Bytes {
    let n = (f.tw + 7) / 8;
    let mut v = match r.below(10) {
        0 => { let b = boundary(f); r.pick(&b).clone() },
        1 => ones(f.bits, n),
        2 => one_at(r.below(f.tw), n),
        3 | 4 => { let mut v = r.bytes(n); sext(&mut v, f); v },
        5 => { let mut v = r.bytes(n); sext(&mut v, f); if f.bits < f.tw { let i = f.bits + r.below(f.tw - f.bits); let b = bit(&v, i); put(&mut v, i, !b); } v },
        6 => vec![0; n],
        _ => r.bytes(n),
    };
    trim(&mut v, f.tw);
    v
}
fn neg(v: &Bytes) -> Bytes { let mut c = 1u16; v.iter().map(|x| { let t = (!x) as u16 + c; c = t >> 8; t as u8 }).collect() }
fn dec1(v: &Bytes) -> Bytes { let mut b = 1i16; v.iter().map(|x| { let t = *x as i16 - b; b = (t < 0) as i16; t as u8 }).collect() }
/// Every bound of the field's width and type.
pub fn boundary(f: &Field) -> Vec<Bytes> {
    let n = (f.tw + 7) / 8;
    let mut out = vec![vec![0; n], one_at(0, n), ones(f.bits, n), ones(f.tw, n), one_at(f.bits - 1, n), ones(f.bits - 1, n),
        one_at(f.tw - 1, n), ones(f.tw - 1, n)];
    if f.bits < f.tw {
        out.push(one_at(f.bits, n));
        let mut x = one_at(f.bits, n); put(&mut x, 0, true); out.push(x);
        out.push(one_at((f.bits + f.tw) / 2, n));
    }
    if f.kind == Kind::Int {
        let min = neg(&one_at(f.bits - 1, n));
        out.push(min.clone());
        out.push(dec1(&min));
        out.push(dec1(&dec1(&min)));
        out.push(neg(&one_at(0, n)));
        out.push(neg(&ones(f.bits, n)));
        out.push(neg(&ones(f.bits - 1, n)));
    }
    for x in [8, 16, 32, 64, 127] { if x < f.tw { out.push(one_at(x, n)); out.push(ones(x, n)); } }
    for v in out.iter_mut() { trim(v, f.tw); }
    out.sort();
    out.dedup();
    out
}

pub fn offset(r: &mut Rng, s: &Schema) -> u32 {
    let t = s.total();
    match r.below(10) {
        0..=3 => r.below(t) as u32,
        4..=6 => { let f = r.pick(&s.fields); let b = [f.off, f.off + f.bits, f.off + f.bits - 1, f.off.saturating_sub(1)]; *r.pick(&b) as u32 },
        7 => (t + r.below(3)).saturating_sub(1) as u32,
        8 => (r.below(t / 8 + 1) * 8) as u32,
        _ => *r.pick(&[0, t as u32, t as u32 - 1, u32::MAX, u32::MAX - 1, u32::MAX - t as u32, u32::MAX - t as u32 + 1, 1 << 31, 32, 64, 128, 256, 65536]),
    }
}
pub fn length(r: &mut Rng, s: &Schema, off: u32) -> u32 {
    let t = s.total() as u32;
    match r.below(10) {
        0..=3 => r.below(t.saturating_sub(off) as usize + 1) as u32,
        4 => t.saturating_sub(off),
        5 => t.saturating_sub(off).wrapping_add(1),
        6 => r.pick(&s.fields).bits as u32,
        7 => *r.pick(&[0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
        8 => *r.pick(&[u32::MAX, u32::MAX - 1, u32::MAX.wrapping_sub(off), u32::MAX.wrapping_sub(off).wrapping_add(1), u32::MAX.wrapping_sub(off).wrapping_add(2), t, t + 1, 1 << 31]),
        _ => { let e = offset(r, s); e.saturating_sub(off) },
    }
}

fn eligible(s: &Schema, k: u16) -> Vec<usize> {
    (0..s.fields.len()).filter(|i| {
        let f = &s.fields[*i];
        match k {
            K_CONST => f.named(),
            K_GET | K_FINV => f.getter(),
            K_SET | K_CSET | K_CLRF | K_INVF => f.setter(),
            K_CLRFD => f.setter() && f.default.is_some(),
            K_BWITH | K_BCWITH => f.named(),
            _ => true,
        }
    }).collect()
}
pub fn needs_field(k: u16) -> bool { matches!(k, K_CONST | K_GET | K_FINV | K_SET | K_CSET | K_CLRF | K_CLRFD | K_INVF | K_BWITH | K_BCWITH) }

pub fn random_op(r: &mut Rng, s: &Schema, kinds: &[u16]) -> Option<Op> {
    let k = *r.pick(kinds);
    let mut o = Op::new(k);
    if needs_field(k) {
        let e = eligible(s, k);
        if e.is_empty() { return None; }
        o.f = *r.pick(&e) as u16;
        if matches!(k, K_SET | K_CSET | K_BWITH | K_BCWITH) { o.v = value(r, &s.fields[o.f as usize]); }
    }
    match k {
        K_BNEW => o.a = r.below(3) as u32,
        K_FROM | K_WRITE => { o.a = r.below(3) as u32; o.b = r.below(2) as u32; o.v = state(r, s.nbytes); },
        K_FROMT | K_SETRAW => o.v = state(r, s.nbytes),
        K_INTO => o.a = r.below(3) as u32,
        K_FROMS => { o.a = r.below(3) as u32; o.b = r.below(4) as u32; o.v = slice(r, s.nbytes); },
        K_INTOS => { o.a = r.below(3) as u32; o.b = r.below(2) as u32; o.v = slice(r, s.nbytes); },
        K_GETBIT | K_CGETBIT => o.a = offset(r, s),
        K_SETBIT | K_CSETBIT => { o.a = offset(r, s); o.b = r.below(2) as u32; },
        K_GETR | K_CGETR => { o.a = offset(r, s); o.b = length(r, s, o.a); },
        K_SETR | K_CSETR => {
            // Often address a whole run of one field, so that checked writes succeed too.
            if r.chance(40) {
                let f = r.pick(&s.fields);
                let i = r.below(f.bits);
                o.a = (f.off + i) as u32;
                o.b = (r.below(f.bits - i) + 1) as u32;
            } else { o.a = offset(r, s); o.b = length(r, s, o.a); }
            o.v = state(r, s.nbytes);
        },
        K_DBG => o.a = r.below(2) as u32,
        _ => {},
    }
    Some(o)
}
fn slice(r: &mut Rng, n: usize) -> Bytes {
    let len = match r.below(8) { 0 => 0, 1 => n - 1, 2 => n + 1, 3 => n + 1 + r.below(20), 4 | 5 => r.below(n + 1), _ => n };
    state(r, len.max(1))[..len].to_vec()
}

pub type Case = (Bytes, Vec<Op>);

/// The operation kinds a property is about, plus the context kinds histories may use.
pub fn kinds_for(prop: &str, s: &Schema) -> Vec<u16> {
    let all: Vec<u16> = s.kinds.clone();
    let w: &[u16] = match prop {
        "C01" => &[K_GET, K_SET, K_SET, K_GET, K_CONST, K_SETRAW],
        "C02" => &[K_CSET, K_CSET, K_CSET, K_GET, K_BNEW, K_BCWITH, K_BCWITH, K_BWITH, K_BBUILD, K_SETRAW],
        "C03" => &[K_NEW, K_NEWWO, K_DEFAULT, K_BNEW, K_BWITH, K_BWITH, K_BWITH, K_BCWITH, K_BBUILD, K_SET, K_GET, K_SETRAW],
        "C04" => &[K_FROM, K_FROM, K_INTO, K_FROMT, K_INTOT, K_GET, K_SET, K_SETRAW],
        "C05" => &[K_FROM, K_INTO, K_FROMT, K_INTOT, K_FROMS, K_FROMS, K_INTOS, K_INTOS, K_GET, K_SETRAW],
        "C06" => &[K_WRITE, K_WRITE, K_WRITE, K_WRITEDEF, K_SETRAW],
        "C07" => &[K_GETBIT, K_CGETBIT, K_SETBIT, K_CSETBIT, K_SETRAW],
        "C08" => &[K_GETR, K_CGETR, K_SETR, K_SETR, K_CSETR, K_CSETR, K_SETRAW],
        "C09" => &[K_CLR, K_CLRDEF, K_CLRF, K_CLRF, K_CLRFD, K_CLRFD, K_SETRAW, K_SETRAW],
        "C10" => &[K_INV, K_INVF, K_INVF, K_FINV, K_FINV, K_SETRAW, K_GET],
        "C18" => &[K_DBG, K_DBG, K_SETRAW, K_SET, K_GET],
        "C11" => &[K_SET, K_CSET, K_CSET, K_SETBIT, K_CSETBIT, K_SETR, K_CSETR, K_WRITE, K_INV, K_INVF, K_CLRF, K_CLRFD, K_GET, K_FINV,
            K_GETBIT, K_CGETBIT, K_GETR, K_CGETR, K_INTO, K_SNAP, K_RESTORE, K_WRITEDEF, K_CLR, K_CLRDEF, K_FROM, K_INTOS, K_DBG, K_FROMS, K_INTOT],
        _ => &all,
    };
    w.iter().copied().filter(|k| all.contains(k)).collect()
}

fn points(s: &Schema) -> Vec<usize> {
    let t = s.total();
    let mut p: Vec<usize> = vec![0, 1, t - 1, t, t + 1];
    for f in &s.fields { for x in [f.off.wrapping_sub(1), f.off, f.off + 1, f.off + f.bits - 1] { if x <= t { p.push(x); } } }
    for x in [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256] { if x <= t { p.push(x); } }
    p.sort();
    p.dedup();
    p
}
fn sample<T: Clone>(r: &mut Rng, mut v: Vec<T>, n: usize) -> Vec<T> {
    for i in 0..v.len().min(n) { let j = i + r.below(v.len() - i); v.swap(i, j); }
    v.truncate(n);
    v
}
fn op(k: u16) -> Op { Op::new(k) }
fn opf(k: u16, f: usize) -> Op { Op { k, f: f as u16, ..Default::default() } }
fn opfv(k: u16, f: usize, v: &Bytes) -> Op { Op { k, f: f as u16, v: v.clone(), ..Default::default() } }
fn opab(k: u16, a: u32, b: u32) -> Op { Op { k, a, b, ..Default::default() } }
fn opabv(k: u16, a: u32, b: u32, v: Bytes) -> Op { Op { k, f: 0, a, b, v } }

/// Deterministic sweep over the argument space of the property's own operations.
pub fn sweep(prop: &str, s: &Schema, r: &mut Rng, deep: bool) -> Vec<Case> {
    let n = s.nbytes;
    let t = s.total();
    let has = |k: u16| s.kinds.contains(&k);
    let getters = eligible(s, K_GET);
    let setters = eligible(s, K_SET);
    let named = eligible(s, K_CONST);
    let mut inits: Vec<Bytes> = vec![vec![0; n], vec![0xFF; n], vec![0xAA; n], vec![0x55; n], r.bytes(n), r.bytes(n)];
    if deep { for _ in 0..6 { inits.push(state(r, n)); } }
    let mut out: Vec<Case> = vec![];
    let mut vals: Vec<Bytes> = inits.clone();
    vals.push((1..=n).map(|x| x as u8).collect());
    let walk: Vec<usize> = if t <= 136 || deep { (0..t).collect() } else { let v = (0..t).collect(); sample(r, v, 96) };
    let field_values = |r: &mut Rng, i: usize| -> Vec<Bytes> {
        let f = &s.fields[i];
        let mut v = boundary(f);
        if v.len() > 24 && !deep { v = sample(r, v, 24); }
        for _ in 0..if deep { 24 } else { 6 } { v.push(value(r, f)); }
        v
    };
    // Many fields: bound the work per field.
    let lim = if deep { usize::MAX } else { 24 };
    match prop {
        "C01" => {
            out.push((inits[4].clone(), named.iter().map(|i| opf(K_CONST, *i)).collect()));
            for x in &inits { out.push((x.clone(), getters.iter().map(|i| opf(K_GET, *i)).collect())); }
            for b in &walk {
                let w = one_at(*b, n);
                out.push((w.clone(), getters.iter().map(|i| opf(K_GET, *i)).collect()));
            }
            for i in sample(r, setters.clone(), lim) {
                for v in field_values(r, i) {
                    let init = r.pick(&inits).clone();
                    let mut ops = vec![opfv(K_SET, i, &v)];
                    if s.fields[i].getter() { ops.push(opf(K_GET, i)); }
                    for g in sample(r, getters.clone(), 3) { ops.push(opf(K_GET, g)); }
                    out.push((init, ops));
                }
                let v = ones(s.fields[i].tw, (s.fields[i].tw + 7) / 8);
                out.push((inits[0].clone(), vec![opfv(K_SET, i, &v)]));
                out.push((inits[1].clone(), vec![opfv(K_SET, i, &vec![0; v.len()])]));
            }
        },
        "C02" => {
            for i in sample(r, setters.clone(), lim) {
                let mut vs = field_values(r, i);
                let f = &s.fields[i];
                let nb = (f.tw + 7) / 8;
                let w: Vec<usize> = (0..f.tw).collect();
                for b in sample(r, w, if deep { 256 } else { 20 }) { vs.push(one_at(b, nb)); }
                for v in vs {
                    let mut ops = vec![opfv(K_CSET, i, &v)];
                    if f.getter() { ops.push(opf(K_GET, i)); }
                    out.push((r.pick(&inits).clone(), ops));
                }
            }
            if has(K_BCWITH) { for i in sample(r, named.clone(), lim) {
                for v in field_values(r, i) {
                    let mut ops = vec![opab(K_BNEW, r.below(3) as u32, 0)];
                    for g in sample(r, named.clone(), 2) { let w = value(r, &s.fields[g]); ops.push(opfv(K_BWITH, g, &w)); }
                    ops.push(opfv(K_BCWITH, i, &v));
                    ops.push(op(K_BBUILD));
                    out.push((inits[4].clone(), ops));
                }
            } }
        },
        "C03" => {
            for k in [K_NEW, K_NEWWO, K_DEFAULT] { if has(k) {
                let mut ops = vec![op(k)];
                ops.extend(getters.iter().map(|i| opf(K_GET, *i)));
                out.push((inits[1].clone(), ops));
            } }
            if has(K_BNEW) {
                for a in 0..3 { out.push((inits[1].clone(), vec![opab(K_BNEW, a, 0), op(K_BBUILD)])); }
                for i in sample(r, named.clone(), lim) { for a in 0..3 {
                    let v = value(r, &s.fields[i]);
                    let w = ones(s.fields[i].tw, v.len());
                    out.push((inits[1].clone(), vec![opab(K_BNEW, a, 0), opfv(K_BWITH, i, &v), op(K_BBUILD)]));
                    out.push((inits[1].clone(), vec![opab(K_BNEW, a, 0), opfv(K_BWITH, i, &w), opfv(K_BWITH, i, &v), op(K_BBUILD)]));
                    out.push((inits[1].clone(), vec![opab(K_BNEW, a, 0), opfv(K_BWITH, i, &w), op(K_BBUILD)]));
                } }
                // Builder fields without a field setter, defaults, then all fields.
                for a in 0..3 { for _ in 0..4 {
                    let mut ops = vec![opab(K_BNEW, a, 0)];
                    for g in sample(r, named.clone(), named.len()) { let w = value(r, &s.fields[g]); ops.push(opfv(K_BWITH, g, &w)); }
                    ops.push(op(K_BBUILD));
                    out.push((inits[1].clone(), ops));
                } }
            }
        },
        "C04" | "C05" => {
            for b in &walk { vals.push(one_at(*b, n)); }
            for v in &vals {
                if has(K_FROM) { for a in 0..3 { for b in 0..2 {
                    let mut ops = vec![opabv(K_FROM, a, b, v.clone())];
                    for e in 0..3 { ops.push(opab(K_INTO, e, 0)); }
                    if has(K_INTOT) { ops.push(op(K_INTOT)); }
                    out.push((inits[5].clone(), ops));
                } } }
                if has(K_FROMT) {
                    out.push((inits[4].clone(), vec![opabv(K_FROMT, 0, 0, v.clone()), op(K_INTOT)]));
                }
            }
            if has(K_FROMS) {
                let lens: Vec<usize> = if n <= 20 || deep { (0..n + 4).collect() } else {
                    let mut l = vec![0, 1, 2, n / 2, n - 2, n - 1, n, n + 1, n + 2, n + 9];
                    for _ in 0..6 { l.push(r.below(n)); }
                    l
                };
                for l in lens { for a in 0..3 {
                    for b in 0..4 { let v: Bytes = r.bytes(l); out.push((inits[5].clone(), vec![opabv(K_FROMS, a, b, v)])); }
                    for b in 0..2 { let v: Bytes = r.bytes(l); out.push((inits[5].clone(), vec![opabv(K_INTOS, a, b, v)])); }
                } }
            }
        },
        "C06" => {
            for b in sample(r, walk, 48) { vals.push(one_at(b, n)); }
            for v in &vals { for a in 0..3 { for b in 0..2 {
                out.push((r.pick(&inits).clone(), vec![opabv(K_WRITE, a, b, v.clone())]));
            } } }
            for x in &inits { out.push((x.clone(), vec![op(K_WRITEDEF)])); out.push((x.clone(), vec![opabv(K_WRITE, 2, 0, vec![0; n])])); out.push((x.clone(), vec![opabv(K_WRITE, 1, 0, vec![0xFF; n])])); }
        },
        "C07" => {
            let mut offs: Vec<u32> = if t <= 320 || deep { (0..t as u32 + 3).collect() } else {
                let mut p: Vec<u32> = points(s).iter().map(|x| *x as u32).collect();
                for _ in 0..64 { p.push(r.below(t) as u32); }
                p
            };
            offs.extend([u32::MAX, u32::MAX - 1, 1 << 31, (1u32 << 31) - 1, t as u32 * 2, t as u32 * 8, 256 + t as u32, 65536, 65536 + 1, u32::MAX - 7, u32::MAX - t as u32 + 1]);
            for o in offs {
                for init in [&inits[4], &inits[1]] { out.push((init.clone(), vec![opab(K_GETBIT, o, 0), opab(K_CGETBIT, o, 0)])); }
                for b in 0..2 {
                    let init = if b == 1 { &inits[0] } else { &inits[1] };
                    out.push((init.clone(), vec![opab(K_SETBIT, o, b)]));
                    out.push((init.clone(), vec![opab(K_CSETBIT, o, b)]));
                    out.push((inits[4].clone(), vec![opab(K_SETBIT, o, b), opab(K_CSETBIT, o, 1 - b)]));
                }
            }
        },
        "C08" => {
            let mut pairs: Vec<(u32, u32)> = vec![];
            if t <= 16 || (deep && t <= 64) {
                for o in 0..t as u32 + 2 { for l in 0..t as u32 + 2 { pairs.push((o, l)); } }
            } else {
                let p = points(s);
                let mut all = vec![];
                for a in &p { for b in &p { if b >= a { all.push((*a as u32, (*b - *a) as u32)); } } }
                pairs.extend(sample(r, all, if deep { 1500 } else { 170 }));
                for _ in 0..if deep { 1500 } else { 110 } { let o = offset(r, s); let l = length(r, s, o); pairs.push((o, l)); }
            }
            for f in &s.fields { pairs.push((f.off as u32, f.bits as u32)); }
            pairs.extend([(0, t as u32), (0, t as u32 + 1), (1, t as u32), (u32::MAX, 1), (u32::MAX, u32::MAX), (1, u32::MAX), (0, u32::MAX),
                (t as u32 - 1, u32::MAX - t as u32 + 2), (t as u32 - 1, u32::MAX - t as u32 + 3), (1 << 31, 1 << 31), (t as u32, 0), (u32::MAX - 3, 8), (t as u32 - 1, 1), (t as u32 - 1, 2), (u32::MAX, 0)]);
            for (o, l) in pairs {
                out.push((r.pick(&inits).clone(), vec![opab(K_GETR, o, l), opab(K_CGETR, o, l)]));
                let v = state(r, n);
                let k = if r.chance(50) { (0, 1) } else { (1, 0) };
                out.push((inits[k.0].clone(), vec![opabv(K_SETR, o, l, inits[k.1].clone())]));
                out.push((r.pick(&inits).clone(), vec![opabv(K_CSETR, o, l, v.clone())]));
                out.push((r.pick(&inits).clone(), vec![opabv(K_SETR, o, l, v)]));
            }
        },
        "C09" => {
            for x in &inits {
                out.push((x.clone(), vec![op(K_CLR)]));
                out.push((x.clone(), vec![op(K_CLRDEF)]));
                for i in sample(r, eligible(s, K_CLRF), lim) { out.push((x.clone(), vec![opf(K_CLRF, i)])); }
                for i in sample(r, eligible(s, K_CLRFD), lim) { out.push((x.clone(), vec![opf(K_CLRFD, i)])); }
            }
        },
        "C10" => {
            for b in sample(r, walk, 32) { inits.push(one_at(b, n)); }
            for x in &inits {
                out.push((x.clone(), vec![op(K_INV), op(K_INV)]));
                for i in sample(r, eligible(s, K_INVF), lim) { out.push((x.clone(), vec![opf(K_INVF, i), opf(K_INVF, i)])); }
                for i in sample(r, eligible(s, K_FINV), lim) { out.push((x.clone(), vec![opf(K_FINV, i)])); }
            }
        },
        "C18" => {
            for b in sample(r, walk, 64) { inits.push(one_at(b, n)); }
            for _ in 0..24 { inits.push(state(r, n)); }
            for x in &inits { out.push((x.clone(), vec![opab(K_DBG, 0, 0), opab(K_DBG, 1, 0)])); }
        },
        _ => {
            // Properties about everything: a slice of every other sweep.
            for q in ["C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C18"] {
                let c = sweep(q, s, r, false);
                out.extend(sample(r, c, if deep { 200 } else { 40 }));
            }
        },
    }
    out.retain(|(_, ops)| ops.iter().all(|o| has(o.k)));
    out
}

pub fn history(prop: &str, s: &Schema, r: &mut Rng, maxlen: usize) -> Case {
    let kinds = kinds_for(prop, s);
    let init = state(r, s.nbytes);
    let len = 1 + r.below(maxlen);
    let mut ops = vec![];
    if kinds.is_empty() { return (init, ops); }
    for _ in 0..len * 2 {
        if ops.len() >= len { break; }
        if let Some(o) = random_op(r, s, &kinds) { ops.push(o); }
    }
    (init, ops)
}
