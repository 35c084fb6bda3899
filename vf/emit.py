"""Rust source for declarations and their glue."""
from .schema import *

HEADER = """#![allow(warnings)]
use bitfields::{bitfield, bitflag};
use rt::*;
pub fn first<T>(x: T) -> T { x }
#[derive(Clone, Copy, Default, Debug, PartialEq)] pub enum IgnE { #[default] A, B }
#[bitflag(u8)] #[derive(Debug, PartialEq)] pub enum F1 { #[base] V0 = 0, V1 = 1 }
#[bitflag(u8)] #[derive(Debug, PartialEq)] pub enum F2 { V0 = 0, #[base] V1 = 1, V2 = 2, V3 = 3 }
#[bitflag(u8)] #[derive(Debug, PartialEq, Default)] pub enum F3 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, #[default] V5 = 5, V6 = 6, V7 = 7 }
impl V for F1 { fn dec(b: &[u8]) -> Self { [F1::V0, F1::V1][(b.get(0).copied().unwrap_or(0) & 1) as usize] } fn enc(&self) -> Bytes { vec![*self as u8] } }
impl V for F2 { fn dec(b: &[u8]) -> Self { [F2::V0, F2::V1, F2::V2, F2::V3][(b.get(0).copied().unwrap_or(0) & 3) as usize] } fn enc(&self) -> Bytes { vec![*self as u8] } }
impl V for F3 { fn dec(b: &[u8]) -> Self { [F3::V0, F3::V1, F3::V2, F3::V3, F3::V4, F3::V5, F3::V6, F3::V7][(b.get(0).copied().unwrap_or(0) & 7) as usize] } fn enc(&self) -> Bytes { vec![*self as u8] } }
#[bitfield(u8, bit_ops = false)] pub struct N8 { #[bits(3)] a: u8, #[bits(5)] b: i8 }
#[bitfield(u16, bit_ops = false, order = msb)] pub struct N16 { #[bits(3)] a: u8, b: u8, #[bits(5)] c: i8 }
#[bitfield(u32, bit_ops = false)] pub struct N32 { a: u16, b: i8, #[bits(7)] c: u16, d: bool }
impl V for N8 { fn dec(b: &[u8]) -> Self { N8(u8::dec(b)) } fn enc(&self) -> Bytes { self.0.enc() } }
impl V for N16 { fn dec(b: &[u8]) -> Self { N16(u16::dec(b)) } fn enc(&self) -> Bytes { self.0.enc() } }
impl V for N32 { fn dec(b: &[u8]) -> Self { N32(u32::dec(b)) } fn enc(&self) -> Bytes { self.0.enc() } }
"""

# The same helper types without using the macros.
def _hand(n, t): return (f"#[derive(Clone, Copy, Debug, PartialEq)] pub struct {n}(pub {t}); impl {n} {{ pub const fn from_bits(b: {t}) -> Self {{ {n}(b) }} pub const fn into_bits(self) -> {t} {{ self.0 }} }}\n"
                         f"impl V for {n} {{ fn dec(b: &[u8]) -> Self {{ {n}({t}::dec(b)) }} fn enc(&self) -> Bytes {{ self.0.enc() }} }}\n")


def _hand_flag(n, w):
    k = 1 << w
    v = ", ".join(f"V{x} = {x}" for x in range(k))
    arms = " ".join(f"{x} => {n}::V{x}," for x in range(k - 1))
    return (f"#[derive(Clone, Copy, Debug, PartialEq)] #[repr(u8)] pub enum {n} {{ {v} }} impl {n} {{ pub const fn from_bits(b: u8) -> Self {{ match b {{ {arms} _ => {n}::V{k - 1} }} }} pub const fn into_bits(self) -> u8 {{ self as u8 }} }}\n"
            f"impl V for {n} {{ fn dec(b: &[u8]) -> Self {{ {n}::from_bits(b.get(0).copied().unwrap_or(0) & {k - 1}) }} fn enc(&self) -> Bytes {{ vec![*self as u8] }} }}\n")


HEADER_HAND = HEADER.split("#[bitflag", 1)[0] + "".join(_hand_flag(n, w) for n, w in FLAG.items()) + "".join(_hand(n, t) for n, (_, t) in NEST.items())

IGN_MOD = {"u8": "77", "i32": "-5", "bool": "true", "u64": "9", "(u8,u16)": "(1,2)", "[u8;3]": "[1,2,3]",
           "Option<u32>": "Some(4)", "IgnE": "IgnE::B", "String": "String::from(\"m\")", "Vec<u8>": "vec![1,2]"}


def base_ty(s):
    return {1: "u8", 2: "u16", 4: "u32", 8: "u64", 16: "u128"}[s["nbytes"]] if s["kind"] == "int" else f"[u8; {s['nbytes']}]"


def signed(raw, tw):
    return raw - (1 << tw) if raw >> (tw - 1) else raw


def value_expr(f, raw=None):
    """A Rust expression of the field's type."""
    d = f["default"]
    raw = d["raw"] if raw is None else raw
    kl, tw = ty_info(f["ty"])
    ty = f["ty"]
    if kl == "u": return f"{raw:#x}"
    if kl == "i":
        v = signed(raw, tw)
        return f"{ty}::MIN" if v == -(1 << (tw - 1)) else str(v)
    if kl == "b": return "true" if raw & 1 else "false"
    if kl == "a": return "[" + ", ".join(str(b) for b in raw.to_bytes(tw // 8, "little")) + "]"
    if ty in LOSSY and ty in ("SI8", "SI16", "SI32", "SI64", "SI128", "IS") and raw >> tw - 1 & 1: return f"{ty}::from_bits({raw - (1 << tw)})"
    if ty in XOR or ty in NEST or ty in LOSSY: return f"{ty}::from_bits({raw:#x})"
    return f"{ty}::V{raw}"


def expr_form(ty, kl, tw, raw, plain):
    """The value written as some other constant expression."""
    if kl in "uib" and ty != "bool":
        v = signed(raw, tw) if kl == "i" else raw
        h = raw // 2
        opts = [f"{{ {plain} }}", f"({plain})", f"if {h}u128 == {h}u128 {{ {plain} }} else {{ 0 }}", f"{{ const Q: {ty} = {plain}; Q }}", f"match 0u8 {{ 0 => {plain}, _ => 1 }}", f"{{ let q: {ty} = {plain}; q }}",
                f"!({plain_not(v, kl, tw, ty)})", f"{raw:#x}u128 as {ty}" if kl == "u" or raw < 1 << 127 else f"{{ {plain} }}", f"({plain}) ^ 0", f"{ty}::MIN.wrapping_add({plain})" if kl == "u" else f"(0 as {ty}).wrapping_add({plain})",
                f"<{ty}>::from_be(<{ty}>::swap_bytes({plain}))" if kl == "u" and tw == 8 else f"{{ {plain} }}"]
        if v >= 0: opts += [f"{h} + {v - h}", f"{v} | {h & v}", f"({h} << 1) + {v - 2 * h}"]
        if ty == "u8" and 32 < raw < 127 and chr(raw).isalnum(): opts += [f"b'{chr(raw)}'"] * 6
        return opts[raw * 2654435761 % 4294967291 % len(opts)]
    if kl == "b": return [f"!{'false' if raw & 1 else 'true'}", f"{{ {plain} }}", f"({plain})", f"1 == {1 if raw & 1 else 2}"][(raw + tw * 3 + len(plain)) % 4]
    if kl == "a":
        bs = raw.to_bytes(tw // 8, "little")
        if len(set(bs)) == 1: return f"[{bs[0]}; {len(bs)}]"
        if all(chr(b).isalnum() and b < 128 for b in bs): return f'*b"{bs.decode()}"'
        return [f"{{ {plain} }}", f"{{ let mut q = {plain}; q[0] = {bs[0]}; q }}", f"[{'{'}{bs[0]}{'}'}, " + ", ".join(f"{b} | 0" for b in bs[1:]) + "]", "*b\"" + "".join(f"\\x{b:02x}" for b in bs) + "\""][raw % 4]
    return [f"{{ {plain} }}", f"if true {{ {plain} }} else {{ loop {{}} }}", f"{{ let q = {plain}; q }}"][raw % 3]


def plain_not(v, kl, tw, ty):
    return f"{mask(tw) ^ v:#x}{ty}" if kl == "u" else f"{-v - 1}{ty}" if v != -(1 << (tw - 1)) else f"{ty}::MAX"


def default_text(s, j):
    """(attribute expression, extra items)"""
    f = s["fields"][j]
    form, raw = f["default"]["form"], f["default"]["raw"]
    kl, tw = ty_info(f["ty"])
    ty = f["ty"]
    int_backed = s["kind"] == "int"
    if kl == "a" and int_backed and form in ("list", "listhex", "const", "fn", "expr", "selfc", "selff"): form = "hex"
    if kl == "a" and not int_backed and form in ("hex", "dec", "bin"): form = "list"
    if form == "expr": return expr_form(ty, kl, tw, raw, value_expr(f)), ""
    if form == "const": return f"K{j}", f"const K{j}: {ty} = {value_expr(f)};"
    if form == "path": return f"kk{j}::K{j}", f"mod kk{j} {{ #[allow(unused_imports)] use super::*; pub const K{j}: {ty} = {value_expr(f)}; }}"
    if form == "selfc": return f"Self::K{j}", f"impl {s['name']} {{ const K{j}: {ty} = {value_expr(f)}; }}"
    if form == "selff": return f"Self::kf{j}()", f"impl {s['name']} {{ const fn kf{j}() -> {ty} {{ {value_expr(f)} }} }}"
    if form == "fn": return f"kf{j}()", f"const fn kf{j}() -> {ty} {{ {value_expr(f)} }}"
    if kl in "ui" or (kl == "a" and int_backed):
        if form in ("wrap", "wraphex"):
            v = raw & mask(f["bits"])
            return (str(v) if form == "wrap" else f"{v:#x}"), ""
        v = signed(raw, tw) if kl == "i" else raw
        sg, a = ("-", -v) if v < 0 else ("", v)
        if form == "hex": return f"{sg}{a:#x}", ""
        if form == "bin": return f"{sg}{a:#b}", ""
        if form == "oct": return f"{sg}{a:#o}", ""
        if form == "hexus":
            h = f"{a:x}"
            return sg + "0x" + "_".join(h[k:k + 2] for k in range(0, len(h), 2)), ""
        if form == "suffix": return f"{sg}{a}{ty}", ""
        return f"{sg}{a}", ""
    if kl == "b": return value_expr(f), ""
    if kl == "a":
        bs = raw.to_bytes(tw // 8, "little")
        if form == "listhex": return "[" + ", ".join(f"{b:#04x}" for b in bs) + "]", ""
        return "[" + ", ".join(str(b) for b in bs) + "]", ""
    if form == "tuple":
        k = {"X8": 0xA6, "X16": 0x5A3C, "X32": 0x91E67D2B, "X64": 0x0F1E2D3C4B5A6978, "X128": 0xC3A5112233445566778899AABBCCDDEF}[ty]
        return f"{ty}({raw ^ k:#x})", ""
    return value_expr(f), ""


def field_attr(s, j, text=None):
    f = s["fields"][j]
    if "attr_text" in f: return f["attr_text"]
    args = []
    if f["attr_bits"]: args.append(str(f["bits"]))
    if f["default"] is not None: args.append("default = " + (text if text is not None else default_text(s, j)[0]))
    if f["access"] is not None: args.append("access = " + f["access"])
    return f"#[bits({', '.join(args)})] " if args else ""


def attr_args(s):
    if "args_text" in s: return s["args_text"]
    args = [base_ty(s).replace(" ", "")]
    for k in ("order", "from_endian", "into_endian", "write_endian"):
        if s[k] is not None: args.append(f"{k} = {s[k]}")
    for k, v in s["sw"].items(): args.append(f"{k} = {'true' if v else 'false'}")
    heap_default = (s.get("feat") or {}).get("array_heap", False)
    if s["kind"] == "int":
        if s.get("heap_arg") is not None: args.append(f"array_heap = {'true' if s['heap_arg'] else 'false'}")
    elif s.get("heap_arg") is not None or (s["kind"] == "heap") != heap_default: args.append(f"array_heap = {'true' if s['kind'] == 'heap' else 'false'}")
    return ", ".join(args)


def declaration(s, indent=""):
    if s.get("enum"):
        from . import flags
        return flags.declaration(s)
    if "item_text" in s: return s["item_text"]
    extra, body = [], []
    ign = sorted(s["ignored"], key=lambda g: g["pos"])
    for j, f in enumerate(s["fields"] + [None]):
        for g in ign:
            if g["pos"] == j or (f is None and g["pos"] > j):
                body.append(f"    #[bits(ignore = true)] {g['vis'] + ' ' if g['vis'] else ''}{g['name']}: {g['ty']},")
        if f is None: break
        if f["default"] is not None and "attr_text" not in f:
            _, x = default_text(s, j)
            if x: extra.append(x)
        body.append(f"    {field_attr(s, j)}{f['vis'] + ' ' if f['vis'] else ''}{f['name']}: {f.get('ty_text') or f['ty'].replace(';', '; ')},")
    vis = s["vis"] + " " if s["vis"] else ""
    return "\n".join(extra + [f"#[bitfield({attr_args(s)})]"] + s.get("attrs", []) + [f"{vis}struct {s['name']} {{"] + body + ["}"])


def pfx(pre, name):
    """set_x for field x, also for raw identifiers."""
    n = name.removeprefix("r#")
    return f"{pre}_{n}"


def path_arms(n, k, j, f, add):
    """A field of a nested bitfield, reached through its parents: path is [(struct, field)], outermost first."""
    p, ty = f["path"], f["ty"]
    c = lambda x: x.removeprefix("r#").upper()
    if 1 in k: add(f"(1,{j})=>Out::Two({p[-1][0]}::{c(p[-1][1])}_BITS as u32,({'+'.join(f'{a}::{c(b)}_OFFSET as u32' for a, b in p)})),")
    if 2 in k: add(f"(2,{j})=>r::<{ty}>(t{''.join(f'.{b}()' for _, b in p)}),")
    if 34 in k: add(f"(34,{j})=>r::<{ty}>(t.{p[0][1].removeprefix('r#')}_inverted(){''.join(f'.{b}()' for _, b in p[1:])}),")
    down = "".join(f"let mut p{x + 1}={'t' if x == 0 else f'p{x}'}.{b}();" for x, (_, b) in enumerate(p[:-1]))
    up = "".join(f"{'t' if x == 0 else f'p{x}'}.{pfx('set', p[x][1])}(p{x + 1});" for x in range(len(p) - 2, -1, -1))
    last = f"p{len(p) - 1}"
    if 3 in k: add(f"(3,{j})=>{{{down}{last}.{pfx('set', p[-1][1])}(d::<{ty}>(o));{up}Out::Unit}}")
    if 4 in k: add(f"(4,{j})=>{{{down}let e={last}.{pfx('checked_set', p[-1][1])}(d::<{ty}>(o));{up}ru(e)}}")


def glue(s, ops=None):
    """`Sub` with `Subj` for the declaration (same module)."""
    n = s["name"]
    bare = n.removeprefix("r#")
    b = bare + "Builder"
    T = base_ty(s)
    k = set(kinds(s))
    if ops is not None: k &= set(ops)
    arr = s["kind"] != "int"
    heap = s["kind"] == "heap"
    ign = s["ignored"]
    acc = "val" if ign else "0"
    copy = effective(s, "copy")
    u = "bytes" if arr else "bits"
    z = "[0u8; %d]" % s["nbytes"] if arr else "0"
    if heap: z = f"Box::new({z})"
    if ign: mk = f"{n} {{ val: {z}, " + ", ".join(f"{g['name']}: Default::default()" for g in ign) + " }"
    else: mk = f"{n}({z})"
    if copy: dup = "Clone::clone(t)" if heap else "*t"
    elif ign: dup = f"{n} {{ val: t.val.clone(), " + ", ".join(f"{g['name']}: t.{g['name']}.clone()" for g in ign) + " }"
    else: dup = f"{n}(t.0.clone())"
    rawv = f"(*self.cur.{acc})" if heap else f"self.cur.{acc}"
    has_b = 8 in k
    A = []
    add = A.append
    for j, f in enumerate(s["fields"]):
        a = access(f)
        nm = f["name"]
        up = nm.removeprefix("r#").upper()
        ty = f["ty"]
        named, get, st = a in ("rw", "ro", "wo"), a in ("rw", "ro"), a in ("rw", "wo")
        if "path" in f:
            path_arms(n, k, j, f, add)
            continue
        if named and 1 in k: add(f"(1,{j})=>Out::Two({n}::{up}_BITS as u32,{n}::{up}_OFFSET as u32),")
        if get:
            if 2 in k: add(f"(2,{j})=>r::<{ty}>(t.{nm}()),")
            if 34 in k: add(f"(34,{j})=>r::<{ty}>(t.{nm.removeprefix('r#')}_inverted()),")
        if st:
            if 3 in k: add(f"(3,{j})=>{{t.{pfx('set', nm)}(d::<{ty}>(o));Out::Unit}}")
            if 4 in k: add(f"(4,{j})=>ru(t.{pfx('checked_set', nm)}(d::<{ty}>(o))),")
            if 30 in k:
                add(f"(30,{j})=>{{t.{pfx('clear', nm)}();Out::Unit}}")
                if f["default"] is not None: add(f"(31,{j})=>{{t.{pfx('clear', nm)}_to_default();Out::Unit}}")
            if 33 in k: add(f"(33,{j})=>{{t.{pfx('invert', nm)}();Out::Unit}}")
        if has_b and named:
            if 9 in k: add(f"(9,{j})=>{{if let Some(x)=self.b.take(){{self.b=Some(x.{pfx('with', nm)}(d::<{ty}>(o)));}}Out::Unit}}")
            if 10 in k: add(f"(10,{j})=>match self.b.take(){{None=>Out::Unit,Some(x)=>match x.{pfx('checked_with', nm)}(d::<{ty}>(o)){{Ok(y)=>{{self.b=Some(y);Out::Ok(vec![])}},Err(_)=>Out::Err(vec![])}}}},")
    if 5 in k: add(f"(5,_)=>{{*t={n}::new();Out::Unit}}(6,_)=>{{*t={n}::new_without_defaults();Out::Unit}}")
    if 7 in k: add(f"(7,_)=>{{*t=<{n} as Default>::default();Out::Unit}}")
    if has_b:
        add(f"(8,_)=>{{self.b=Some(match o.a{{0=>{b}::new(),1=>{b}::new_without_defaults(),_=><{b} as Default>::default()}});Out::Unit}}")
        add("(11,_)=>{if let Some(x)=self.b.take(){*t=x.build();}Out::Unit}")
    if 12 in k:
        arms = "".join(f"({a},{w})=>{n}::from_{e}{u}{'_with_defaults' if w else ''}(v)," for a, e in ((0, ""), (1, "le_"), (2, "be_")) for w in (0, 1))
        add(f"(12,_)=>{{let v=d::<{T}>(o);*t=match(o.a,o.b){{{arms}_=>unreachable!()}};Out::Unit}}")
    if 13 in k:
        if arr: add(f"(13,_)=>r::<{T}>(match o.a{{0=>t.into_{u}(),1=>t.into_le_{u}(),_=>t.into_be_{u}()}}),")
        else: add(f"(13,_)=>{{let t={dup};r::<{T}>(match o.a{{0=>t.into_{u}(),1=>t.into_le_{u}(),_=>t.into_be_{u}()}})}}")
    if 14 in k: add(f"(14,_)=>{{*t=<{n} as From<{T}>>::from(d::<{T}>(o));Out::Unit}}(15,_)=>r::<{T}>(<{T} as From<{n}>>::from({dup})),")
    if 16 in k:
        e3 = ((0, ""), (1, "le_"), (2, "be_"))
        arms = "".join(f"({a},{w})=>{{*t={n}::from_{e}slice{'_with_defaults' if w else ''}(&o.v);Out::Unit}}" for a, e in e3 for w in (0, 1))
        arms += "".join(f"({a},{w + 2})=>match {n}::checked_from_{e}slice{'_with_defaults' if w else ''}(&o.v){{Ok(x)=>{{*t=x;Out::Ok(vec![])}},Err(_)=>Out::Err(vec![])}}," for a, e in e3 for w in (0, 1))
        add(f"(16,_)=>match(o.a,o.b){{{arms}_=>unreachable!()}},")
    if 17 in k:
        e3 = ((0, ""), (1, "le_"), (2, "be_"))
        arms = "".join(f"({a},0)=>{{t.into_{e}slice(&mut w);Out::Bits(w)}}({a},1)=>match t.checked_into_{e}slice(&mut w){{Ok(())=>Out::Ok(w),Err(_)=>Out::Err(w)}}," for a, e in e3)
        add(f"(17,_)=>{{let mut w=o.v.clone();match(o.a,o.b){{{arms}_=>unreachable!()}}}}")
    if 18 in k:
        arms = "".join(f"({a},{w})=>t.write_{e}{u}{'_with_defaults' if w else ''}(v)," for a, e in ((0, ""), (1, "le_"), (2, "be_")) for w in (0, 1))
        add(f"(18,_)=>{{let v=d::<{T}>(o);match(o.a,o.b){{{arms}_=>unreachable!()}};Out::Unit}}(19,_)=>{{t.write_defaults();Out::Unit}}")
    if 20 in k: add("(20,_)=>Out::Bool(t.get_bit(o.a)),(21,_)=>rb(t.checked_get_bit(o.a)),(22,_)=>{t.set_bit(o.a,o.b==1);Out::Unit}(23,_)=>ru(t.checked_set_bit(o.a,o.b==1)),")
    if 24 in k: add(f"(24,_)=>r::<{T}>(t.get_{u}_range(o.a,o.b)),(25,_)=>rr(t.checked_get_{u}_range(o.a,o.b)),(26,_)=>{{t.set_{u}_range(o.a,o.b,d::<{T}>(o));Out::Unit}}(27,_)=>ru(t.checked_set_{u}_range(o.a,o.b,d::<{T}>(o))),")
    if 28 in k: add(f"(28,_)=>{{t.clear_{u}();Out::Unit}}(29,_)=>{{t.clear_{u}_with_defaults();Out::Unit}}")
    if 32 in k: add(f"(32,_)=>{{t.invert_{u}();Out::Unit}}")
    if 35 in k: add("(35,_)=>Out::Str(if o.a==1{format!(\"{:#?}\",t)}else{format!(\"{:?}\",t)}),")
    if 36 in k: add(f"(36,_)=>{{self.snap=Some({dup});Out::Unit}}(37,_)=>{{if let Some(x)=&self.snap{{let t=x;self.cur={dup};}}Out::Unit}}")
    w = f"*t.{acc}" if heap else f"t.{acc}"
    add(f"(38,_)=>{{{w}=d::<{T}>(o);Out::Unit}}")
    igfn = ""
    if not ign: add("(39,_)=>Out::Unit,")
    if ign:
        add("(39,_)=>{" + "".join(f"t.{g['name']}={IGN_MOD[g['ty']]};" for g in ign) + "Out::Unit}")
        c0 = "&&".join(f"self.cur.{g['name']}==<{g['ty']}>::default()" for g in ign)
        c1 = "&&".join(f"self.cur.{g['name']}=={IGN_MOD[g['ty']]}" for g in ign)
        igfn = f"fn ign(&self)->u8{{if {c0}{{0}}else if {c1}{{1}}else{{2}}}}"
    snapfn = ""
    if 36 in k:
        sr = f"(*x.{acc}).enc()" if heap else f"x.{acc}.enc()"
        snapfn = f"fn snap_raw(&self)->Option<Bytes>{{self.snap.as_ref().map(|x|{sr})}}"
    return (f"pub struct Sub{{cur:{n},b:Option<{b if has_b else '()'}>,snap:Option<{n}>}}\n"
            f"impl Subj for Sub{{fn raw(&self)->Bytes{{{rawv}.enc()}}{igfn}{snapfn}\n"
            f"fn apply(&mut self,o:&Op)->Out{{let t=&mut self.cur;match(o.k,o.f){{\n" + "\n".join(A) +
            "\n_=>Out::Missing}}}\n"
            f"pub fn mk()->Box<dyn Subj>{{Box::new(Sub{{cur:{mk},b:None,snap:None}})}}\n")


def module(s, i, ops=None):
    if "place" in s:
        from . import contexts
        return contexts.module(s, i, ops)
    return f"mod m{i} {{ use super::*;\n{declaration(s)}\n{glue(s, ops)}}}\n"


def rust_str(x):
    return '"' + x.replace("\\", "\\\\").replace('"', '\\"') + '"'
