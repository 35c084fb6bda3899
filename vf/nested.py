"""C19: fields of lossy and unusual custom types, and nested bitfields against their flattened layout."""
import copy
from . import emit
from . import schema as S
from .schema import *


def _flag(n, t, args="", extra=""):
    spec = LOSSY[n][1].split("/")
    base, vals = int(spec[1]), [int(x) for x in spec[2:]]
    body = ", ".join(f"{'#[base] ' if v == base else ''}V{k} = {v}" for k, v in enumerate(vals))
    return (f"#[bitflag({t}{args})] #[derive(Debug, PartialEq)] pub enum {n} {{ {body} }}\n"
            f"impl V for {n} {{ fn dec(b: &[u8]) -> Self {{ {n}::from_bits({t}::dec(b)) }} fn enc(&self) -> Bytes {{ let x: {t} = (*self).into_bits(); x.enc() }} }}\n")


def _num(n, t, store, frm, into, enc="x.enc()", ret=None):
    return (f"#[derive(Clone, Copy, Debug, PartialEq)] pub struct {n}({store}); impl {n} {{ pub const fn from_bits(b: {t}) -> Self {{ {n}({frm}) }} pub const fn into_bits(self) -> {ret or t} {{ {into} }} }}\n"
            f"impl V for {n} {{ fn dec(b: &[u8]) -> Self {{ {n}::from_bits(<{t} as V>::dec(b)) }} fn enc(&self) -> Bytes {{ let x = (*self).into_bits(); {enc} }} }}\n")


HEADER = "".join([
    _num("E8", "u8", "u8", "if b == 0 { 2 } else { b & !1 }", "self.0"),
    _num("SAT8", "u8", "u8", "if b > 10 { 10 } else { b }", "self.0"),
    "#[derive(Clone, Copy, Debug, PartialEq)] pub struct Q16 { hi: u8, lo: u8 } impl Q16 { pub const fn from_bits(b: u16) -> Self { Q16 { hi: (b >> 4 & 0x3F) as u8, lo: (b & 15) as u8 } } pub const fn into_bits(self) -> u16 { (self.hi as u16) << 4 | self.lo as u16 } }\n",
    "impl V for Q16 { fn dec(b: &[u8]) -> Self { Q16::from_bits(u16::dec(b)) } fn enc(&self) -> Bytes { self.into_bits().enc() } }\n",
    *[_num("SI" + t[1:], t, t, "b ^ 0x15", "self.0 ^ 0x15") for t in ("i8", "i16", "i32", "i64", "i128")],
    _num("US", "usize", "usize", "b ^ 0x15", "self.0 ^ 0x15", "(x as u64).enc()").replace("<usize as V>::dec(b)", "u64::dec(b) as usize"),
    _num("IS", "isize", "isize", "b ^ 0x15", "self.0 ^ 0x15", "(x as i64).enc()").replace("<isize as V>::dec(b)", "i64::dec(b) as isize"),
    _num("BL", "u8", "bool", "b & 1 == 0", "!self.0", "(x as u8).enc()", "bool"),
    _num("CH", "u8", "char", "b as char", "self.0", "(x as u8).enc()", "char"),
    "#[derive(Clone, Copy, Debug, PartialEq)] pub struct Gen<T>(T); pub type Gn8 = Gen<u8>; pub type Gn32 = Gen<u32>;\n",
    "impl Gen<u8> { pub const fn from_bits(b: u8) -> Self { Gen(b ^ 0x15) } pub const fn into_bits(self) -> u8 { self.0 ^ 0x15 } }\n",
    "impl Gen<u32> { pub const fn from_bits(b: u8) -> Self { Gen(b as u32 + 0x1000) } pub const fn into_bits(self) -> u32 { self.0 - 0x1000 } }\n",
    "impl V for Gen<u8> { fn dec(b: &[u8]) -> Self { Gen::<u8>::from_bits(u8::dec(b)) } fn enc(&self) -> Bytes { self.into_bits().enc() } }\n",
    "impl V for Gen<u32> { fn dec(b: &[u8]) -> Self { Gen::<u32>::from_bits(u8::dec(b)) } fn enc(&self) -> Bytes { (self.into_bits() as u8).enc() } }\n",
    _flag("G8", "u8"), _flag("G8d", "u8"), _flag("G16", "u16"), _flag("G16l", "u16", ", from_endian = little, into_endian = little"), _flag("G32", "u32"), _flag("G64", "u64"), _flag("G128", "u128"),
])


def typed(r, i):
    """A declaration full of custom types, also named through paths."""
    s = S.gen(r, i, allow=["custom", "lossy", "lossy2"], sw_off=r.choice([0, 0, 0.9]), need=["new", "from_into_bits"], ignored=r.random() < 0.1, max_fields=14)
    for f in s["fields"]:
        if ty_info(f["ty"])[0] != "c":
            c = [t for t, (w, _) in LOSSY.items() if w >= f["bits"] and (t != "BL" or f["bits"] == 1)]
            if c and r.random() < 0.6:
                f["ty"] = r.choice(c)
                f["attr_bits"] = True
                if f["default"] is not None: f["default"] = S.pick_default(r, f, s["kind"] == "int")
                f.pop("ty_text", None)
                if f["ty"] in TY_TEXT: f["ty_text"] = TY_TEXT[f["ty"]]
        if ty_info(f["ty"])[0] == "c" and "ty_text" not in f and r.random() < 0.15: f["ty_text"] = r.choice(["self::", "super::", "crate::"]) + f["ty"]
    return s


# Calls on the outer bitfield that treat a nested field as its bits, and calls on inner fields.
ONLY = [1, 2, 3, 4, 5, 6, 7, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 32, 34, 36, 37, 38, 39]
BYTES = {1: "u8", 2: "u16", 4: "u32", 8: "u64", 16: "u128"}


def inner(r, nbytes, name, depth):
    s = S.gen(r, 0, backing=["int"], sizes=[nbytes], max_fields=5, access=False, raw=False, allow=["arr", "custom"], sw_off=r.choice([0, 0.5]), need=["new", "from_into_bits"], defaults=r.choice([0, 0.4, 0.8]))
    s.update(name=name, vis="pub", from_endian=r.choice([None, "big"]), into_endian=r.choice([None, "big"]), ignored=[])
    for f in s["fields"]: f["vis"] = "pub"
    if depth > 1: hang(r, s, depth - 1, 0.7)
    return s


def hang(r, s, depth, p):
    """Replaces runs of fields by nested bitfields."""
    total = s["nbytes"] * 8
    sizes = [b for b in BYTES if b * 8 < total or (b * 8 == total and r.random() < 0.1)]
    done = 0
    while sizes and done < 3 and (done == 0 or r.random() < p):
        b = r.choice(sizes)
        plain = sum(f["bits"] for f in s["fields"] if "child" not in f)
        if plain < b * 8: break
        # Take 8b bits away from plain fields, put the nested one anywhere.
        left = b * 8
        fs = []
        for f in r.sample(s["fields"], len(s["fields"])):
            if "child" in f or left == 0: continue
            t = min(left, f["bits"])
            left -= t
            f["cut"] = f["bits"] - t
        for f in s["fields"]:
            if "cut" not in f: fs.append(f); continue
            k = f.pop("cut")
            if k:
                f.update(bits=k, attr_bits=True, default=None, ty=S.pick_type(r, k, [], s["kind"]))
                fs.append(f)
        n = f"{s['name']}c{done}"
        fs.insert(r.randint(0, len(fs)), {"name": f"nest{done}", "ty": n, "bits": b * 8, "attr_bits": True, "reserved": False, "access": None, "vis": "pub",
                                          "default": {"form": "new"} if r.random() < 0.5 else None, "child": inner(r, b, n, depth)})
        s["fields"] = fs
        done += 1


def tree(r, i):
    s = S.gen(r, i, max_fields=6, raw=False, allow=["arr", "custom"], sw_off=r.choice([0, 0.5]), need=["new", "from_into_bits"], sizes=r.choice([None, None, [2, 3, 4, 5, 8], [16, 17, 20]]))
    if s["name"].startswith("r#"): s["name"] = f"S{i}"
    hang(r, s, r.choice([1, 2, 2, 3]), 0.5)
    s["only"] = ONLY
    return s


def declare(s, out):
    for f in s["fields"]:
        if "child" in f: declare(f["child"], out)
    t = copy.deepcopy(s)
    t["fields"] = [dict(f, attr_text=f"#[bits({f['bits']}" + (f", default = {f['ty']}::new()" if f["default"] else "") + ")] ") if "child" in f else f for f in t["fields"]]
    # Helper items of defaults (K0, kk0, kf0) are per declaration.
    if any(f["default"] is not None and f["default"]["form"] in ("const", "path", "fn", "selfc", "selff") for f in t["fields"] if "child" not in f):
        for f in t["fields"]:
            if "child" not in f and f["default"] is not None and f["default"]["form"] in ("const", "path", "fn", "selfc", "selff"):
                f["default"]["form"] = {"u": "dec", "i": "dec", "b": "dec", "a": "list", "c": "frombits"}[ty_info(f["ty"])[0]]
                if f["ty"] in FLAG: f["default"]["form"] = "variant"
    out.append(emit.declaration(t))


def leaves(s, base, path, dflt):
    """dflt: 'own' at the outermost level, then what the default around says: 'none' is given, 'inner' (each field's own default), 'zero' (this part of it is zero)."""
    at, total, out = 0, s["nbytes"] * 8, []
    msb = setting(s, "order") == "msb"
    for f in s["fields"]:
        off = base + (total - at - f["bits"] if msb else at)
        at += f["bits"]
        p = path + [(s["name"], f["name"])]
        if "child" in f:
            if dflt in ("none", "zero"): d = dflt
            elif f["default"]: d = "inner"
            else: d = "zero" if path else "none"
            out += leaves(f["child"], off, p, d)
            continue
        g = copy.deepcopy(f)
        if path:
            g["path"] = p
            if dflt == "none": g["default"] = None
            elif dflt == "zero" or g["default"] is None: g["default"] = {"form": "dec", "raw": 0}
        g["off"] = off
        out.append(g)
    return out


def flatten(s):
    t = copy.deepcopy(s)
    items = []
    declare(t, items)
    ls = sorted(leaves(t, 0, [], "own"), key=lambda g: g["off"])
    for k, g in enumerate(ls):
        if "path" in g: g["name"] = "_".join(b for _, b in g["path"])
    t.update(item_text="\n".join(items), fields=ls, order="lsb", flat=True)
    return t
