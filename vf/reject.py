"""C14: well-formed declarations compile, each single-fault mutant of one is rejected, and the macros crash on nothing."""
import copy
import random
import re
from . import core, emit, flags
from . import schema as S
from .schema import *

PRE = emit.HEADER + """
pub struct NoDef; impl Clone for NoDef { fn clone(&self) -> Self { NoDef } } impl Copy for NoDef {}
pub const KLEN: usize = 2;
"""
CRASH = re.compile(r"panicked|major unexpected error|internal error", re.I)


# ------------------------------------------------------------------ helpers

def attr(s, j, **kw):
    """The #[bits] attribute of field j with parts replaced; None removes one."""
    f = s["fields"][j]
    parts = {"bits": str(f["bits"]) if f["attr_bits"] else None,
             "default": emit.default_text(s, j)[0] if f["default"] is not None else None,
             "access": f["access"], "extra": None}
    parts.update(kw)
    a = []
    if parts["bits"] is not None: a.append(parts["bits"])
    if parts["default"] is not None: a.append("default = " + parts["default"])
    if parts["access"] is not None: a.append("access = " + parts["access"])
    if parts["extra"] is not None: a.append(parts["extra"])
    return f"#[bits({', '.join(a)})] " if a else ""


def plain(r, want=lambda f: True, **o):
    """A well-formed declaration in which some field satisfies `want`, or None."""
    for _ in range(20):
        s = S.gen(r, 0, **{"max_fields": 7, "sw_off": 0.5, "ignored": r.random() < 0.1, "ign_copy": True, "raw": False, **o})
        for f in s["fields"]:
            if f["default"] is not None and f["default"]["form"] in ("const", "fn", "path", "selfc", "selff"): f["default"] = None
        c = [j for j, f in enumerate(s["fields"]) if want(f)]
        if c: return s, r.choice(c)
    return None


def wide_type(bits):
    return next((t for t, w in UINT.items() if w >= bits), f"[u8;{(bits + 7) // 8}]")


def put_field(s, j, **kw):
    s["fields"][j] = {**s["fields"][j], **kw}


def lit(r, v, signed_ok=True):
    sg, a = ("-", -v) if v < 0 else ("", v)
    k = r.randrange(5)
    if k == 0: return f"{sg}{a:#x}"
    if k == 1: return f"{sg}{a:#b}"
    if k == 2: return f"{sg}{a:#o}"
    if k == 3:
        h = f"{a:x}"
        return sg + "0x" + "_".join(h[i:i + 4] for i in range(0, len(h), 4))
    return f"{sg}{a}"


# ------------------------------------------------------------------ faults in bitfields: each returns (schema, field index or None) or None

def sum_more(r):
    p = plain(r)
    s, j = p
    f = s["fields"][j]
    k = r.choice([1, 1, 2, 7, 8, 64, 128, 256, 256, 65536])
    if r.random() < 0.5 and k <= 64:
        b = f["bits"] + k
        put_field(s, j, bits=b, attr_bits=True, ty=wide_type(b), default=None)
    else:
        s["fields"].insert(j, {"name": "extra", "ty": wide_type(k), "bits": k, "attr_bits": True, "reserved": False, "access": None, "vis": "", "default": None})
    return s, j


def sum_less(r):
    s, j = plain(r)
    f = s["fields"][j]
    if f["bits"] > 1 and r.random() < 0.6:
        b = f["bits"] - r.choice([1, 1, r.randint(1, f["bits"] - 1)])
        put_field(s, j, bits=b, attr_bits=True, ty=wide_type(b), default=None)
    else:
        del s["fields"][j]
        for g in s["ignored"]: g["pos"] = min(g["pos"], len(s["fields"]))
    return s, None


def zero_width(r):
    s, j = plain(r)
    s["fields"].insert(j, {"name": "extra", "ty": r.choice(["u8", "u64", "i16", "bool", "[u8;2]", "X8"]), "bits": 0, "attr_bits": True, "reserved": False, "access": None, "vis": "",
                           "default": None, "attr_text": "#[bits(%s)] " % r.choice(["0", "0", "0x0", "0, access = ro", "0b0"])})
    return s, j


def too_wide(r):
    s, j = plain(r, lambda f: f["bits"] > 1)
    f = s["fields"][j]
    c = [t for t, w in list(UINT.items()) + list(SINT.items()) if w < f["bits"]] + ["bool"]
    n = (f["bits"] - 1) // 8
    if n > 0: c += [f"[u8;{n}]", f"[u8;{r.randint(1, n)}]"]
    if f["bits"] > 128: c += ["X128", "X8", "N16"]
    put_field(s, j, ty=r.choice(c), attr_bits=True, default=None)
    return s, j


def default_range(r):
    """An integer literal outside the field's bits."""
    p = plain(r, lambda f: ty_info(f["ty"])[0] in "ui" or (ty_info(f["ty"])[0] == "b"))
    s, j = p
    f = s["fields"][j]
    kl, tw = ty_info(f["ty"])
    b = f["bits"]
    c = [1 << b, (1 << b) + r.getrandbits(b + 1), (1 << b) | 1 << r.randint(b, max(b, 127)), mask(128), 1 << 127]
    if kl == "i": c += [-(1 << (b - 1)) - 1] * 3 + [-(1 << b) - r.getrandbits(8), -(1 << 127) - 1, -(1 << 128) + 1, -(1 << 128)]
    elif kl == "u": c += [-1, -1, -(1 << (b - 1)), -r.getrandbits(b) - 1]
    if b == 128: c = [1 << 128, (1 << 128) + r.getrandbits(100)] + ([-(1 << 128), -(1 << 130)] if kl == "i" else [-1])
    if kl == "b": c = [2, 3, 255, 1 << 64]
    v = r.choice(c)
    if not (v >= 1 << b or v < (-(1 << (b - 1)) if kl == "i" else 0)): return None
    if abs(v) >= 1 << 128: s["sw"] = {}  # left to the compiler, which sees it only where the default is used
    t = lit(r, v)
    if r.random() < 0.15 and kl in "ui" and -(1 << (tw - 1)) <= v < 1 << tw and not (kl == "u" and v < 0): t = f"{v}{f['ty']}"
    s["fields"][j]["attr_text"] = attr(s, j, default=t)
    return s, j


def default_range_array(r):
    """Byte arrays: a number or byte list with bits above the width, or list elements above 255."""
    p = plain(r, lambda f: ty_info(f["ty"])[0] == "a" and (f["bits"] < 128), allow=["arr"])
    if not p: return None
    s, j = p
    f = s["fields"][j]
    n, b = arr_len(f["ty"]), f["bits"]
    if s["kind"] == "int":
        t = lit(r, r.choice([1 << b, (1 << b) | r.getrandbits(b), 1 << 127, mask(128)]))
    else:
        bs = [r.randrange(256) for _ in range(n)]
        if r.random() < 0.5 or b >= 8 * n: bs[r.randrange(n)] = r.choice([256, 257, 300, 65535, 1 << 32])
        else:
            k = r.randint(b, 8 * n - 1)
            bs[k // 8] |= 1 << (k % 8)
        t = "[" + ", ".join(r.choice([str, hex])(x) for x in bs) + "]"
    s["fields"][j]["attr_text"] = attr(s, j, default=t)
    return s, j


def default_below_i128(r):
    """Literals between -2^128 and the minimum of a 128-bit signed field."""
    s, j = plain(r, backing=["int"], sizes=[16], sw_off=0.0)
    put_field(s, 0, ty="i128", bits=128, attr_bits=True, default=None, access=None, reserved=False, name="a")
    s["fields"] = s["fields"][:1]
    s["ignored"] = []
    s["fields"][0]["attr_text"] = f"#[bits(128, default = {lit(r, -(1 << 127) - r.choice([1, 2, 1 << r.randint(1, 126), (1 << 127) - 1]))})] "
    return s, 0


def default_kind(r):
    """Literals of another kind, unknown names."""
    s, j = plain(r, lambda f: not f["reserved"], sw_off=0.0)
    f = s["fields"][j]
    kl = ty_info(f["ty"])[0]
    c = ['"a"', 'b"a"', "()", "1.5", "1.0f32", "0.0", "1f64", "NOPE", "nope::NOPE", "nope()", "Nope::A", "|| 1", "Some(1)", "1e1", "1E0", "2e0f32"]
    if kl == "b": c += ["1", "0", "1u8", "0x1"] * 2
    if kl == "c": c += ["1", "true", "0u8", "[1]"] * 2 + ["X7(1)" if f["ty"] == "X8" else "X8(1)"] * 6
    if kl == "a":
        n = arr_len(f["ty"])
        if s["kind"] == "int": c += ["[1]", "[0; 2]"] * 2
        else: c += ["1", "0xff", "[" + ", ".join(["1"] * (n + 1)) + "]", "[" + ", ".join(["1"] * (n - 1)) + "]", f"[0; {n + 1}]", "true", "[0u16; %d]" % n]
    if kl in "ui": c += ["[1]", "(1, 2)", "X8(1)", "F1::V0x"]
    s["fields"][j]["attr_text"] = attr(s, j, default=r.choice(c))
    return s, j


def field_type(r):
    s, j = plain(r)
    f = s["fields"][j]
    t = r.choice(["usize", "isize", "f32", "f64", "char", "String", "(u8,)", "()", "&'static u8", "[u16; 2]", "[i8; 2]", "[bool; 2]", "[char; 2]", "[u8; 0]", "[u8; KLEN]", "[f32; 1]",
                  "[[u8; 2]; 2]", "[X8; 1]", "[usize; 1]", "fn()", "*const u8", "Nope", "nope::Nope", "[u8]", "&'static [u8]", "Option<u8>", "Vec<u8>", "core::primitive::f64", "[u8; 1 + 1]", "u9", "u256", "i7"])
    put_field(s, j, ty_text=t, default=None)
    s["fields"][j]["attr_text"] = "#[bits(%d)] " % f["bits"] if r.random() < 0.8 else ""
    return s, j


def backing(r):
    s, j = plain(r)
    w = s["nbytes"] * 8
    n = s["nbytes"]
    a = emit.attr_args(s).split(", ", 1)
    t = r.choice([f"i{w}", f"i{w}", f"f{w}", "usize", "isize", "bool", "char", "str", "String", f"[u16; {max(1, n // 2)}]", f"[i8; {n}]", "[u8; 0]", f"[bool; {n}]", "[u8; KLEN]", f"[u8; {n} + 0]",
                  "[u8]", f"&'static [u8; {n}]", "X8", "Nope", "Vec<u8>", str(w), '"u8"', "()", "(u8,)", f"u{w + 1}", "[u8; 4294967296]", "[u8; -1]", f"[[u8; {n}]; 1]", f"[u8; {n}.0]", "", "new = true", "*"])
    s["args_text"] = ", ".join(([t] if t else []) + a[1:])
    return s, None


KEYS_BF = SWITCHES + ["order", "from_endian", "into_endian", "write_endian", "array_heap"]


def near(r, keys):
    k = r.choice(keys)
    return r.choice([k + "s", k[:-1], k.capitalize(), k.upper(), "_" + k, k + "_", k.replace("_", ""), "no_" + k, k[::-1]] +
                    ["foo", "bits", "width", "generate_" + k, "vis", "repr", "endian", "offset", "size", "skip", "r#" + k])


def unknown_arg(r):
    s, j = plain(r)
    if r.random() < 0.5:
        k = near(r, KEYS_BF)
        if r.random() < 0.2: k = r.choice(["access", "ignore"])
        if k in KEYS_BF: return None
        parts = emit.attr_args(s).split(", ")
        parts.insert(r.randint(1, len(parts)), f"{k} = {r.choice(['true', 'false', 'lsb', '1', 'big'])}")
        s["args_text"] = ", ".join(parts)
        return s, None
    keys = ["access", "default", "ignore"]
    k = near(r, keys)
    if r.random() < 0.2: k = r.choice(["order", "new", "endian"])
    if k in keys: return None
    s["fields"][j]["attr_text"] = attr(s, j, extra=f"{k} = {r.choice(['true', 'rw', '1', '8'])}")
    return s, j


def malformed_arg(r):
    s, j = plain(r)
    if r.random() < 0.5:
        parts = emit.attr_args(s).split(", ")
        have = {p.split(" ")[0] for p in parts}
        k = r.choice([x for x in KEYS_BF if x not in have] or KEYS_BF)
        bad = {"order": ["up", "little", "1", '"lsb"', "lsb0", "true", "left"], "array_heap": ["1", "yes", "heap", '"true"', "null"]}.get(k)
        if bad is None: bad = ["native", "lsb", "1", "true", '"big"', "bigger", "le", "network"] if k.endswith("endian") else ["1", "0", "yes", '"true"', "True", "FALSE", "t", "!true", "()", "on", "true()"]
        ok = "lsb" if k == "order" else "big" if k.endswith("endian") else "true"
        form = r.choice([f"{k} = {r.choice(bad)}"] * 4 + [k, f"{k} =", f"{k}: {ok}", f"{k}({ok})", f"{k} == {ok}", f"{k} {ok}", f"= {ok}", f'"{k}" = {ok}', f"{k} => {ok}", f"5 = {ok}", f"!{k} = {ok}", f"a::{k} = {ok}"])
        parts.insert(r.randint(1, len(parts)), form)
        s["args_text"] = ", ".join(parts)
        if r.random() < 0.08: s["args_text"] = emit.attr_args({**s, "args_text": None}) if False else ",, ".join(parts[:2])
        return s, None
    f = s["fields"][j]
    b = f["bits"]
    c = [attr(s, j, bits=x) for x in (f"{b}u8", f"{b}usize", f"-{b}", f"-0x{b:x}", "4294967296", "18446744073709551616", '"8"', f"{b}.0", "KLEN", f"({b})", "'a'", f"{b} {b}", f"{b}, {b}", "!", "=", "true")]
    if not f["reserved"]: c += [attr(s, j, access=x) for x in ("r", "w", "readonly", "rx", "1", '"rw"', "true", "none", "write", "-ro", "ro ro", "rw | ro")]
    c += [attr(s, j, extra=x) for x in ("ignore", "ignore = 1", "ignore = yes", 'ignore = "true"', "ignore = !true", "ignore =", "ignore: true", "ignore(true)", "default", "default =", "access", "access =", "access(ro)",
                                        "= 3", "3 = 3", "default : 3", "bits", "bits = 3", "+", "[ro]")]
    c += ["#[bits] ", f"#[bits = {b}] "]
    s["fields"][j]["attr_text"] = r.choice(c)
    return s, j


def custom_without_width(r):
    p = plain(r, lambda f: ty_info(f["ty"])[0] == "c", allow=["custom"])
    if not p: return None
    s, j = p
    s["fields"][j]["attr_text"] = attr(s, j, bits=None)
    return s, j


def reserved_access(r):
    p = plain(r, lambda f: f["reserved"])
    if not p: return None
    s, j = p
    s["fields"][j]["attr_text"] = attr(s, j, access=r.choice(["ro", "wo", "rw", "na"]))
    return s, j


def duplicate_name(r):
    for _ in range(20):
        s, j = plain(r, lambda f: not f["reserved"])
        c = [k for k, f in enumerate(s["fields"]) if k != j and not f["reserved"]]
        if c:
            s["fields"][j]["name"] = s["fields"][r.choice(c)]["name"]
            return s, j
        if s["ignored"] and r.random() < 0.5:
            s["fields"][j]["name"] = s["ignored"][0]["name"]
            return s, j
    return None


def wrong_item(r):
    s, j = plain(r)
    a = f"#[bitfield({emit.attr_args(s)})] "
    ty = emit.base_ty(s)
    s["item_text"] = a + r.choice([f"struct {s['name']}({ty});", f"struct {s['name']};", f"enum {s['name']} {{ A = 1 }}", f"union {s['name']} {{ a: {ty} }}", f"fn s() -> {ty} {{ Default::default() }}", "trait T {}",
                                   "mod inner {}", f"const C: u8 = 1;", f"type T = {ty};", f"struct {s['name']} {{}}", f"struct {s['name']}();", "static ST: u8 = 0;", "impl X8 { fn q() {} }",
                                   f"struct {s['name']}(#[bits({s['nbytes'] * 8})] {ty});"])
    return s, None


def ignored_no_default(r):
    s, j = plain(r, ignored=False)
    s["ignored"] = [{"pos": r.randint(0, len(s["fields"])), "name": "nodef", "ty": "NoDef", "vis": ""}]
    s["sw"] = {"debug": False}
    return s, None


def repeated_bits(r):
    s, j = plain(r)
    f = s["fields"][j]
    one = emit.field_attr(s, j) or f"#[bits({f['bits']})] "
    two = r.choice([one, f"#[bits({f['bits']})] ", "#[bits(ignore = true)] "] + ([] if f["reserved"] else ["#[bits(access = ro)] ", "#[bits(access = rw)] "]))
    f["attr_text"] = one + two if r.random() < 0.7 else two + one
    return s, j


def generic_item(r):
    s, j = plain(r)
    t = emit.declaration(s)
    g = r.choice(["<const N: usize>", "<T>", "<'a>", "<T: Copy>", "<T = u8>", "<'a, T, const N: u8>", "<const N: usize = 3>", "<T,>"])
    s["item_text"] = re.sub(rf"struct {re.escape(s['name'])} {{", f"struct {s['name']}{g} {{", t)
    return s, None


def all_ignored(r):
    s, j = plain(r)
    for f in s["fields"]: f["attr_text"] = "#[bits(ignore = true)] "
    return s, None


FAULTS = [sum_more, sum_more, sum_less, sum_less, zero_width, too_wide, too_wide, default_range, default_range, default_range, default_range_array, default_kind, default_kind, field_type, backing, unknown_arg,
          unknown_arg, malformed_arg, malformed_arg, custom_without_width, reserved_access, duplicate_name, wrong_item, ignored_no_default, all_ignored,
          repeated_bits, generic_item]


# ------------------------------------------------------------------ faults in bitflags

def small_flag(r):
    while True:
        s = flags.gen(r, 0)
        if 2 <= len(s["variants"]) <= 24: break
    s["name"] = "E0"
    if s["vis"] == "pub(in crate::o)": s["vis"] = "pub"
    for v in s["variants"]: v["const"] = False
    return s


def flag_fault(r):
    s = small_flag(r)
    w = flags.TYPES[s["ty"]]
    k = r.randrange(len(s["variants"]))
    v = s["variants"][k]
    name = r.choice(["no_fallback", "two_bases", "no_value", "dup_value", "out_of_range", "out_of_range", "kind", "backing", "unknown_arg", "bad_value", "item", "payload", "generic"])
    if name == "no_fallback":
        s["base"] = s["default"] = None
        s["derives"] = [d for d in s["derives"] if d != "Default"]
    elif name == "two_bases":
        s["base"] = k
        o = r.choice([x for x in range(len(s["variants"])) if x != k])
        s["variants"][o]["attrs"] = ["#[base]"] + s["variants"][o]["attrs"]
    elif name == "no_value":
        t = flags.declaration(s)
        s["item_text"] = t.replace(f"{v['name']} = {v['text']},", f"{v['name']},")
    elif name == "dup_value":
        o = r.choice([x for x in range(len(s["variants"])) if x != k])
        v["text"] = flags.literal(r, s["variants"][o]["value"], s["ty"])
    elif name == "out_of_range":
        x = r.choice([1 << w, (1 << w) + 1 + r.getrandbits(w), (1 << w) | r.getrandbits(8), -1, -r.getrandbits(w) - 1, (1 << w) * 3 + 7])
        v["text"] = lit(r, x)
    elif name == "kind": v["text"] = r.choice(["true", '"a"', "'a'", "1.0", "1.5f32", "()", "NOPE", "1e1", "[1]", "nope()", "1i8", "Some(1)", "0usize" if s["ty"] != "usize" else "()"])
    elif name == "backing":
        s["args_text"] = r.choice([f"i{w}", "usize", "isize", "f32", "bool", "char", "[u8; 1]", f"[u8; {w // 8}]", "X8", "Nope", "", "copy = true", "8", '"u8"', "()", f"u{w + 1}", f"&'static u{w}"])
    elif name == "unknown_arg":
        s["args_text"] = f"{s['ty']}, {r.choice(['order', 'new', 'default', 'debug', 'endian', 'from', 'base', 'Copy', 'clone', 'from_endians', 'repr', 'write_endian'])} = {r.choice(['true', 'big', '1'])}"
    elif name == "bad_value":
        s["args_text"] = f"{s['ty']}, " + r.choice(["copy = 1", "copy = yes", 'copy = "true"', "copy", "copy =", "copy: true", "from_endian = true", "from_endian = lsb", "from_endian", "into_endian = native", "into_endian =",
                                                     "into_endian = 'b'", "from_endian(big)", "from_endian == big", ",, copy = true", "= big", "5"])
    elif name == "payload":
        t = flags.declaration(s)
        s["item_text"] = t.replace(f"{v['name']} = {v['text']},", f"{v['name']}{r.choice(['(u8)', '()', ' {}', ' { a: u8 }', '(u8, bool)', '(E0)'])} = {v['text']},")
    elif name == "generic":
        t = flags.declaration(s)
        s["item_text"] = re.sub(r"enum E0 \{", "enum E0" + r.choice(["<T>", "<'a>", "<const N: u8>", "<T: Copy>", "<T = u8>"]) + " {", t)
    else: s["item_text"] = f"#[bitflag({s['ty']})] " + r.choice(["struct E0 { a: u8 }", "struct E0;", "fn e() {}", "union E0 { a: u8 }", "mod e {}", "type E0 = u8;", "enum E0 {}", "trait E0 {}", "const E0: u8 = 0;"])
    return s, "flag_" + name


# ------------------------------------------------------------------ token soup: anything goes, nothing may crash

TOK = ["u8", "u16", "i8", "[u8; 4]", "[u8; 0]", "order", "lsb", "msb", "from_endian", "big", "little", "new", "true", "false", "default", "access", "ro", "rw", "wo", "na", "ignore", "=", "=", "=", ",", ",", ",", "-", "-", "0", "1", "8",
       "255", "256", "-1", "0x", "0xff", "0b", "0b1", "0o7", "0o", "1_000", "_1", "__", "_", "1.5", "1e3", "f32", "1f32", "i128", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456",
       "0x1ffffffffffffffffffffffffffffffff", "usize", "isize", "1usize", "'a'", "b'a'", "b\"x\"", '"s"', "'x", "::", "X8", "X8::A", "K()", "()", "[]", "{}", "[1, 2]", "[300]", "[0; 4]", "(1)", "{ 1 }", "(", "r#type", "self", "Self",
       "crate", "super", "pub", "struct", "fn", "!", "?", ".", "..", "<", ">", "&", "*", "+", "|", "||", "#", "$", "@", "~", ";", ":", "=>", "->", "bits", "copy", "builder", "array_heap", "bit_ops", "force", "é", "ignore = true", "access = ro",
       "default = 1", "default = -1", "order = msb", "4294967295", "4294967296", "128", "129", "if", "match", "1 + 1", "as u8", "--5", "-_5", "_-5", "unsafe { 1 }", "loop {}", "async {}", "return", "vec![1]"]


def soup(r):
    s, j = plain(r)
    n = r.choice([1, 1, 2, 3, 5, 8])

    def mix(text):
        t = text.split(" ")
        for _ in range(n):
            k = r.randrange(5)
            p = r.randrange(len(t) + 1)
            if k <= 1 or not t: t.insert(p, r.choice(TOK))
            elif k == 2: t.pop(min(p, len(t) - 1))
            elif k == 3: t[min(p, len(t) - 1)] = r.choice(TOK)
            else: t.insert(p, t[r.randrange(len(t))])
        return " ".join(t)
    w = r.randrange(4)
    if w == 0: s["args_text"] = mix(emit.attr_args(s))
    elif w in (1, 2): s["fields"][j]["attr_text"] = f"#[bits({mix(attr(s, j)[7:-3] or str(s['fields'][j]['bits']))})] "
    else:
        e = small_flag(r)
        v = r.choice(e["variants"])
        if r.random() < 0.5: v["text"] = mix(v["text"])
        else: e["args_text"] = mix(e["ty"] + ", copy = true")
        s = e
    t = emit.declaration(s)
    if not balanced(t): return None
    return s, j


def balanced(t):
    t = re.sub(r'"[^"\n]*"|b?\'[^\']\'', "0", t)
    st = []
    for ch in t:
        if ch in "([{": st.append(ch)
        elif ch in ")]}":
            if not st or "([{".index(st.pop()) != ")]}".index(ch): return False
    return not st and "'" not in re.sub(r"'[a-z]\w*", "", t)


# ------------------------------------------------------------------ running

class Batch:
    def __init__(self, rep, build, d): self.rep, self.build, self.d = rep, build, d

    def compile(self, units, tag):
        """units: {i: text}. Returns ({i: [messages]}, ok)."""
        out = PRE.rstrip("\n").split("\n")
        where = {}
        for i, text in units.items():
            out.append(f"mod m{i} {{ use super::*;")
            for l in text.split("\n"):
                out.append(l)
                where[len(out)] = i
            out.append("}")
        p = self.d.file(f"{tag}.rs", "\n".join(out) + "\n")
        c = core.rustc(self.build, p, self.d.file(f"{tag}.rmeta"), ["--crate-type", "lib", "--emit=metadata"])
        hit = {}
        for e in c.errors:
            for l in e["lines"]:
                if l in where: hit.setdefault(where[l], []).append(e["msg"])
        if not c.ok and not hit: raise core.ToolError(f"batch does not compile for another reason: {c.errors[:3]} ({p})")
        return hit, c.ok

    def verdicts(self, units, tag):
        """{i: messages} with [] for an accepted declaration; later compiler phases are reached by removing what was already rejected."""
        res = {}
        left = dict(units)
        n = 0
        while left:
            n += 1
            hit, ok = self.compile(left, f"{tag}_{n}")
            for i in hit: res[i] = hit[i]
            left = {i: t for i, t in left.items() if i not in hit}
            if ok:
                for i in left: res[i] = []
                break
        return res


def crashes(msgs): return [m for m in msgs if CRASH.search(m)]


def check(rep, build, items):
    """items: [(kind, expectation, schema, field)] expectation: 'accept', 'reject' or 'any'."""
    d = core.Dir(rep.prop)
    try:
        b = Batch(rep, build, d)
        texts = {i: emit.declaration(x[2]) for i, x in enumerate(items)}
        # Declarations that must be accepted go apart: their errors must not be hidden behind others.
        groups = []
        for exp in ("accept", "reject", "any"):
            ids = [i for i, x in enumerate(items) if x[1] == exp]
            n = max(1, min(core.JOBS, len(ids) // 8))
            groups += [ids[k::n] for k in range(n) if ids[k::n]]

        def run(k):
            g = groups[k]
            try: return b.verdicts({i: texts[i] for i in g}, f"g{k}")
            except core.ToolError:
                if items[g[0]][1] != "any": raise
                out = {}
                for i in g:  # the compiler itself may stumble over random tokens: those are left out
                    try: out.update(b.verdicts({i: texts[i]}, f"g{k}"))
                    except core.ToolError: pass
                return out
        res = {}
        for x in core.pmap(run, range(len(groups))): res.update(x)
        cnt = rep.extra.setdefault("by_kind", {})
        bad = []
        for i, (kind, exp, s, j) in enumerate(items):
            if i not in res: continue
            rep.evaluations += 1
            cnt[kind] = cnt.get(kind, 0) + 1
            m = res[i]
            if exp != "any" or m: rep.nontrivial += 1
            if i % 97 == 5: rep.sample({"kind": kind, "declaration": texts[i], "expected": exp, "messages": m[:1]})
            if crashes(m): bad.append((i, "the macro crashes: " + crashes(m)[0]))
            elif exp == "accept" and m: bad.append((i, "a well-formed declaration is rejected: " + m[0]))
            elif exp == "reject" and not m: bad.append((i, f"an ill-formed declaration ({kind}) is accepted"))
        n = 0
        for i, what in bad:
            r1 = b.verdicts({0: texts[i]}, "one").get(0)
            kind, exp, s, j = items[i]
            if not failing(exp, r1): continue
            sig = signature(kind, bool(crashes(r1)))
            if sig is None: n += 1
            if n > 3: break
            s2 = shrink(b, kind, exp, s, j, bool(crashes(r1)))
            rep.violation({"kind": "decl", "fault": kind, "expected": exp, "declaration": emit.declaration(s2), "failure": {"what": what}}, sig)
    finally:
        d.close()


def signature(kind, crash):
    return "i128-default-below-min" if kind == "default_below_i128" and not crash else None


def failing(exp, m): return bool(crashes(m)) or (exp == "accept" and bool(m)) or (exp == "reject" and not m)


def shrink(b, kind, exp, s, j, crash):
    """Drops arguments and decorations that are not the fault."""
    def cands(s):
        if s.get("enum") or "item_text" in s: return
        if s["ignored"] and kind not in ("duplicate_name", "ignored_no_default"): yield {**copy.deepcopy(s), "ignored": []}
        if "args_text" not in s:
            for k in ("order", "from_endian", "into_endian", "write_endian"):
                if s[k] is not None: yield {**copy.deepcopy(s), k: None}
            if s["sw"]: yield {**copy.deepcopy(s), "sw": {}}
            for k in s["sw"]: yield {**copy.deepcopy(s), "sw": {x: y for x, y in s["sw"].items() if x != k}}
        if kind in ("duplicate_name", "wrong_item"): return
        for k, f in enumerate(s["fields"]):
            if "attr_text" in f or "ty_text" in f or k == j: continue
            if f["default"] is not None or f["access"] is not None or f["vis"]:
                t = copy.deepcopy(s)
                t["fields"][k].update(default=None, access=None, vis="")
                yield t
            if k + 1 < len(s["fields"]) and k + 1 != j and "attr_text" not in s["fields"][k + 1] and not f["reserved"] and kind != "all_ignored":
                t = copy.deepcopy(s)
                w = f["bits"] + s["fields"][k + 1]["bits"]
                t["fields"][k].update(bits=w, attr_bits=True, ty=wide_type(w), default=None)
                del t["fields"][k + 1]
                yield t
    cur = s
    for _ in range(40):
        for c in cands(cur):
            if j is not None and len(c["fields"]) < len(cur["fields"]): continue  # the fault is addressed by position
            try: m = b.verdicts({0: emit.declaration(c)}, "sh")[0]
            except core.ToolError: continue
            if failing(exp, m) and bool(crashes(m)) == crash:
                cur = c
                break
        else: break
    return cur


def replay(build, body):
    d = core.Dir("replay")
    try:
        m = Batch(None, build, d).verdicts({0: body["declaration"]}, "r")[0]
        print(m or "accepted")
        return failing(body["expected"], m)
    finally:
        d.close()


def generate(r, n):
    items = [("default_below_i128", "reject", *default_below_i128(r))]
    for i in range(n):
        k = i % 8
        if k == 0:
            if r.random() < 0.2: items.append(("well-formed flag", "accept", small_flag(r), None))
            else: items.append(("well-formed", "accept", S.gen(r, 0, max_fields=9, sw_off=0.6, ignored=r.random() < 0.2), None))
        elif k == 7:
            x = soup(r)
            if x: items.append(("tokens", "any", x[0], x[1]))
        elif k == 6:
            s, name = flag_fault(r)
            items.append((name, "reject", s, None))
        else:
            f = r.choice(FAULTS)
            x = f(r)
            if x: items.append((f.__name__, "reject", x[0], x[1]))
    return items
