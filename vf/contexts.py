"""The same declaration in other syntactic contexts (C23): fragments of macro_rules macros, function bodies, modules whose items shadow
core names, other editions, attribute paths, documentation and lint attributes, formatting."""
import copy
import random
import re
from . import core, emit, families
from . import schema as S

HEADER = "pub const fn cid<T: Copy>(x: T) -> T { x }\n"

# Items a user's module may define; none may change what the generated code means.
HOSTILE = {
    "mods": ["mod core {}", "mod std {}", "mod alloc {}", "mod fmt {}", "mod mem {}", "mod bitfields {}", "mod convert {}", "mod result {}", "mod boxed {}", "mod ops {}", "mod default {}", "mod marker {}", "mod cmp {}", "mod primitive {}"],
    "traits": ["trait Default {}", "trait Clone {}", "trait Copy {}", "trait From {}", "trait Into {}", "trait Debug {}", "trait AsRef {}", "trait Iterator {}", "trait Drop {}", "trait PartialEq {}", "trait Sized {}"],
    "types": ["struct Result;", "struct Option;", "struct Box;", "struct String;", "struct Vec;", "type Formatter = ();", "struct Error;", "enum Ordering {}", "struct Self_;"],
    "values": ["fn Ok() {}", "fn Err() {}", "fn Some() {}", "const None: () = ();", "fn drop() {}", "fn from() {}", "const BITS: i8 = -1;", "const MAX: i8 = -1;", "static MASK: i8 = -1;", "fn min() {}"],
    "macros": ["macro_rules! assert { () => { compile_error!() }; }", "macro_rules! panic { () => { compile_error!() }; }", "macro_rules! write { () => { compile_error!() }; }", "macro_rules! debug_assert { () => { compile_error!() }; }",
               "macro_rules! unreachable { () => { compile_error!() }; }", "macro_rules! format { () => { compile_error!() }; }", "macro_rules! matches { () => { compile_error!() }; }"],
}
DOCS = ["/// A documented thing.", "#[doc = \"Documented.\"]", "/** Documented\n over two lines. */", "#[allow(dead_code)]", "#[allow(unused, clippy::all)]", "#[doc(hidden)]", "#[cfg(all())]", "#[cfg_attr(any(), repr(C))]"]
STRUCT_ONLY = ["#[non_exhaustive]", "#[must_use]", "#[derive(PartialEq)]", "#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]", "#[derive(core::cmp::PartialEq)]"]
FOLLOW = {"ty": ["ty", "tt"], "path": ["path", "tt"], "expr": ["expr", "tt"], "literal": ["literal", "expr", "tt"], "ident": ["ident", "tt"], "tt": ["tt"], "vis": ["vis"]}


class Frags:
    """Replaces pieces of a declaration by macro parameters."""

    def __init__(self, r, p):
        self.r, self.p, self.params = r, p, []

    def __call__(self, text, *kinds):
        if self.r.random() >= self.p or not kinds: return text
        k = self.r.choice(kinds)
        for n, (kk, t) in enumerate(self.params):  # the same argument used twice
            if kk == k and t == text and self.r.random() < 0.5: return f"$p{n}"
        self.params.append((k, text))
        return f"$p{len(self.params) - 1}"


def width_text(r, w):
    return r.choice([str(w)] * 4 + [f"{w:#x}", f"{w:#b}", f"{w:#o}", "_".join(str(w)), f"{w:03}"])


def is_ident(t): return re.fullmatch(r"(r#)?[A-Za-z_][A-Za-z0-9_]*", t) is not None
def is_path(t): return re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*(::[A-Za-z_][A-Za-z0-9_]*)*", t) is not None


PRIMS = {"bool"} | {f"{k}{w}" for k in "ui" for w in (8, 16, 32, 64, 128)}


def type_text(fr, r, text):
    if text in PRIMS and r.random() < 0.15:
        text = f"::core::primitive::{text}"
        return r.choice([text, fr(text, "ty"), fr(text, "path")])
    m = re.fullmatch(r"\[u8; ?(\d+)\]", text)
    if m:
        if r.random() < 0.4: return f"[{fr('::core::primitive::u8', 'ty', 'path') if r.random() < 0.3 else fr('u8', 'ty', 'ident', 'path', 'tt')}; {fr(m.group(1), 'literal', 'expr', 'tt')}]"
        n = m.group(1)
        return fr(r.choice([text, f"[u8;{n}]", f"[ u8 ; {n} ]", f"[u8; {int(n):#x}]", f"[u8; {n}usize]", f"[u8; {int(n):#b}]"]), "ty", "tt")
    if is_ident(text): return fr(text, "ty", "ident", "path", "tt")
    if is_path(text): return fr(text, "ty", "path")
    return fr(text, "ty")


def default(fr, r, s, j, macro):
    """(expression, extra items)"""
    f = s["fields"][j]
    text, extra = emit.default_text(s, j)
    kl, tw = S.ty_info(f["ty"])
    plain = emit.value_expr(f)
    raw = f["default"]["raw"]
    v = emit.signed(raw, tw) if kl == "i" else raw
    x = r.random()
    if macro and x < 0.2 and kl in "ui" and v >= 0:
        c = r.randint(1, 40) if tw > 8 else r.randint(1, 3)
        e = fr(f"{c} - {c}", "expr")
        if e.startswith("$"): return f"{v} - {e}", ""
        return text, extra
    if macro and x < 0.3 and kl in "ui" and v % 2 == 0 and v >= 2:
        e = fr(f"1 + {v // 2 - 1}", "expr")
        if e.startswith("$"): return f"{e} * 2", ""
        return text, extra
    if macro and x < 0.36 and kl == "i" and -(1 << tw - 1) < v < 0:
        e = fr(f"1 + {-v - 1}", "expr")
        if e.startswith("$"): return f"-{e}", ""
        return text, extra
    if macro and x < 0.5 and not (kl == "a" and s["kind"] == "int"): return f"$crate::cid::<{f['ty']}>({fr(plain, 'expr')})", ""
    if re.fullmatch(r"-?(0[xbo][0-9a-fA-F_]+|[0-9_]+)([ui]\d+)?|true|false", text): return fr(text, "literal", "expr", *(["tt"] if text[0] != "-" else [])), extra
    if text.startswith("*b") or not extra and "{" in text: return fr(text, "expr"), extra
    if is_ident(text): return fr(text, "ident", "path", "expr", "tt"), extra
    if is_path(text): return fr(text, "path", "expr"), extra
    return fr(text, "expr"), extra


def attrs(r, p, more=()):
    return [r.choice(DOCS + list(more)) for _ in range(r.choice([1, 1, 2])) if r.random() < p]


def render(s):
    """The declaration of `s` as it appears in the context drawn from s['ctx']."""
    t = copy.deepcopy(s)
    r = random.Random(s["ctx"])
    mode = r.choice(["none", "params", "params", "params", "nested", "item", "tts", "meta", "meta"])
    place = r.choice(["mod", "mod", "mod", "fn", "generic", "closure", "method", "hostile", "hostile", "hostile", "noprelude"])
    if place == "noprelude" and any(re.search("Option|String|Vec", g["ty"]) for g in s["ignored"]): place = "mod"
    macro = mode in ("params", "nested", "meta")
    fr = Frags(r, r.choice([0.15, 0.4, 0.8, 1.0]) if mode in ("params", "nested") else 0)
    deco = r.choice([0, 0.2, 0.6])
    # attribute
    path, pre = "bitfield", []
    x = r.random()
    if x < 0.12 and place not in ("hostile", "noprelude"): path = "bitfields::bitfield"
    elif x < 0.24: path = "::bitfields::bitfield"
    elif x < 0.34: path, pre = "bf_alias", ["use ::bitfields::bitfield as bf_alias;"]
    args = [type_text(fr, r, emit.base_ty(s))]
    rest = []
    for k in ("order", "from_endian", "into_endian", "write_endian"):
        if s[k] is not None: rest.append(f"{fr(k, 'ident', 'tt')} = {fr(s[k], 'ident', 'path', 'expr', 'tt')}")
    for k, v in s["sw"].items(): rest.append(f"{fr(k, 'ident', 'tt')} = {fr(str(v).lower(), 'literal', 'expr', 'tt')}")
    if s.get("heap_arg") is not None: rest.append(f"array_heap = {fr(str(s['heap_arg']).lower(), 'literal', 'expr', 'tt')}")
    elif s["kind"] == "heap": rest.append(f"{fr('array_heap', 'ident')} = {fr('true', 'literal', 'expr', 'tt')}")
    r.shuffle(rest)
    sep = r.choice([", ", ",", " , ", ",\n    ", ", /* c */ "])
    o, c = r.choice(["()"] * 6 + ["[]", "{}"])
    head = f"#[{path}{o}{sep.join(args + rest)}{r.choice(['', '', ','])}{c}]"
    # fields
    extra, body = [], []
    ign = sorted(s["ignored"], key=lambda g: g["pos"])
    for j, f in enumerate(s["fields"] + [None]):
        for g in ign:
            if g["pos"] == j or (f is None and g["pos"] > j):
                body.append((attrs(r, deco) + [f"#[bits(ignore = {fr('true', 'literal', 'expr', 'tt')})]"], vis_text(fr, r, g["vis"], mode), fr(g["name"], "ident", "tt"), g["ty"]))
        if f is None: break
        a = []
        if f["default"] is not None:
            d, x = default(fr, r, s, j, macro)
            if x: extra.append(x)
            a.append(f"{fr('default', 'ident')} = {d}")
        if f["access"] is not None: a.append(f"{fr('access', 'ident')} = {fr(f['access'], 'ident', 'path', 'expr', 'tt')}")
        r.shuffle(a)
        if f["attr_bits"]: a.insert(0, fr(width_text(r, f["bits"]), "literal", "expr", "tt"))
        o, c = r.choice(["()"] * 6 + ["[]", "{}"])
        at = attrs(r, deco)
        if a: at.insert(r.randint(0, len(at)), f"#[bits{o}{sep.join(a)}{r.choice(['', '', ','])}{c}]")
        body.append((at, vis_text(fr, r, f["vis"], mode), fr(f["name"], "ident", "tt"), type_text(fr, r, f["ty"])))
    own = [] if s["ignored"] else [x for x in STRUCT_ONLY if place not in ("hostile", "noprelude") or "derive" not in x]
    sat = []
    for a in attrs(r, deco, own):
        if not any("derive" in a and "derive" in b or a == b for b in sat): sat.append(a)
    svis = vis_text(fr, r, s["vis"], mode)
    if place in ("hostile", "noprelude") and not s["ignored"] and r.random() < 0.3:
        t["name"] = r.choice(NAMES)
        extra = [x.replace(f"impl {s['name']} {{", f"impl {t['name']} {{") for x in extra]
    name = fr(t["name"], "ident", "tt")
    lines = [" ".join(a + [v, f"{n}: {ty}"]).strip() if r.random() < 0.5 or "///" not in " ".join(a) else "\n".join(a + [f"{v} {n}: {ty}"]) for a, v, n, ty in
             [(["\n" + x + "\n" if x.startswith("///") else x for x in a], v, n, ty) for a, v, n, ty in body]]
    fields = ",\n    ".join(lines) + r.choice([",", "", ","])
    sa = "\n".join(sat)
    item = f"{sa}\n{svis} struct {name} {{\n    {fields}\n}}"
    text = wrap(r, mode, head, item, fr, "struct", "$(#[$a:meta])* $w:vis $f:ident : $t:ty", "$(#[$a])* $w $f: $t")
    t["item_text"] = "\n".join(pre + extra + [text])
    t["place"] = place
    if place == "hostile": t["hostile"] = hostile(r, [t["name"].removeprefix("r#")] + [w for w in ("Option", "String", "Vec") if any(w in g["ty"] for g in s["ignored"])])
    return t


NAMES = ["Result", "Option", "Box", "Default", "Formatter", "String", "Clone", "From", "Error", "Vec", "Debug", "Copy", "Iterator", "Ok", "Err", "Some"]


def hostile(r, taken):
    out = [x for g, p in zip(HOSTILE, [r.choice([0, 0.3, 1]) for _ in HOSTILE]) for x in HOSTILE[g] if r.random() < p]
    return [x for x in out if not any(re.search(rf"(mod|trait|struct|type|enum|fn|const|static) {w}\b", x) for w in taken)]


def render_flag(s):
    """A bitflag in the context drawn from s['ctx']."""
    r = random.Random(s["ctx"])
    mode = r.choice(["none", "params", "params", "params", "nested", "item", "tts", "meta", "meta"])
    place = r.choice(["mod", "mod", "hostile", "hostile"])
    fr = Frags(r, r.choice([0.15, 0.4, 0.8, 1.0]) if mode in ("params", "nested") else 0)
    crate = mode in ("params", "nested")
    extra, body = [], []
    path = r.choice(["bitflag", "bitflag", "::bitfields::bitflag"])
    a = [f"{fr(k, 'ident', 'tt')} = {fr(str(x).lower() if isinstance(x, bool) else x, *(('literal', 'expr', 'tt') if isinstance(x, bool) else ('ident', 'path', 'expr', 'tt')))}" for k, x in s["args"] if x is not None]
    head = f"#[{path}({', '.join([fr(s['ty'], 'ty', 'ident', 'path', 'tt')] + a)}{r.choice(['', ','])})]"
    for k, v in enumerate(s["variants"]):
        val = v["text"]
        if v["const"]:
            extra.append(f"{'pub ' if place == 'mod' else ''}const KV{k}: {s['ty']} = {v['text']};")
            val = fr(f"KV{k}", "ident", "path", "expr", "tt")
        else: val = fr(val, "literal", "expr", "tt")
        at = list(v["attrs"])
        m = (["#[base]"] if s["base"] == k else []) + (["#[default]"] if s["default"] == k else [])
        at = m + at if s["flip"] else at + m
        body.append(" ".join(at + [f"{fr(v['name'], 'ident', 'tt')} = {val}"]))
    sat = [f"#[derive({', '.join(s['derives'])})]"] if s["derives"] else []
    if r.random() < 0.3: sat.append("/// Documented.")
    vis = "pub" if place == "hostile" else s["vis"]
    item = "\n".join(sat) + f"\n{vis_text(fr, r, vis, mode)} enum {fr(s['name'], 'ident', 'tt')} {{\n    " + ",\n    ".join(body) + r.choice([",", ""]) + "\n}"
    text = wrap(r, mode, head, item, fr, "enum", "$(#[$a:meta])* $f:ident = $t:expr", "$(#[$a])* $f = $t")
    text = "\n".join(extra + [text])
    if place == "hostile":
        taken = [s["name"].removeprefix("r#")]
        text = "mod h { use super::*;\n" + "\n".join(hostile(r, taken)) + f"\n{text} }}\nuse self::h::{s['name']};"
    return text


def wrap(r, mode, head, item, fr, kw, pat, out):
    """The attribute `head` and the item, through the macro of the given mode."""
    mac = f"decl_{r.randrange(1 << 30)}"
    delim = r.choice([("(", ");"), ("{", "}"), ("[", "];")])
    if mode == "none": return f"{head}\n{item}"
    if mode == "item":
        if r.random() < 0.5: return f"macro_rules! {mac} {{ ($i:item) => {{ {head} $i }}; }}\n{mac}! {{ {item} }}"
        return f"macro_rules! {mac} {{ ($i:item) => {{ $i }}; }}\n{mac}! {{ {head}\n{item} }}"
    if mode == "tts": return f"macro_rules! {mac} {{ ($($t:tt)*) => {{ $($t)* }}; }}\n{mac}! {{ {head}\n{item} }}"
    if mode == "meta":
        inner = f"{head}\n{item}".replace("$crate", "crate")
        m, m2 = "#[$m:meta]", "#[$m]"
        if r.random() < 0.5: m, m2, pat, out = "#[$($m:tt)*]", "#[$($m)*]", pat.replace("#[$a:meta]", "#[$($a:tt)*]"), out.replace("#[$a]", "#[$($a)*]")
        return (f"macro_rules! {mac} {{ ($({m})* $v:vis {kw} $n:ident {{ $({pat}),* $(,)? }}) => {{ $({m2})* $v {kw} $n {{ $({out}),* }} }}; }}\n{mac}! {{ {inner} }}")
    pat = "".join(f"$p{n}:{k}, " for n, (k, _) in enumerate(fr.params)) + "@"
    text = f"macro_rules! {mac} {{ ({pat}) => {{ {head}\n{item} }}; }}"
    arg = "".join(x + ", " for _, x in fr.params) + "@"
    if mode == "nested":
        pat1 = "".join(f"$p{n}:{r.choice(FOLLOW[k])}, " for n, (k, _) in enumerate(fr.params)) + "@"
        fwd = "".join(f"$p{n}, " for n in range(len(fr.params))) + "@"
        text = f"macro_rules! {mac} {{ ({pat1}) => {{ {head}\n{item} }}; }}\nmacro_rules! {mac}o {{ ({pat}) => {{ {mac}!({fwd}); }}; }}"
        mac += "o"
    return text + f"\n{mac}! {delim[0]}{arg}{delim[1]}"


VIS = {"pub(crate)": ["pub(crate)"] * 3 + ["pub(in crate)", "pub(in $crate)", "pub(in $crate)"], "pub(super)": ["pub(super)", "pub(in super)"], "pub(self)": ["pub(self)", "pub(in self)"]}


def vis_text(fr, r, v, mode):
    """A visibility in one of its notations; `$crate` only where a macro's own text is."""
    x = r.choice(VIS.get(v, [v]))
    if "$crate" not in x: return fr(x, "vis")
    return x if mode in ("params", "nested") else "pub(in crate)"


def module(s, i, ops):
    """As emit.module, in the place drawn for `s`."""
    place = s["place"]
    d, g = s["item_text"], emit.glue(s if place not in ("hostile", "noprelude") else {**s, "name": "Subject"}, ops)
    if place in ("mod",): return f"mod m{i} {{ use super::*;\n{d}\n{g}}}\n"
    if place in ("hostile", "noprelude"):
        n = s["name"]
        b = ", " + n.removeprefix("r#") + "Builder as SubjectBuilder" if 8 in set(S.kinds(s)) and (ops is None or 8 in ops) else ""
        top = "#[no_implicit_prelude] " if place == "noprelude" else ""
        return (f"{top}mod m{i} {{ use super::*;\npub use self::g::mk;\nmod g {{ use crate::*; use super::{{{n} as Subject{b}}};\n" +
                ("use ::std::prelude::v1::*; use ::std::{vec, format, unreachable};\n" if place == "noprelude" else "") +
                f"{g}}}\n" + "\n".join(s.get("hostile", [])) + f"\n{d}\n}}\n")
    if place == "fn": return f"mod m{i} {{ use super::*;\npub fn mk() -> Box<dyn Subj> {{\n{d}\n{g}\nmk() }}\n}}\n"
    if place == "generic": return f"mod m{i} {{ use super::*;\nfn poly<T: Default>(_: T) -> Box<dyn Subj> {{\n{d}\n{g}\nmk() }}\npub fn mk() -> Box<dyn Subj> {{ poly(3u8) }} }}\n"
    if place == "closure": return f"mod m{i} {{ use super::*;\npub fn mk() -> Box<dyn Subj> {{ let bits = 1u8; let f = || {{\n{d}\n{g}\nmk() }}; f() }} }}\n"
    if place == "method": return f"mod m{i} {{ use super::*;\nstruct Z; impl Z {{ const BITS: u8 = 1; fn new() -> Box<dyn Subj> {{\n{d}\n{g}\nmk() }} }}\npub fn mk() -> Box<dyn Subj> {{ Z::new() }} }}\n"
    raise ValueError(place)


def gen(r, i):
    o = families.opts("C23", r, heavy=r.random() < 0.3)
    s = S.gen(r, i, **{**o, "max_fields": 10})
    s["ctx"] = r.getrandbits(40)
    return s


def gen_flag(r, i):
    from . import flags
    while True:
        s = flags.gen(r, i)
        if len(s["variants"]) < 30: break
    if s["vis"].startswith("pub("): s["vis"] = "pub"
    s["ctx"] = r.getrandbits(40)
    return s


def locals_probe(build):
    """The first error of default values that call a function named like a local variable of the generated code, None if there is none."""
    d = core.Dir("locals")
    try:
        text = emit.HEADER + HEADER
        for k, n in enumerate(["this", "bits", "mask", "value", "slice"]):
            for j, (ty, rest) in enumerate([("u32", "u16"), ("[u8; 4]", "u16")]):
                text += (f"mod l{k}{j} {{ use super::*; const fn {n}(x: u8) -> u8 {{ x }} #[bitfield({ty})] pub struct L {{ "
                         f"#[bits(8, default = {n}(3))] a: u8, #[bits(8, default = {n}(4), access = ro)] b: u8, c: {rest} }} }}\n")
        c = core.rustc(build, d.file("p.rs", text + "fn main() {}\n"), d.file("p.out"), ["--crate-name", "p", "--emit=metadata"])
        return None if c.ok else c.errors[0]["msg"]
    finally: d.close()
