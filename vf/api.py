"""The documented API of a declaration as compile probes: what must exist, what must not, and from where it may be named.

Locations: 0 the declaring module (and its children), 1 its parent, 2 the crate root and siblings, 3 another crate."""
import hashlib
import random
from . import core, emit
from . import schema as S
from .schema import *

E = "&'static str"


def vis_level(v):
    """The widest location an item with this visibility can be named from."""
    v = v.replace(" ", "")
    return {"": 0, "pub(self)": 0, "pub(super)": 1, "pub(incrate::o)": 1, "pub(crate)": 2, "pub": 3}[v]


def items(s):
    """[(group, on, name, exists, level, typed)]: `on` is 'S' or 'B', typed a fn-pointer type or None, group names the reason."""
    n = s["name"]
    bare = n.removeprefix("r#")
    T = emit.base_ty(s)
    arr = s["kind"] != "int"
    u = "bytes" if arr else "bits"
    lv = vis_level(s["vis"])
    eff = lambda x: effective(s, x)
    out = []

    def add(group, on, name, exists, level, typed=None): out.append((group, on, name, bool(exists), min(level, lv), typed))
    st, bt = "{S}", "{B}"
    for f in s["fields"]:
        a = access(f)
        nm = f["name"]
        p = nm.removeprefix("r#")
        up = p.upper()
        ty = f["ty"]
        fl = lv if f["vis"] == "" else vis_level(f["vis"])
        named, get, sett = a in ("rw", "ro", "wo"), a in ("rw", "ro"), a in ("rw", "wo")
        if p == "__": continue  # several padding fields may share this name
        add("field", "S", f"{up}_BITS", named, fl, "u32")
        add("field", "S", f"{up}_OFFSET", named, fl, "u32")
        add("field", "S", nm, get, fl, f"fn(&{st})->{ty}")
        add("field", "S", f"set_{p}", sett, fl, f"fn(&mut {st},{ty})")
        add("field", "S", f"checked_set_{p}", sett, fl, f"fn(&mut {st},{ty})->Result<(),{E}>")
        add("invert_bit_ops", "S", f"{p}_inverted", get and eff("invert_bit_ops"), fl, f"fn(&{st})->{ty}")
        add("invert_bit_ops", "S", f"invert_{p}", sett and eff("invert_bit_ops"), fl, f"fn(&mut {st})")
        add("clear_bit_ops", "S", f"clear_{p}", sett and eff("clear_bit_ops"), fl, f"fn(&mut {st})")
        add("clear_bit_ops", "S", f"clear_{p}_to_default", sett and f["default"] is not None and eff("clear_bit_ops"), fl, f"fn(&mut {st})")
        if eff("builder"):
            add("builder", "B", f"with_{p}", named, fl, f"fn({bt},{ty})->{bt}")
            add("builder", "B", f"checked_with_{p}", named, fl, f"fn({bt},{ty})->Result<{bt},{E}>")
            add("builder", "B", f"set_{p}", False, 3)
    for x in ("new", "new_without_defaults"): add("new", "S", x, eff("new"), lv, f"fn()->{st}")
    c = eff("from_into_bits")
    slf = f"&{st}" if arr else st
    for e in ("", "le_", "be_"):
        for w in ("", "_with_defaults"):
            add("from_into_bits", "S", f"from_{e}{u}{w}", c, lv, f"fn({T})->{st}")
            add("from_into_bits", "S", f"from_{e}slice{w}", c and arr, lv, f"fn(&[u8])->{st}")
            add("from_into_bits", "S", f"checked_from_{e}slice{w}", c and arr, lv, f"fn(&[u8])->Result<{st},{E}>")
            add("write_bit_ops", "S", f"write_{e}{u}{w}", eff("write_bit_ops"), lv, f"fn(&mut {st},{T})")
        add("from_into_bits", "S", f"into_{e}{u}", c, lv, f"fn({slf})->{T}")
        add("from_into_bits", "S", f"into_{e}slice", c and arr, lv, f"fn(&{st},&mut [u8])")
        add("from_into_bits", "S", f"checked_into_{e}slice", c and arr, lv, f"fn(&{st},&mut [u8])->Result<(),{E}>")
    add("write_bit_ops", "S", "write_defaults", eff("write_bit_ops"), lv, f"fn(&mut {st})")
    g = eff("set_get_bit_ops")
    add("set_get_bit_ops", "S", "get_bit", g, lv, f"fn(&{st},u32)->bool")
    add("set_get_bit_ops", "S", "checked_get_bit", g, lv, f"fn(&{st},u32)->Result<bool,{E}>")
    add("set_get_bit_ops", "S", "set_bit", g, lv, f"fn(&mut {st},u32,bool)")
    add("set_get_bit_ops", "S", "checked_set_bit", g, lv, f"fn(&mut {st},u32,bool)->Result<(),{E}>")
    add("set_get_bit_ops", "S", f"get_{u}_range", g, lv, f"fn(&{st},u32,u32)->{T}")
    add("set_get_bit_ops", "S", f"checked_get_{u}_range", g, lv, f"fn(&{st},u32,u32)->Result<{T},{E}>")
    add("set_get_bit_ops", "S", f"set_{u}_range", g, lv, f"fn(&mut {st},u32,u32,{T})")
    add("set_get_bit_ops", "S", f"checked_set_{u}_range", g, lv, f"fn(&mut {st},u32,u32,{T})->Result<(),{E}>")
    add("clear_bit_ops", "S", f"clear_{u}", eff("clear_bit_ops"), lv, f"fn(&mut {st})")
    add("clear_bit_ops", "S", f"clear_{u}_with_defaults", eff("clear_bit_ops"), lv, f"fn(&mut {st})")
    add("invert_bit_ops", "S", f"invert_{u}", eff("invert_bit_ops"), lv, f"fn(&mut {st})")
    if eff("builder"):
        for x in ("new", "new_without_defaults"): add("builder", "B", x, True, lv, f"fn()->{bt}")
        add("builder", "B", "build", True, lv, f"fn({bt})->{st}")
    return out


def traits(s):
    """[(group, statement, exists)] for trait implementations (any location that can name the type)."""
    T = emit.base_ty(s)
    e = lambda x: effective(s, x)
    heap = s["kind"] == "heap"
    out = [("default", "need_default::<{S}>()", e("default")), ("debug", "need_debug::<{S}>()", e("debug")),
           ("copy", "need_clone::<{S}>()", e("copy")), ("copy", "need_copy::<{S}>()", e("copy") and not heap),
           ("from_traits", f"need_from::<{T},{{S}}>()", e("from_traits")), ("from_traits", f"need_from::<{{S}},{T}>()", e("from_traits"))]
    if e("builder"): out.append(("builder", "need_default::<{B}>()", True))
    return out


def probes(s, i, full_vis):
    """[(location, statement, exists, group, phase)] phase: 'resolve' errors come before 'type' errors."""
    n = s["name"]
    b = n.removeprefix("r#") + "Builder"
    out = []
    lv = vis_level(s["vis"])
    locs = (0, 1, 2, 3) if full_vis else (min(lv, 2),)
    for loc in locs:
        pre = {0: "super::", 1: f"m{i}::", 2: f"crate::o::m{i}::", 3: f"lib0::o::m{i}::"}[loc]
        full = {"S": pre + n, "B": pre + b}
        x = loc <= lv
        out.append((loc, f"type Q = {full['S']};", x, "struct", "resolve"))
        if effective(s, "builder"): out.append((loc, f"type Q = {full['B']};", x, "builder", "resolve"))
        else: out.append((loc, f"type Q = {full['B']};", False, "builder", "resolve"))
        if not x: continue
        for group, on, name, exists, level, typed in items(s):
            ok = exists and loc <= level
            if not exists and loc != locs[0]: continue  # absent is absent: probed once, from inside
            path = f"{full[on]}::{name}"
            if ok and typed:
                t = typed.replace("{S}", full["S"]).replace("{B}", full["B"])
                for c in list(XOR) + list(FLAG) + list(NEST):
                    t = t if loc == 0 else _qual(t, c, loc)
                out.append((loc, f"let _: {t} = {path};", True, group, "type"))
            else: out.append((loc, f"let _ = {path};", ok, group, "type"))
        if loc == locs[0]:
            for group, stmt, exists in traits(s): out.append((loc, stmt.replace("{S}", full["S"]).replace("{B}", full["B"]) + ";", exists, group, "type"))
        for g in s["ignored"]:
            ok = loc <= vis_level(g["vis"])
            out.append((loc, f"fn g(x: &{full['S']}) {{ let _ = &x.{g['name']}; }}", ok, "ignored", "type"))
    return out


def _qual(t, c, loc):
    """Prelude types are re-exported at the crate root of the probed library and in each module by glob, so names resolve as they are."""
    return t


PRELUDE = """#![allow(warnings)]
pub use bitfields::{bitfield, bitflag};
pub use rt::*;
pub fn need_default<T: Default>() {} pub fn need_debug<T: core::fmt::Debug>() {} pub fn need_clone<T: Clone>() {} pub fn need_copy<T: Copy>() {}
pub fn need_from<A, B: From<A>>() {}
"""


def library(units, kind, header):
    """(source, {line: (unit, probe)}) for in-crate probes of the given kind: 'present', 'absent-resolve', 'absent-type'."""
    head = PRELUDE + header.split("use rt::*;\n", 1)[1]
    out = head.rstrip("\n").split("\n")
    where = {}
    later, root = [], []

    def put(line, key):
        out.append(line)
        if key is not None: where[len(out)] = key
    put("pub mod o { use super::*;", None)
    for i, (s, ps) in units.items():
        put(f"pub mod m{i} {{ use super::*;", None)
        for l in emit.declaration(s).split("\n"): put(l, (i, None))
        put("mod inner { use super::*; use crate::*;", None)
        for k, p in enumerate(ps):
            if p[0] == 0 and match(p, kind): put(wrap(p, k), (i, k))
        put("} }", None)
    put("mod probe { use super::*; use crate::*;", None)
    for i, (s, ps) in units.items():
        for k, p in enumerate(ps):
            if p[0] == 1 and match(p, kind): put(wrap(p, f"{i}_{k}").replace(f"m{i}::", f"super::m{i}::"), (i, k))
    put("} }", None)
    put("mod sibling { use crate::*;", None)
    for i, (s, ps) in units.items():
        for k, p in enumerate(ps):
            if p[0] == 2 and match(p, kind): put(wrap(p, f"{i}_{k}"), (i, k))
    put("}", None)
    return "\n".join(out) + "\n", where


def outside(units, kind, header=None):
    out = ["#![allow(warnings)]", "use lib0::*;"]
    where = {}
    for i, (s, ps) in units.items():
        for k, p in enumerate(ps):
            if p[0] == 3 and match(p, kind):
                out.append(wrap(p, f"{i}_{k}"))
                where[len(out)] = (i, k)
    return "\n".join(out) + "\n", where


def match(p, kind):
    if kind == "present": return p[2]
    return not p[2] and kind == "absent-" + p[4]


def wrap(p, k): return f"fn p{k}() {{ {p[1]} }}"


class Prober:
    def __init__(self, rep, build, d, first=False): self.rep, self.build, self.d, self.first = rep, build, d, first

    def run(self, units, tag, full_vis):
        """Returns [(unit, probe index or None, message)] of violated expectations."""
        bad = []
        meta = ["--crate-type", "lib", "--emit=metadata"]
        # 1. Everything that must exist, and the declarations themselves.
        src, where = library(units, "present", self.build.header)
        p = self.d.file(f"{tag}p.rs", src)
        lib = self.d.file(f"liblib0{tag}.rmeta")
        c = core.rustc(self.build, p, lib, meta + ["--crate-name", "lib0"])
        if not c.ok:
            hit = self.by_line(c, where)
            if not hit: raise core.ToolError(f"probe library does not compile: {c.errors[:3]} ({p})")
            for (i, k), m in hit.items(): bad.append((i, k, m))
            if any(k is None for _, k, _ in bad): return bad
        if full_vis and c.ok:
            src, where = outside(units, "present")
            p = self.d.file(f"{tag}q.rs", src)
            c = core.rustc(self.build, p, self.d.file(f"q{tag}.rmeta"), meta + ["--extern", "lib0=" + lib])
            if not c.ok:
                hit = self.by_line(c, where)
                if not hit: raise core.ToolError(f"outside probes do not compile: {c.errors[:3]} ({p})")
                for (i, k), m in hit.items(): bad.append((i, k, m))
        # 2. Everything that must not exist (or not be nameable): every probe line must be an error.
        for kind in ("absent-resolve", "absent-type", "absent-lint"):
            for f, ext in ((library, []), (outside, ["--extern", "lib0=" + lib])):
                if f is outside and (not full_vis or bad): continue
                src, where = f(units, kind, self.build.header)
                want = {ik for ik in where.values() if ik[1] is not None}
                if not want: continue
                p = self.d.file(f"{tag}{kind}.rs", src)
                c = core.rustc(self.build, p, self.d.file(f"{tag}a.rmeta"), meta + ext)
                hit = self.by_line(c, where)
                for ik in sorted(want - set(hit)):
                    if self.first and bad: return bad
                    # Confirm on its own: an earlier error may have hidden this one.
                    i, k = ik
                    src1, _ = f({i: (units[i][0], [q if j == k else (9,) + q[1:] for j, q in enumerate(units[i][1])])}, kind, self.build.header)
                    p1 = self.d.file(f"{tag}one.rs", src1)
                    if core.rustc(self.build, p1, self.d.file(f"{tag}1.rmeta"), meta + ext).ok: bad.append((i, k, "compiles, but must not exist here"))
        return bad

    def by_line(self, c, where):
        hit = {}
        for e in c.errors:
            for l in e["lines"]:
                if l in where: hit.setdefault(where[l], f"{e['code'] or 'error'}: {e['msg']}")
        return hit
