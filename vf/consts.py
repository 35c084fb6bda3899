"""C20: generated histories evaluated in constants of a no_std crate against the same histories at run time."""
import copy
import re
import subprocess
from . import core, emit, rtprops
from . import schema as S
from .emit import base_ty, declaration, pfx, value_expr
from .schema import *

KINDS = [1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 38]
KNAMES = ["?", "CONST", "GET", "SET", "CSET", "NEW", "NEWWO", "DEFAULT", "BNEW", "BWITH", "BCWITH", "BBUILD", "FROM", "INTO", "FROMT", "INTOT", "FROMS", "INTOS", "WRITE", "WRITEDEF", "GETBIT",
          "CGETBIT", "SETBIT", "CSETBIT", "GETR", "CGETR", "SETR", "CSETR", "CLR", "CLRDEF", "CLRF", "CLRFD", "INV", "INVF", "FINV", "DBG", "SNAP", "RESTORE", "SETRAW", "SETIGN"]

HEADER = """#![no_std]
#![forbid(unsafe_code)]
#![deny(warnings)]
#![allow(long_running_const_eval)]
use bitfields::{bitfield, bitflag};
#[bitflag(u8)] #[derive(Debug, PartialEq)] pub enum F1 { #[base] V0 = 0, V1 = 1 }
#[bitflag(u8)] #[derive(Debug, PartialEq)] pub enum F2 { V0 = 0, #[base] V1 = 1, V2 = 2, V3 = 3 }
#[bitflag(u8)] #[derive(Debug, PartialEq, Default)] pub enum F3 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, #[default] V5 = 5, V6 = 6, V7 = 7 }
#[bitfield(u8, bit_ops = false)] pub struct N8 { #[bits(3)] a: u8, #[bits(5)] b: i8 }
#[bitfield(u16, bit_ops = false, order = msb)] pub struct N16 { #[bits(3)] a: u8, b: u8, #[bits(5)] c: i8 }
#[bitfield(u32, bit_ops = false)] pub struct N32 { a: u16, b: i8, #[bits(7)] c: u16, d: bool }
pub const fn first(x: u8) -> u8 { x }
pub const fn mx(mut h: u64, tag: u8, b: &[u8]) -> u64 { h = (h ^ tag as u64).wrapping_mul(0x100_0000_01B3); let mut i = 0; while i < b.len() { h = (h ^ b[i] as u64).wrapping_mul(0x100_0000_01B3); i += 1; } h }
"""
for _n, _t, _k in (("X8", "u8", "0xA6"), ("X16", "u16", "0x5A3C"), ("X32", "u32", "0x91E67D2B"), ("X64", "u64", "0x0F1E2D3C4B5A6978"), ("X128", "u128", "0xC3A5112233445566778899AABBCCDDEF")):
    HEADER += f"#[derive(Clone, Copy, PartialEq, Debug)] pub struct {_n}(pub {_t}); impl {_n} {{ pub const fn from_bits(b: {_t}) -> Self {{ Self(b ^ {_k}) }} pub const fn into_bits(self) -> {_t} {{ self.0 ^ {_k} }} }}\n"


def gen(r, i):
    s = S.gen(r, i, backing=["int", "int", "arr"], max_fields=8, sw_off=r.choice([0, 0, 0.5]), need=["new"], **({"sizes": r.choice([[1, 2, 3], [3, 4, 5, 7, 8, 9], [16, 17, 20, 33]])} if r.random() < 0.9 else {}))
    camel = s["name"].startswith("r#") or "_" in s["name"]
    if camel: s["name"] = f"S{i}"
    s["vis"] = r.choice(["pub", "pub", "pub(crate)", ""])
    s["ignored"] = []
    s["only"] = KINDS
    return s


def heap_gen(r, i):
    s = gen(r, i)
    s["kind"] = "heap"
    return s


def bytes_of(r, n):
    m = r.randrange(6)
    if m == 0: return bytes(n)
    if m == 1: return b"\xff" * n
    if m == 2:
        v = bytearray(n)
        if n: v[r.randrange(n)] = 1 << r.randrange(8)
        return bytes(v)
    return bytes(r.randrange(256) for _ in range(n))


def universe(r, s):
    """One of every call, with random arguments; calls on the builder form their own chunks."""
    ks, n, total = set(kinds(s)), s["nbytes"], s["nbytes"] * 8
    out, chunks = [], []

    def op(k, f=0, a=0, b=0, v=b""): return (k, f, a, b, v.hex())

    def val(f): return bytes_of(r, (ty_info(f["ty"])[1] + 7) // 8)

    def low(f): return (int.from_bytes(val(f), "little") & mask(f["bits"])).to_bytes((ty_info(f["ty"])[1] + 7) // 8, "little")

    def off(): return r.choice([0, total - 1, total, r.randrange(total), r.randrange(total), 0xFFFFFFFF])
    for j, f in enumerate(s["fields"]):
        a = access(f)
        if a in ("rw", "ro", "wo"): out.append(op(1, j))
        if a in ("rw", "ro"): out += [op(2, j), op(34, j)]
        if a in ("rw", "wo"): out += [op(3, j, v=val(f)), op(3, j, v=val(f)), op(4, j, v=val(f)), op(4, j, v=low(f)), op(30, j), op(33, j)] + ([op(31, j)] if f["default"] is not None else [])
    out += [op(5), op(6), op(13), op(13, a=1), op(13, a=2), op(19), op(28), op(29), op(32), op(38, v=bytes_of(r, n))]
    for a in range(3):
        for b in range(4):
            if b < 2: out += [op(12, a=a, b=b, v=bytes_of(r, n)), op(17, a=a, b=b, v=bytes_of(r, r.choice([0, 1, n - 1, n, n + 2]))), op(18, a=a, b=b, v=bytes_of(r, n))]
            out.append(op(16, a=a, b=b, v=bytes_of(r, r.choice([0, n - 1, n, n, n + 3]))))
    for k in (20, 21, 22, 23): out += [op(k, a=off(), b=r.randrange(2)) for _ in range(2)]
    for k in (24, 25, 26, 27):
        for _ in range(2):
            a = off()
            out.append(op(k, a=a, b=r.choice([1, 2, r.randint(1, total), max(1, total - min(a, total)), 0xFFFFFFFF]), v=bytes_of(r, n)))
    out = [o for o in out if o[0] in ks]
    r.shuffle(out)
    while out:
        chunks.append(out[:10])
        out = out[10:]
    if 8 in ks:
        named = [(j, f) for j, f in enumerate(s["fields"]) if access(f) in ("rw", "ro", "wo")]
        for _ in range(2):
            for k in range(0, max(1, len(named)), 4):
                c = [op(8, a=r.randrange(2))]
                for j, f in named[k:k + 4]: c.append(op(r.choice([9, 10]), j, v=low(f) if r.random() < 0.8 else val(f)))
                chunks.append([o for o in c + [op(11)] if o[0] in ks])
    return chunks


def step(s, o):
    """Const code of a call: updates t (and b), folds the result into h."""
    k, j, a, b, v = o[0], o[1], o[2], o[3], bytes.fromhex(o[4])
    n, T = s["name"], base_ty(s)
    arr = s["kind"] != "int"
    u = "bytes" if arr else "bits"
    f = s["fields"][j]
    ty, nm = f["ty"], f["name"]
    kl, tw = ty_info(ty)
    e = ["", "le_", "be_"][a] if k in (12, 13, 16, 17, 18) else ""
    x = value_expr(f, int.from_bytes(v[:(tw + 7) // 8], "little") & mask(tw))
    if arr: w = "[" + ",".join(str(q) for q in v[:s["nbytes"]].ljust(s["nbytes"], b"\0")) + "]"
    else: w = str(int.from_bytes(v[:s["nbytes"]], "little"))
    sl = "[" + ",".join(str(q) for q in v) + "]" if v else "[0u8; 0]"
    d = "_with_defaults" if b & 1 else ""
    unit = "h = mx(h, 0, &[]);"

    def enc(y):
        if kl == "b": return f"[{y} as u8]"
        if kl == "a": return y
        return f"{y}.into_bits().to_le_bytes()" if kl == "c" else f"{y}.to_le_bytes()"

    def encT(y): return y if arr else f"{y}.to_le_bytes()"

    def res(call, good="h = mx(h, 3, &[]);", pat="()"): return f"match {call} {{ Ok({pat}) => {{ {good} }} Err(_) => {{ h = mx(h, 4, &[]); }} }}"
    up = nm.removeprefix("r#").upper()
    if k == 1: return f"h = mx(mx(h, 5, &({n}::{up}_BITS as u32).to_le_bytes()), 5, &({n}::{up}_OFFSET as u32).to_le_bytes());"
    if k == 2: return f"h = mx(h, 2, &{enc(f't.{nm}()')});"
    if k == 34: return f"h = mx(h, 2, &{enc(f't.' + nm.removeprefix('r#') + '_inverted()')});"
    if k == 3: return f"t.{pfx('set', nm)}({x}); {unit}"
    if k == 4: return res(f"t.{pfx('checked_set', nm)}({x})")
    if k == 30: return f"t.{pfx('clear', nm)}(); {unit}"
    if k == 31: return f"t.{pfx('clear', nm)}_to_default(); {unit}"
    if k == 33: return f"t.{pfx('invert', nm)}(); {unit}"
    if k == 5: return f"t = {n}::new(); {unit}"
    if k == 6: return f"t = {n}::new_without_defaults(); {unit}"
    B = n + "Builder"
    if k == 8: return f"b = Some({B}::new{'_without_defaults' if a == 1 else ''}()); {unit}"
    if k == 9: return f"match b {{ Some(y) => {{ b = Some(y.{pfx('with', nm)}({x})); }} None => {{ b = None; }} }} {unit}"
    if k == 10:
        return f"match b {{ None => {{ b = None; {unit} }} Some(y) => match y.{pfx('checked_with', nm)}({x}) {{ Ok(z) => {{ b = Some(z); h = mx(h, 3, &[]); }} Err(_) => {{ b = None; h = mx(h, 4, &[]); }} }} }}"
    if k == 11: return f"match b {{ Some(y) => {{ t = y.build(); }} None => {{}} }} b = None; {unit}"
    if k == 12: return f"t = {n}::from_{e}{u}{d}({w}); {unit}"
    if k == 13: return f"{{ let mut y = {emit_new(s)}; y.0 = t.0; h = mx(h, 2, &{encT(f'y.into_{e}{u}()')}); }}"
    if k == 16:
        if b & 2: return res(f"{n}::checked_from_{e}slice{d}(&{sl})", "t = y; h = mx(h, 3, &[]);", "y")
        return f"t = {n}::from_{e}slice{d}(&{sl}); {unit}"
    if k == 17:
        if b & 1: return f"{{ let mut w = {sl}; match t.checked_into_{e}slice(&mut w) {{ Ok(()) => {{ h = mx(h, 3, &w); }} Err(_) => {{ h = mx(h, 4, &w); }} }} }}"
        return f"{{ let mut w = {sl}; t.into_{e}slice(&mut w); h = mx(h, 2, &w); }}"
    if k == 18: return f"t.write_{e}{u}{d}({w}); {unit}"
    if k == 19: return f"t.write_defaults(); {unit}"
    tf = "true" if b == 1 else "false"
    if k == 20: return f"h = mx(h, 1, &[t.get_bit({a}) as u8]);"
    if k == 21: return res(f"t.checked_get_bit({a})", "h = mx(h, 3, &[y as u8]);", "y")
    if k == 22: return f"t.set_bit({a}, {tf}); {unit}"
    if k == 23: return res(f"t.checked_set_bit({a}, {tf})")
    if k == 24: return f"h = mx(h, 2, &{encT(f't.get_{u}_range({a}, {b})')});"
    if k == 25: return res(f"t.checked_get_{u}_range({a}, {b})", f"h = mx(h, 3, &{encT('y')});", "y")
    if k == 26: return f"t.set_{u}_range({a}, {b}, {w}); {unit}"
    if k == 27: return res(f"t.checked_set_{u}_range({a}, {b}, {w})")
    if k == 28: return f"t.clear_{u}(); {unit}"
    if k == 29: return f"t.clear_{u}_with_defaults(); {unit}"
    if k == 32: return f"t.invert_{u}(); {unit}"
    if k == 38: return f"t.0 = {w}; {unit}"
    raise ValueError(k)


def emit_new(s): return f"{s['name']}({'[0; %d]' % s['nbytes'] if s['kind'] != 'int' else '0'})"


def history(s, init, ops, name):
    arr = s["kind"] != "int"
    w = "[" + ",".join(str(q) for q in init) + "]" if arr else str(int.from_bytes(init, "little"))
    B = f"Option<{s['name']}Builder>" if 8 in kinds(s) else "Option<()>"
    raw = "h = mx(h, 9, &t.0);" if arr else "h = mx(h, 9, &t.0.to_le_bytes());"
    body = "\n".join(f"{step(s, o)} {raw}" for o in ops)
    return f"#[allow(warnings)] const fn {name}() -> u64 {{ let mut h: u64 = 0xcbf2_9ce4_8422_2325; let mut t = {s['name']}({w}); let mut b: {B} = None;\n{body}\nh }}\n"


def op_text(o): return f"{KNAMES[o[0]]}:{o[1]}:{o[2]}:{o[3]}:{o[4]}"


class Checker:
    def __init__(self, rep, build, d, edition="2021"):
        self.rep, self.build, self.d, self.edition = rep, build, d, edition

    def run_time(self, units, tag):
        """{(unit, case): hashes after every call} from the ordinary driver. units: [(id, schema, cases)]"""
        rn = rtprops.Runner(self.rep, self.build, self.d, 0, 0, False)
        us = {i: {"schemas": [s]} for i, s, _ in units}
        b, ok, bad = rn.compile(us, [i for i, _, _ in units], tag)
        res = {}
        if b:
            p = self.d.file(tag + ".txt", "".join(f"{i * 8} {init.hex()} {';'.join(op_text(o) for o in ops)}\n" for i, _, cases in units if i in ok for init, ops in cases))
            lines, status, err = core.run_bin([b, "hashes", p])
            if "harness:" in err or status != "ok": raise core.ToolError(f"driver {status}: {err[-1500:]}")
            for l in lines: res.setdefault(l["id"] // 8, []).append(l["h"])
        return res, bad

    def source(self, units, hashes):
        text, spans, line = [HEADER], [], HEADER.count("\n") + 2
        for i, s, cases in units:
            T = base_ty(s)
            m = f"pub mod m{i} {{ #[allow(unused_imports)] use super::*;\n{declaration(s)}\n"
            m += f"#[allow(dead_code)] const SIZE: () = assert!(core::mem::size_of::<{s['name']}>() == core::mem::size_of::<{T}>() && core::mem::align_of::<{s['name']}>() == core::mem::align_of::<{T}>(), \"{i} - size\"); const _: () = SIZE;\n"
            for c, ((init, ops), h) in enumerate(zip(cases, hashes[i])):
                if h is None: continue
                m += history(s, init, ops, f"h{c}") + f"const _: () = assert!(h{c}() == {h[len(ops) - 1]}, \"{i} {c} value\");\n"
            m += "}\n"
            n = m.count("\n") + 1
            spans.append((line, line + n - 1, i))
            line += n
            text.append(m)
        return "\n".join(text), spans

    def compile_only(self, units, hashes, tag):
        """{id: (case or None, message)}"""
        bad, left = {}, list(units)
        while left:
            src, spans = self.source(left, hashes)
            p = self.d.file(tag + ".rs", src)
            f = self.build.flags()
            f[f.index("--edition") + 1] = self.edition
            c = core.rustc(self.build, p, self.d.file(tag + ".rmeta"), ["--crate-type", "rlib", "--emit=metadata", "--crate-name", "c"], lib_flags=f)
            if c.ok: break
            new = {}
            for e in c.errors:
                for l in e["lines"]:
                    for a, b, i in spans:
                        if a <= l <= b and i not in new:
                            q = re.search(r"\"?(\d+) (\d+|-) (value|size)", e["msg"])
                            new[i] = ((int(q.group(2)) if q and q.group(2) != "-" else None), ("constant and run-time results differ" if q.group(3) == "value" else "size or alignment differs from the backing type") if q else f"{e['code'] or 'error'}: {e['msg']}")
            if not new: raise core.ToolError("generated const crate does not compile: " + "; ".join(e["msg"] for e in c.errors[:3]) + " (" + p + ")")
            bad.update(new)
            left = [u for u in left if u[0] not in new]
        return bad

    def unsafe(self, units, tag):
        """Declarations whose expansion contains unsafe code ({id: text})."""
        src, _ = self.source([(i, s, []) for i, s, _ in units], {i: [] for i, _, _ in units})
        if any(s["kind"] == "heap" for _, s, _ in units): src = src.replace("#![no_std]\n", "")
        # Types that hold a Box are not as large as their data.
        src = re.sub(r"#\[allow\(dead_code\)\] const SIZE.*\n", "", src)
        p = self.d.file(tag + ".rs", src)
        f = [x for x in self.build.flags() if x != "--error-format=json"]
        f[f.index("--edition") + 1] = self.edition
        q = subprocess.run([core.rustc_path()] + f + ["--crate-type", "rlib", "-Zunpretty=expanded", p], capture_output=True, text=True, env=core.env(), timeout=600)
        if q.returncode != 0: return None
        out, cur = {}, None
        text = re.sub(r'"(?:\\.|[^"\\])*"|//[^\n]*|/\*.*?\*/', lambda m: "\n" * m.group(0).count("\n"), q.stdout, flags=re.S)
        for l in text.splitlines():
            m = re.match(r"\s*pub mod m(\d+) \{", l)
            if m: cur = int(m.group(1))
            if re.search(r"\bunsafe\b", l) and "TrivialClone" not in l and cur is not None: out.setdefault(cur, l.strip())
        return out

    def group(self, units, tag):
        """{id: (case or None, message)} over all oracles."""
        plain = [u for u in units if u[1]["kind"] != "heap"]
        bad = {}
        if plain:
            hashes, nc = self.run_time(plain, tag + "r")
            bad = {i: (None, m) for i, m in nc.items()}
            bad.update(self.compile_only([u for u in plain if u[0] not in bad], hashes, tag + "c"))
            self.hashes = hashes
        un = self.unsafe([u for u in units if u[0] not in bad], tag + "u")
        if un is None: raise core.ToolError("expansion failed")
        for i, l in un.items(): bad[i] = (None, "unsafe code in the expansion: " + l)
        return bad


def check(rep, build, bases, r, edition):
    d = core.Dir(rep.prop)
    try:
        units = [(i, s, [] if s["kind"] == "heap" else [(bytes_of(r, s["nbytes"]), c) for c in universe(r, s)]) for i, s in enumerate(bases)]
        parts = [units[k::core.JOBS] for k in range(core.JOBS)]
        bad = {}
        for x in core.pmap(lambda k: Checker(rep, build, d, edition).group(parts[k], f"s{k}") if parts[k] else {}, range(core.JOBS)): bad.update(x)
        for i, s, cases in units:
            rep.evaluations += max(1, len(cases))
            rep.nontrivial += len(cases) if i not in bad else 1
            rep.extra["calls_in_constants"] = rep.extra.get("calls_in_constants", 0) + sum(len(c) for _, c in cases)
            if i % 29 == 3 and cases: rep.sample({"declaration": declaration(s), "evaluated in a constant": ";".join(op_text(o) for o in cases[0][1])[:400]})
        rep.extra["declarations"] = rep.extra.get("declarations", 0) + len(units)
        ed = rep.extra.setdefault("editions", {})
        ed[edition] = ed.get(edition, 0) + len(units)
        for n, (i, (case, msg)) in enumerate(sorted(bad.items())):
            if n < 2: report(rep, build, d, units[i], case, msg, edition)
            elif n < 6: violate(rep, units[i][1], units[i][2] if case is None else [units[i][2][case]], msg, edition)
    finally: d.close()


def violate(rep, s, cases, msg, edition):
    rep.violation({"kind": "const", "schema": s, "edition": edition, "cases": [[i.hex(), [list(o) for o in ops]] for i, ops in cases], "declaration": declaration(s),
                   "failure": {"what": msg, "init": cases[0][0].hex() if len(cases) == 1 else "", "ops": ";".join(op_text(o) for o in cases[0][1]) if len(cases) == 1 else "all"}})


def report(rep, build, d, unit, case, msg, edition):
    _, s, cases = unit
    c = Checker(rep, build, d, edition)

    def fails(s, cases):
        try: x = c.group([(0, s, cases)], "x").get(0)
        except core.ToolError: return None
        return x[1] if x and (x[1].split(":")[0] == msg.split(":")[0]) else None
    if case is not None: cases = [cases[case]]
    else:
        # Which history brings it out?
        for x in cases + [None]:
            if fails(s, [x] if x else []):
                cases = [x] if x else []
                break
    if len(cases) == 1:
        init, ops = cases[0]
        k = len(ops) - 1
        while k >= 0:
            cand = ops[:k] + ops[k + 1:]
            if cand and fails(s, [(init, cand)]): ops = cand
            k -= 1
        if fails(s, [(bytes(len(init)), ops)]): init = bytes(len(init))
        cases = [(init, ops)]
    for j in range(len(s["fields"])):
        t = copy.deepcopy(s)
        if t["fields"][j]["default"] is None: continue
        t["fields"][j]["default"] = None
        if not any(o[0] == 31 and o[1] == j for _, ops in cases for o in ops) and fails(t, cases): s = t
    t = copy.deepcopy(s)
    t["sw"] = {}
    if t != s and fails(t, cases): s = t
    violate(rep, s, cases, msg, edition)


def replay(build, body):
    d = core.Dir("replay")
    try:
        rep = core.Report("C20", "quick", body["seed"])
        cases = [(bytes.fromhex(i), [tuple(o) for o in ops]) for i, ops in body["cases"]]
        bad = Checker(rep, build, d, body["edition"]).group([(0, body["schema"], cases)], "r")
        print(bad)
        return bool(bad)
    finally: d.close()
