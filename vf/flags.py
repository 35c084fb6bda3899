"""C13: bitflag enums. An enum is {'enum': True, name, vis, ty, variants: [{name, value, text, attrs}], base, default (indices or None),
from_endian, into_endian, copy (None|True|False), derives, doc, argorder}."""
import copy
import json
import random
from . import core

TYPES = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128}
NAMES = ["Off", "On", "Idle", "Run", "Err", "A", "B", "C2", "Low", "High", "r#Ok2", "Some", "None", "Ok", "Default", "Base", "Mid", "Zero", "Max", "Red", "Green", "Blue", "T", "Copy"]
CAMEL_BREAK = ["lower_case", "SHOUT_CASE", "e_f"]


def literal(r, v, ty):
    k = r.randrange(7)
    if k == 0: return f"{v:#x}"
    if k == 1: return f"{v:#b}"
    if k == 2: return f"{v:#o}"
    if k == 3: return f"{v}{ty}"
    if k == 4:
        h = f"{v:x}"
        return "0x" + "_".join(h[i:i + 2] for i in range(0, len(h), 2))
    if k == 5: return f"{v:#X}".replace("0X", "0x")
    return str(v)


def gen(r, i):
    ty = r.choice(["u8", "u8", "u16", "u16", "u32", "u64", "u128"])
    w = TYPES[ty]
    n = r.choice([1, 2, 3, 4, 5, 8, 13, 24])
    if ty == "u8" and r.random() < 0.06: n = r.choice([255, 256])
    style = r.choice(["dense", "onehot", "sparse", "top", "pal", "lowbytes"])
    vals = []
    tries = 0
    while len(vals) < min(n, 1 << w):
        tries += 1
        if n > 100: v = len(vals)
        elif style == "dense" or tries > 3 * n: v = len(vals) + (r.randrange(3) if tries <= 3 * n else tries)
        elif style == "onehot": v = 1 << r.randrange(w)
        elif style == "top": v = (1 << w) - 1 - r.randrange(300)
        elif style == "pal": v = int.from_bytes((lambda b: b + b[::-1])(r.randbytes(w // 16)) if w > 8 else r.randbytes(1), "big")
        elif style == "lowbytes": v = (r.randrange(1 << min(w, 16)) << r.choice([0, 0, max(0, w - 16)])) & ((1 << w) - 1)
        else: v = r.getrandbits(w)
        v &= (1 << w) - 1
        if v not in vals: vals.append(v)
    # A byte-swapped twin of a variant, so that confusing endianness lands on a real variant.
    if w > 8 and n > 2 and r.random() < 0.4:
        t = swap(vals[0], w)
        if t not in vals: vals[-1] = t
    r.shuffle(vals)
    names = [f"V{k}" for k in range(len(vals))]
    if len(vals) <= len(NAMES) and r.random() < 0.6: names = r.sample(NAMES, len(vals))
    variants = []
    for k, v in enumerate(vals):
        a = []
        if r.random() < 0.1: a.append("#[deprecated]")
        if r.random() < 0.1 and len(vals) < 50:
            names[k] = f"{r.choice(CAMEL_BREAK)}{k}"
            a.append("#[allow(non_camel_case_types)]")
        if r.random() < 0.1: a.append('#[doc = "a variant"]')
        variants.append({"name": names[k], "value": v, "text": literal(r, v, ty), "attrs": a, "const": r.random() < 0.08})
    base = r.randrange(len(vals)) if r.random() < 0.7 else None
    default = r.randrange(len(vals)) if base is None or r.random() < 0.4 else None
    if default is not None and r.random() < 0.15: base = default
    derives = [d for d in ("Debug", "PartialEq", "Hash") if r.random() < 0.4]
    cp = r.choice([None, None, True, False])
    if default is not None: derives.append("Default")
    if cp is False and r.random() < 0.3: derives.append("Clone")
    r.shuffle(derives)
    args = [("from_endian", r.choice([None, None, "little", "big"])), ("into_endian", r.choice([None, None, "little", "big"])), ("copy", cp)]
    r.shuffle(args)
    s = {"enum": True, "name": r.choice([f"E{i}", f"E{i}", "Flag", "r#Type"]), "vis": r.choice(["pub", "pub", "pub", "", "pub(crate)", "pub(super)", "pub(in crate::o)"]),
         "ty": ty, "variants": variants, "base": base, "default": default, "args": args, "derives": derives, "doc": r.random() < 0.2, "splitderive": r.random() < 0.3, "flip": r.random() < 0.5}
    return s


def arg(s, k):
    """An argument, else what a cargo feature sets for it."""
    v = dict(s["args"])[k]
    return v if v is not None else (s.get("feat") or {}).get(k)


def swap(v, w): return int.from_bytes(v.to_bytes(w // 8, "big"), "little")


def declaration(s):
    if "item_text" in s: return s["item_text"]
    if "ctx" in s:
        from . import contexts
        return contexts.render_flag(s)
    out = []
    for k, v in enumerate(s["variants"]):
        if v["const"]: out.append(f"const KV{k}: {s['ty']} = {v['text']};")
    a = ", ".join([s["ty"]] + [f"{k} = {str(x).lower() if isinstance(x, bool) else x}" for k, x in s["args"] if x is not None])
    out.append(f"#[bitflag({s.get('args_text', a)})]")
    if s["doc"]: out += ["/// An enum.", "#[deny(missing_docs)]"]
    out.append("#[deny(non_camel_case_types)]")
    if s["splitderive"]: out += [f"#[derive({d})]" for d in s["derives"]]
    elif s["derives"]: out.append(f"#[derive({', '.join(s['derives'])})]")
    out.append(f"{s['vis']} enum {s['name']} {{".strip())
    for k, v in enumerate(s["variants"]):
        at = list(v["attrs"])
        if s["doc"]: at.append("/** documented */")
        m = (["#[base]"] if s["base"] == k else []) + (["#[default]"] if s["default"] == k else [])
        at = m + at if s["flip"] else at + m
        out.append("    " + " ".join(at + [f"{v['name']} = {'KV%d' % k if v['const'] else v['text']},"]))
    out.append("}")
    return "\n".join(out)


RUNNER = """#![allow(warnings)]
use bitfields::bitflag;
use rt::r#gen::Rng;
pub struct E { pub id: u32, pub w: u32, pub fs: bool, pub is: bool, pub wild: usize, pub vals: &'static [u128], pub from: fn(u128) -> usize, pub into: fn(usize) -> u128, pub size: usize, pub def: Option<(usize, fn() -> usize)>,
    pub cf: &'static [(u128, usize)], pub ci: &'static [(usize, u128)] }
fn sw(v: u128, w: u32) -> u128 { v.swap_bytes() >> (128 - w) }
fn ex(e: &E, v: u128) -> usize { let b = if e.fs { sw(v, e.w) } else { v }; e.vals.iter().position(|x| *x == b).unwrap_or(e.wild) }
fn main() {
    let seed: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let rnd: usize = std::env::args().nth(2).unwrap().parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    for e in ALL {
        let m: u128 = if e.w == 128 { !0 } else { (1 << e.w) - 1 };
        let mut r = Rng(seed ^ (e.id as u64) << 20);
        let mut vs: Vec<u128> = Vec::new();
        let small = e.w <= 16;
        if small { vs.extend(0..1u128 << e.w); }
        else {
            for v in e.vals { for t in [*v, sw(*v, e.w)] {
                for d in [0u128, 1, m] { vs.push(t.wrapping_add(d) & m); }
                for b in 0..e.w { vs.push(t ^ (1u128 << b)); }
                for b in [8, 16, 32, 64] { if b < e.w { vs.push(t & ((1u128 << b) - 1)); vs.push(t & !((1u128 << b) - 1)); vs.push((t | (r.next() as u128) << b) & m); } }
            } }
            for x in [0, 1, m, m - 1, m >> 1, (m >> 1) + 1] { vs.push(x); }
            for _ in 0..rnd { let v = (r.next() as u128) << 64 | r.next() as u128; vs.push((v & m) >> (r.below(e.w as usize) as u32)); }
        }
        let (mut nt, mut fail) = (0u64, None);
        let cases = vs.len() as u64 + e.vals.len() as u64 * 2 + (e.cf.len() + e.ci.len()) as u64 + 2;
        vs.sort(); vs.dedup();
        let mut sample = String::new();
        for v in vs {
            let want = ex(e, v);
            if want != e.wild { nt += 1; }
            let got = std::panic::catch_unwind(|| (e.from)(v)).map(|x| x as i64).unwrap_or(-1);
            if sample.is_empty() && r.chance(2) { sample = format!("from_bits({v:#x}) -> variant {got}"); }
            if got != want as i64 && fail.is_none() { fail = Some(format!("from_bits({v:#x}): expected variant {want}, got variant {got}")); }
        }
        for (k, v) in e.vals.iter().enumerate() {
            let want = if e.is { sw(*v, e.w) } else { *v };
            let got = (e.into)(k);
            nt += 1;
            if got != want && fail.is_none() { fail = Some(format!("variant {k}: into_bits() expected {want:#x}, got {got:#x}")); }
            let b = if e.fs { sw(*v, e.w) } else { *v };
            if (e.from)(b) != k && fail.is_none() { fail = Some(format!("from_bits({b:#x}): expected variant {k}")); }
        }
        for (v, k) in e.cf { if *k != ex(e, *v) && fail.is_none() { fail = Some(format!("in a constant, from_bits({v:#x}): expected variant {}, got {k}", ex(e, *v))); } }
        for (k, v) in e.ci { let want = if e.is { sw(e.vals[*k], e.w) } else { e.vals[*k] }; if *v != want && fail.is_none() { fail = Some(format!("in a constant, variant {k}: into_bits() expected {want:#x}, got {v:#x}")); } }
        if let Some((k, f)) = e.def { if f() != k && fail.is_none() { fail = Some(format!("derived Default: expected variant {k}, got variant {}", f())); } }
        if e.size * 8 != e.w as usize && fail.is_none() { fail = Some(format!("size {} bytes, expected {}", e.size, e.w / 8)); }
        println!("{{\\"id\\":{},\\"cases\\":{cases},\\"nontrivial\\":{nt},\\"exhaustive\\":{small},\\"sample\\":\\"{sample}\\",\\"fail\\":{}}}", e.id, match fail { Some(f) => format!("\\"{f}\\""), None => "null".into() });
    }
}
"""


def module(s, i, r):
    """One module: the declaration and its table entry."""
    n, t, w = s["name"], s["ty"], TYPES[s["ty"]]
    vs = s["variants"]
    d = dict(s)
    d["vis"] = "pub" if s["vis"] else ""
    idx = " ".join(f"{n}::{v['name']} => {k}," for k, v in enumerate(vs))
    val = " ".join(f"{k} => {n}::{v['name']}," for k, v in enumerate(vs))
    picks = sorted({r.randrange(len(vs)) for _ in range(4)})
    cvals = sorted({vs[k]["value"] for k in picks} | {swap(vs[k]["value"], w) for k in picks} | {r.getrandbits(w) for _ in range(3)})
    cf = ", ".join(f"({v:#x}, idx({n}::from_bits({v:#x})))" for v in cvals)
    ci = ", ".join(f"({k}, {n}::{vs[k]['name']}.into_bits() as u128)" for k in picks)
    wild = s["base"] if s["base"] is not None else s["default"]
    return f"""pub mod m{i} {{ use super::*;
{declaration(d)}
const fn idx(e: {n}) -> usize {{ match e {{ {idx} }} }}
fn val(k: usize) -> {n} {{ match k {{ {val} _ => loop {{}} }} }}
fn from(v: u128) -> usize {{ idx({n}::from_bits(v as {t})) }}
fn into(k: usize) -> u128 {{ let x: {t} = val(k).into_bits(); x as u128 }}
pub const ENTRY: E = E {{ id: {i}, w: {w}, fs: {str(arg(s, 'from_endian') == 'little').lower()}, is: {str(arg(s, 'into_endian') == 'little').lower()}, wild: {wild},
vals: &[{', '.join(hex(v['value']) for v in vs)}], from, into, size: core::mem::size_of::<{n}>(), def: {'Some((%d, || idx(<%s as Default>::default())))' % (s['default'], n) if s['default'] is not None else 'None'},
cf: &[{cf}], ci: &[{ci}] }}; }}"""


def probes(s, i):
    """Compile probes in the form of api.probes."""
    from .api import vis_level
    n, t = s["name"], s["ty"]
    lv = vis_level(s["vis"])
    out = []
    der = set(s["derives"])
    cp = arg(s, "copy") is not False
    for loc in (0, 1, 2, 3):
        p = {0: "super::", 1: f"m{i}::", 2: f"crate::o::m{i}::", 3: f"lib0::o::m{i}::"}[loc] + n
        x = loc <= lv
        out.append((loc, f"type Q = {p};", x, "enum", "resolve"))
        if not x: continue
        out.append((loc, f"let _: fn({t})->{p} = {p}::from_bits;", True, "from_bits", "type"))
        out.append((loc, f"let _: fn({p})->{t} = {p}::into_bits;", True, "into_bits", "type"))
        out.append((loc, f"const Q: {t} = {p}::from_bits(1).into_bits();", True, "const", "type"))
        out.append((loc, f"let _ = {p}::{s['variants'][0]['name']};", True, "variant", "type"))
        if loc == 0:
            out.append((0, f"need_clone::<{p}>();", cp or "Clone" in der, "copy", "type"))
            out.append((0, f"need_copy::<{p}>();", cp, "copy", "type"))
            out.append((0, f"need_debug::<{p}>();", "Debug" in der, "attributes", "type"))
            out.append((0, f"need_default::<{p}>();", "Default" in der, "attributes", "type"))
            out.append((0, f"let _ = {p}::from_bits(0) == {p}::from_bits(0);", "PartialEq" in der, "attributes", "type"))
            for v in s["variants"]:
                dep = "#[deprecated]" in v["attrs"]
                out.append((0, f"#[deny(deprecated)] fn q() {{ let _ = {p}::{v['name']}; }}", not dep, "attributes", "lint"))
                if not dep and len(s["variants"]) > 5: break
    return out


def shrinks(s):
    def v(**kw):
        t = copy.deepcopy(s)
        t.update(kw)
        return t
    n = len(s["variants"])
    for chunk in (n // 2, n // 4, 1):
        if chunk < 1 or n - chunk < 1: continue
        for a in range(0, n, chunk):
            keep = [k for k in range(n) if not a <= k < a + chunk]
            if not keep or s["base"] is not None and s["base"] not in keep or s["default"] is not None and s["default"] not in keep: continue
            m = {k: j for j, k in enumerate(keep)}
            yield v(variants=[s["variants"][k] for k in keep], base=m.get(s["base"]), default=m.get(s["default"]))
    if s["base"] is not None and s["default"] is not None:
        yield v(default=None, derives=[d for d in s["derives"] if d != "Default"])
    for k, (a, x) in enumerate(s["args"]):
        if x is not None: yield v(args=[(b, None if b == a else y) for b, y in s["args"]])
    for d in s["derives"]:
        if d != "Default": yield v(derives=[e for e in s["derives"] if e != d])
    if s["doc"]: yield v(doc=False)
    if s["vis"]: yield v(vis="")
    for k, x in enumerate(s["variants"]):
        if x["attrs"] and "#[allow(non_camel_case_types)]" not in x["attrs"]:
            t = copy.deepcopy(s)
            t["variants"][k]["attrs"] = []
            yield t
        if x["const"]:
            t = copy.deepcopy(s)
            t["variants"][k]["const"] = False
            yield t
        if x["text"] != hex(x["value"]):
            t = copy.deepcopy(s)
            t["variants"][k]["text"] = hex(x["value"])
            yield t


def run(build, d, enums, ids, seed, rnd, tag):
    """{id: result}; a result has 'compile' or 'fail'."""
    res = {}
    ids = list(ids)
    while ids:
        out = RUNNER.rstrip("\n").split("\n")
        where = {}
        for i in ids:
            for l in module(enums[i], i, random.Random(f"{seed}/{i}")).split("\n"):
                out.append(l)
                where[len(out)] = i
        out.append("const ALL: &[E] = &[" + ", ".join(f"m{i}::ENTRY" for i in ids) + "];")
        p = d.file(f"{tag}.rs", "\n".join(out) + "\n")
        b = d.file(f"{tag}.bin")
        c = core.rustc(build, p, b, core.DEBUG)
        if c.ok: break
        bad = {}
        for e in c.errors:
            for l in e["lines"]:
                if l in where: bad.setdefault(where[l], e["msg"])
        if not bad: raise core.ToolError(f"bitflag harness does not compile: {c.errors[:2]}")
        for i, m in bad.items(): res[i] = {"id": i, "cases": 1, "nontrivial": 0, "exhaustive": False, "sample": "", "fail": "a well-formed bitflag does not compile: " + m}
        ids = [i for i in ids if i not in bad]
    if not ids: return res
    lines, status, err = core.run_bin([b, str(seed), str(rnd)])
    if status != "ok": raise core.ToolError(f"bitflag harness {status}: {err[-800:]}")
    for l in lines: res[l["id"]] = l
    return res


def shrink(s, test, budget=45):
    clock = core.Clock()
    cur, best, go = s, None, True
    while go and clock.s() < budget:
        go = False
        cands = list(shrinks(cur))
        for k in range(0, len(cands), core.JOBS):
            if clock.s() > budget: break
            rs = core.pmap(test, cands[k:k + core.JOBS])
            hit = next((j for j, x in enumerate(rs) if x), None)
            if hit is not None:
                cur, best, go = cands[k + hit], rs[hit], True
                break
    return cur, best


def check(rep, build, enums, rnd, probing=True):
    from . import api
    d = core.Dir(rep.prop)
    try:
        parts = [list(range(k, len(enums), core.JOBS)) for k in range(core.JOBS)]
        res = {}
        for x in core.pmap(lambda k: run(build, d, enums, parts[k], rep.seed, rnd, f"s{k}"), range(core.JOBS)): res.update(x)
        ex = rep.extra
        for i, x in sorted(res.items()):
            rep.evaluations += x["cases"]
            rep.nontrivial += x["nontrivial"]
            ex["declarations"] = ex.get("declarations", 0) + 1
            if x["exhaustive"]: ex["declarations_with_every_value_tried"] = ex.get("declarations_with_every_value_tried", 0) + 1
            if x["sample"] and i % 29 == 3: rep.sample({"declaration": declaration(enums[i]), "case": x["sample"]})
        n = [0]
        for i in [i for i in sorted(res) if res[i]["fail"]][:2]:
            def test(s):
                n[0] += 1
                try: return run(build, d, [s], [0], rep.seed, rnd, f"x{n[0]}-{id(s)}")[0]["fail"]
                except core.ToolError: return None
            s, why = shrink(enums[i], test)
            rep.violation({"kind": "flags", "schema": s, "declaration": declaration(s), "failure": why or res[i]["fail"]})
        if rep.violations or not probing: return
        units = {i: (s, probes(s, i)) for i, s in enumerate(enums)}
        pr = api.Prober(rep, build, d)
        shards = [{i: units[i] for i in p} for p in parts]
        bad = sum(core.pmap(lambda k: pr.run(shards[k], f"p{k}", True) if shards[k] else [], range(core.JOBS)), [])
        g = ex.setdefault("probes_by_group", {})
        for s, ps in units.values():
            rep.evaluations += len(ps)
            rep.nontrivial += len(ps)
            for p in ps: g[f"{p[3]}:{'present' if p[2] else 'absent'}"] = g.get(f"{p[3]}:{'present' if p[2] else 'absent'}", 0) + 1
        for i, k, m in bad[:2]:
            want = None if k is None else units[i][1][k][2:4]

            def ptest(s):
                n[0] += 1
                q = probes(s, 0)
                try: bb = pr.run({0: (s, q)}, f"y{n[0]}-{id(s)}", True)
                except core.ToolError: return None
                for _, kk, mm in bb:
                    if (kk is None) == (want is None) and (want is None or q[kk][2:4] == want): return {"probe": None if kk is None else q[kk], "msg": mm}
                return None
            s, why = shrink(enums[i], ptest)
            rep.violation({"kind": "flagapi", "schema": s, "declaration": declaration(s), "failure": why or {"probe": None if k is None else units[i][1][k], "msg": m}})
    finally:
        d.close()


def replay(build, body):
    from . import api
    d = core.Dir("replay")
    try:
        s = body["schema"]
        if body["kind"] == "flags":
            x = run(build, d, [s], [0], body["seed"], 2000, "r")[0]
            print(x)
            return bool(x["fail"])
        bad = api.Prober(None, build, d).run({0: (s, probes(s, 0))}, "r", True)
        print(bad)
        return bool(bad)
    finally:
        d.close()
