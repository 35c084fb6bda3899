"""Properties decided by running generated declarations against the reference model (or against twins)."""
import copy
import json
import os
import random
import time
from . import core, emit, families
from . import schema as S
from .schema import *

RULE = ("Declarations are drawn from stratified families (random layouts, every type x width pair, one-bit fields, single fields, large arrays, "
        "mixed access); per declaration the property's own argument space is swept over boundary states/values and random histories are added. "
        "A case (initial bits + calls) is non-trivial if some call changed the bits, returned an error, or returned a non-zero value; "
        "distinct = distinct (declaration, initial bits, calls).")


def cost(s): return 3 + len(s["fields"]) * (0.5 + len(kinds(s)) / 14)


def shard_split(units, n):
    order = sorted(range(len(units)), key=lambda i: -sum(cost(s) for s in units[i]["schemas"]))
    bins = [[0, []] for _ in range(n)]
    for i in order:
        b = min(bins, key=lambda x: x[0])
        b[0] += sum(cost(s) for s in units[i]["schemas"])
        b[1].append(i)
    return [sorted(b[1]) for b in bins if b[1]]


class Runner:
    """Compiles and runs units; a unit is {'schemas': [...]} whose members form one twin group."""

    def __init__(self, rep, build, d, histories, maxlen, deep, group=1, extra=core.DEBUG, ops=None, mode="search"):
        self.rep, self.build, self.d = rep, build, d
        self.histories, self.maxlen, self.deep, self.group, self.extra, self.ops = histories, maxlen, deep, group, list(extra), ops
        self.n = 0

    def source(self, units, ids):
        spans, line = [], self.build.header.count("\n") + 2
        text = [self.build.header]
        ents = []
        for i in ids:
            for g, s in enumerate(units[i]["schemas"]):
                eid = i * 8 + g
                m = emit.module(s, eid, self.ops)
                n = m.count("\n") + 1
                spans.append((line, line + n - 1, i))
                line += n
                text.append(m)
                ents.append(f"Entry{{id:{eid},schema:{emit.rust_str(S.schema_text(s))},mk:m{eid}::mk}}")
        text.append("fn main(){rt::run::main(&[" + ",\n".join(ents) + "])}\n")
        return "\n".join(text), spans

    def compile(self, units, ids, tag):
        """Returns (binary, remaining ids, {bad id: first error})"""
        bad = {}
        ids = list(ids)
        while True:
            src, spans = self.source(units, ids)
            p = self.d.file(f"{tag}.rs", src)
            out = self.d.file(f"{tag}.bin")
            c = core.rustc(self.build, p, out, self.extra)
            if c.ok: return out, ids, bad
            new = {}
            for e in c.errors:
                for l in e["lines"]:
                    for a, b, i in spans:
                        if a <= l <= b and i in ids: new.setdefault(i, f"{e['code'] or 'error'}: {e['msg']}")
            if not new:
                raise core.ToolError("generated harness does not compile: " + "; ".join(e["msg"] for e in c.errors[:3]) + " (" + p + ")")
            bad.update(new)
            ids = [i for i in ids if i not in new]
            if not ids: return None, [], bad

    def search_args(self, seed):
        return ["search", self.rep.prop, str(seed), str(self.histories), str(self.maxlen), "1" if self.deep else "0", str(self.group)]

    def run(self, units, ids, seed, tag):
        """{unit id: result json or {'fail':…}}"""
        b, ok, bad = self.compile(units, ids, tag)
        res = {i: {"compile": m} for i, m in bad.items()}
        todo = ok
        while b and todo:
            lines, status, err = core.run_bin([b] + self.search_args(seed))
            begun = None
            for l in lines:
                if "begin" in l: begun = l["begin"] // 8
                elif "id" in l: res[l["id"] // 8] = l
            if status == "ok": break
            if "harness:" in err: raise core.ToolError(err[-1500:])
            if begun is None: raise core.ToolError(f"shard {status}: {err[-1500:]}")
            if begun in res: raise core.ToolError(f"shard {status} outside a declaration: {err[-1500:]}")
            res[begun] = {"id": begun * 8, "cases": 1, "ops": 0, "nontrivial": 0, "kinds": {}, "sample": "", "trace": "",
                          "fail": {"init": "", "ops": "", "step": 0, "what": "process " + status, "expected": "every call returns", "got": status}}
            todo = [i for i in todo if i not in res]
            b, todo, bad = self.compile(units, todo, tag)
            res.update({i: {"compile": m} for i, m in bad.items()})
        return res


# ----------------------------------------------------------------- shrinking

def simple_field(f, bits, int_backed):
    g = dict(f)
    g["bits"] = bits
    g["attr_bits"] = True
    g["ty"] = next((t for t, w in UINT.items() if w >= bits), f"[u8;{(bits + 7) // 8}]")
    g["default"] = None
    for k in ("ty_text", "child", "path"): g.pop(k, None)
    return g


def shrink_candidates(s):
    ib = s["kind"] == "int"

    def v(**kw):
        t = copy.deepcopy(s)
        t.update(kw)
        return t
    if s["ignored"]:
        yield v(ignored=[])
        for j in range(len(s["ignored"])): yield v(ignored=[g for k, g in enumerate(s["ignored"]) if k != j])
    if len(s["fields"]) > 1:
        for j in range(len(s["fields"]) - 1):
            a, b = s["fields"][j], s["fields"][j + 1]
            for keep in (a, b):
                if access(a) == access(b) or True:
                    t = copy.deepcopy(s)
                    t["fields"][j:j + 2] = [simple_field(keep, a["bits"] + b["bits"], ib)]
                    yield t
    if ib and s["nbytes"] > 1:  # drop half of the bits: shorten from the end
        pass
    for k in ("from_endian", "into_endian", "write_endian", "order"):
        if s[k] is not None: yield v(**{k: None})
    if s["vis"]: yield v(vis="")
    for j, f in enumerate(s["fields"]):
        if f["default"] is not None:
            t = copy.deepcopy(s)
            t["fields"][j]["default"] = None
            yield t
        if f["access"] is not None or f["reserved"]:
            t = copy.deepcopy(s)
            t["fields"][j].update(access=None, reserved=False, name=f"f{j}")
            yield t
        st = simple_field(f, f["bits"], ib)
        if st["ty"] != f["ty"] and f["default"] is None:
            t = copy.deepcopy(s)
            t["fields"][j] = st
            yield t
    if not ib:
        # shorter arrays: cut a field by whole bytes
        for j, f in enumerate(s["fields"]):
            if f["bits"] > 8 and s["nbytes"] > 1 and f["default"] is None:
                for cut in (max(1, f["bits"] // 16), 1):
                    if cut < s["nbytes"] and f["bits"] > 8 * cut:
                        t = copy.deepcopy(s)
                        t["nbytes"] -= cut
                        t["fields"][j]["bits"] -= 8 * cut
                        t["fields"][j]["attr_bits"] = True
                        yield t
    for j, f in enumerate(s["fields"]):
        if "child" in f:
            for c in shrink_candidates(f["child"]):
                t = copy.deepcopy(s)
                t["fields"][j]["child"] = c
                yield t
    if s["sw"]:
        yield v(sw={k: x for k, x in s["sw"].items() if not x})


def shrink_schema(base, expand, test, budget_s=30):
    """test(unit) -> failure or None; greedy, parallel first-success."""
    t0 = time.time()
    cur = base
    best = None
    progress = True
    while progress and time.time() - t0 < budget_s:
        progress = False
        cands = list(shrink_candidates(cur))
        for k in range(0, len(cands), core.JOBS):
            if time.time() - t0 > budget_s: break
            chunk = cands[k:k + core.JOBS]
            rs = core.pmap(lambda c: safe_test(test, expand, c), chunk)
            hit = next((j for j, x in enumerate(rs) if x), None)
            if hit is not None:
                cur, best = chunk[hit], rs[hit]
                progress = True
                break
    return cur, best


def safe_test(test, expand, c):
    try: return test({"base": c, "schemas": expand(c)})
    except Exception: return None


def replay_dict(unit, group, fail, extra_note=""):
    src = []
    for s in unit["schemas"]: src.append(emit.declaration(s))
    return {"kind": "rt", "schemas": unit["schemas"], "group": group, "failure": fail, "declaration": "\n\n".join(src), "note": extra_note}


def check(rep, build, bases, expand=lambda s: [s], group=1, histories=60, maxlen=14, deep=False, ops=None, extra=core.DEBUG, shards=core.JOBS, max_report=2):
    """Searches all bases, reports shrunken violations. Returns {index: result}."""
    d = core.Dir(rep.prop)
    try:
        rn = Runner(rep, build, d, histories, maxlen, deep, group, extra, ops)
        units = [{"base": s, "schemas": expand(s)} for s in bases]
        parts = shard_split(units, shards)
        t = time.time()
        results = {}
        for res in core.pmap(lambda k: rn.run(units, parts[k], rep.seed, f"s{k}"), range(len(parts))): results.update(res)
        kinds_total, fails = {}, []
        for i in sorted(results):
            r = results[i]
            if "compile" in r: fails.append((i, r)); rep.evaluations += 1; continue
            rep.evaluations += r["cases"]
            rep.nontrivial += r["nontrivial"]
            for k, v in r["kinds"].items(): kinds_total[k] = kinds_total.get(k, 0) + v
            if r["sample"] and i % 37 == 5: rep.sample({"declaration": emit.declaration(units[i]["schemas"][0]), "case (initial bits/calls)": r["sample"][:400]})
            if r["fail"]: fails.append((i, r))
        if not rep.samples:
            for i in sorted(results):
                if results[i].get("sample"):
                    rep.sample({"declaration": emit.declaration(units[i]["schemas"][0]), "case (initial bits/calls)": results[i]["sample"][:400]})
                    break
        ex = rep.extra
        ex["declarations"] = ex.get("declarations", 0) + len(units)
        c = ex.setdefault("calls_by_kind", {})
        for k, v in kinds_total.items(): c[k] = c.get(k, 0) + v
        b = ex.setdefault("declarations_by_backing", {})
        for u in units: b[u["base"]["kind"]] = b.get(u["base"]["kind"], 0) + 1
        for i, r in fails[:max_report]: report_failure(rep, build, d, units[i], r, expand, group, histories, maxlen, deep, ops, extra)
        for i, r in fails[max_report:8]:
            rep.violation(replay_dict(units[i], group, r.get("fail") or {"what": "compile", "got": r["compile"]}))
        return results
    finally:
        d.close()


def report_failure(rep, build, d, unit, r, expand, group, histories, maxlen, deep, ops, extra):
    rn = Runner(rep, build, d, histories, maxlen, deep, group, extra, ops)
    cnt = [0]

    def test(u):
        cnt[0] += 1
        tag = f"x{cnt[0]}-{id(u)}"
        x = rn.run([u], [0], rep.seed, tag).get(0)
        for sfx in (".rs", ".bin"):
            try: os.unlink(d.file(tag + sfx))
            except OSError: pass
        if not x: return None
        if "compile" in r: return x if "compile" in x else None
        return x if x.get("fail") else None
    # Confirm on its own, then minimise the declaration.
    alone = test(unit)
    if alone is None:
        rep.violation(replay_dict(unit, group, r.get("fail") or {"what": "compile", "got": r["compile"]}, "seen in a shard only"))
        return
    base, best = shrink_schema(unit["base"], expand, test)
    best = best or alone
    u = {"base": base, "schemas": expand(base)}
    f = {"what": "a well-formed declaration does not compile", "got": best["compile"]} if "compile" in best else best["fail"]
    rep.violation(replay_dict(u, group, f))


def replay(build, body):
    """Re-runs a replay file; True if the failure is still there."""
    rep = core.Report(body["property"], "quick", body["seed"])
    d = core.Dir("replay")
    try:
        rn = Runner(rep, build, d, 60, 14, False, body["group"], core.DEBUG)
        units = [{"base": body["schemas"][0], "schemas": body["schemas"]}]
        b, ok, bad = rn.compile(units, [0], "r")
        if bad:
            print("does not compile:", bad[0])
            return True
        f = body["failure"]
        if not f.get("ops"): return any(x.get("fail") for x in rn.run(units, [0], body["seed"], "r").values())
        lines, status, err = core.run_bin([b, "replay", body["property"], "0", f["init"], f["ops"], str(body["group"])], stall=60)
        print(lines, status)
        return status != "ok"
    finally:
        d.close()


def build_difference(rep, build, s, builds, **kw):
    """Finds and minimises a case on which two builds of one declaration differ."""
    d = core.Dir(rep.prop + "x")
    try:
        bins, tables = [], []
        for k, extra in enumerate(builds):
            rn = Runner(rep, build, d, kw["histories"], kw["maxlen"], kw["deep"], 1, extra)
            b, ok, bad = rn.compile([{"schemas": [s]}], [0], f"b{k}")
            bins.append(b)
            a = rn.search_args(rep.seed)
            tables.append([l for l in core.run_bin([b, "traces"] + a[1:] + ["0"])[0] if "trace" in l])
        case = next(((x["init"], x["ops"]) for x, y in zip(*tables) if x["trace"] != y["trace"]), None)

        def differs(init, ops):
            return len({json.dumps(core.run_bin([b, "replay", rep.prop, "0", init, ops])[0]) for b in bins}) > 1
        if case is None:
            rep.violation({"kind": "builds", "schema": s, "declaration": emit.declaration(s), "failure": {"what": "builds differ over the whole run"}})
            return
        init, ops = case[0], case[1].split(";")
        k = len(ops) - 1
        while k >= 0:
            cand = ops[:k] + ops[k + 1:]
            if cand and differs(init, ";".join(cand)): ops = cand
            k -= 1
        rep.violation({"kind": "builds", "schema": s, "declaration": emit.declaration(s),
                       "failure": {"what": "overflow-checked and optimised builds differ", "init": init, "ops": ";".join(ops)}})
    finally:
        d.close()


def replay_builds(build, body):
    rep = core.Report(body["property"], "quick", body["seed"])
    d = core.Dir("replay")
    try:
        outs = []
        for k, extra in enumerate((core.DEBUG, core.RELEASE)):
            rn = Runner(rep, build, d, 60, 14, False, 1, extra)
            b, ok, bad = rn.compile([{"schemas": [body["schema"]]}], [0], f"b{k}")
            f = body["failure"]
            outs.append(core.run_bin([b, "replay", body["property"], "0", f["init"], f["ops"]] if "ops" in f else [b] + rn.search_args(body["seed"]))[0])
        print(outs)
        return outs[0] != outs[1]
    finally:
        d.close()
