"""C15 and C16: which API exists, and from where it can be named."""
import copy
import random
from . import api, core, emit, families, rtprops
from . import schema as S
from .schema import *

VIS = ["", "", "pub", "pub(crate)", "pub(super)", "pub(in crate::o)", "pub(self)"]


def declare(r, i, prop):
    if prop in ("C15", "C22"):
        s = S.gen(r, i, sw_off=r.choice([0, 0.3, 0.9]), max_fields=9 if prop == "C15" else 3, ignored=prop == "C22" or r.random() < 0.2)
        s["vis"] = r.choice(["pub", "pub", "pub", "", "pub(crate)", "pub(super)", "pub(in crate::o)"])
        for f in s["fields"]: f["vis"] = r.choice(VIS)
        for g in s["ignored"]: g["vis"] = r.choice(VIS)
    else:
        s = S.gen(r, i, sw_off=r.choice([0.15, 0.5, 0.85]), max_fields=5, ignored=r.random() < 0.15)
        s["vis"] = r.choice(["pub", "pub(crate)", ""])
        if r.random() < 0.3:
            s["sw"]["bit_ops"] = r.random() < 0.5
            for g in GROUPS + ["toggle_bit_ops"]:
                if r.random() < 0.4: s["sw"][g] = r.random() < 0.5
                elif r.random() < 0.6: s["sw"].pop(g, None)
        keys = list(s["sw"])
        r.shuffle(keys)
        s["sw"] = {k: s["sw"][k] for k in keys}
    if s["name"].startswith("r#"): s["name"] = s["name"][2:]
    return s


def select(s, i, full_vis, only): return [p for p in api.probes(s, i, full_vis) if only is None or p[3] == only]


def check(rep, build, schemas, full_vis, only=None):
    d = core.Dir(rep.prop)
    try:
        pr = api.Prober(rep, build, d)
        units = {i: (s, select(s, i, full_vis, only)) for i, s in enumerate(schemas)}
        shards = [{i: units[i] for i in range(k, len(schemas), core.JOBS)} for k in range(core.JOBS)]
        bad = sum(core.pmap(lambda k: pr.run(shards[k], f"s{k}", full_vis) if shards[k] else [], range(core.JOBS)), [])
        g = rep.extra.setdefault("probes_by_group", {})
        for s, ps in units.values():
            rep.evaluations += len(ps)
            for p in ps:
                rep.nontrivial += 1
                key = f"{p[3]}:{'present' if p[2] else 'absent'}"
                g[key] = g.get(key, 0) + 1
        rep.extra["declarations"] = rep.extra.get("declarations", 0) + len(schemas)
        for i in (0, len(schemas) // 2):
            s, ps = units[i]
            rep.sample({"declaration": emit.declaration(s), "probes": [f"{p[1]}  // from location {p[0]}: {'must compile' if p[2] else 'must not compile'}" for p in ps[::max(1, len(ps) // 5)]]})
        seen = set()
        for i, k, msg in bad:
            s, ps = units[i]
            key = (i, k is None)
            if key in seen: continue
            seen.add(key)
            if len(seen) > 2: break
            report(rep, pr, s, ps, k, msg, full_vis, only)
    finally:
        d.close()


def report(rep, pr, s, ps, k, msg, full_vis, only):
    """Minimises the declaration while some probe of the same kind still misbehaves."""
    n = [0]
    want = None if k is None else (ps[k][2], ps[k][3])

    def test(u):
        n[0] += 1
        t = u["base"]
        q = select(t, 0, full_vis, only)
        for i, kk, m in pr.run({0: (t, q)}, f"x{n[0]}-{id(u)}", full_vis):
            if (kk is None) == (want is None) and (want is None or (q[kk][2], q[kk][3]) == want): return {"probe": None if kk is None else q[kk], "msg": m}
        return None
    first = test({"base": s})
    best = first
    base = s
    if first:
        base, b2 = rtprops.shrink_schema(s, lambda c: [c], test, 60)
        best = b2 or first
    rep.violation({"kind": "api", "full_vis": full_vis, "only": only, "schema": base, "declaration": emit.declaration(base),
                   "failure": best or {"probe": None if k is None else ps[k], "msg": msg}})


def replay(build, body):
    d = core.Dir("replay")
    try:
        pr = api.Prober(None, build, d)
        ps = select(body["schema"], 0, body["full_vis"], body.get("only"))
        bad = pr.run({0: (body["schema"], ps)}, "r", body["full_vis"])
        for i, k, m in bad: print(None if k is None else ps[k], m)
        return bool(bad)
    finally:
        d.close()
