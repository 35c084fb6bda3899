"""C17: cargo features set defaults, arguments override them."""
import concurrent.futures as cf
import random
from . import api, apiprops, core, emit, flags, rtprops
from . import schema as S
from .schema import *

# (feature, the default it sets): [documented default, the other]
PAIRS = [[("order_lsb", ("order", "lsb")), ("order_msb", ("order", "msb"))]]
for x in SWITCHES:
    on = "derive_copy" if x == "copy" else "generate_" + x
    PAIRS.append([(on, (x, True)), ("disable_" + x, (x, False))])
for x in ("from", "into", "write"): PAIRS.append([(f"{x}_endian_big", (f"{x}_endian", "big")), (f"{x}_endian_little", (f"{x}_endian", "little"))])
PAIRS.append([("disable_array_heap", ("array_heap", False)), ("enable_array_heap", ("array_heap", True))])
FLAG_PAIRS = [[(f"bitflag_{x}_endian_big", (f"{x}_endian", "big")), (f"bitflag_{x}_endian_little", (f"{x}_endian", "little"))] for x in ("from", "into")]
FLAG_PAIRS.append([("bitflag_derive_copy", ("copy", True)), ("bitflag_disable_copy", ("copy", False))])


def sets(r, n):
    """n feature sets in which every pair is absent, at its documented default and at the other value equally often; the first is empty."""
    cols = []
    for p in PAIRS + FLAG_PAIRS:
        c = [[0, 1, 1, 2][k % 4] for k in range(n - 1)]
        r.shuffle(c)
        cols.append(c)
    out = [([], {}, {})]
    for k in range(n - 1):
        fs, d, fd = [], {}, {}
        for j, p in enumerate(PAIRS + FLAG_PAIRS):
            if cols[j][k] == 2: name, (what, v) = p[0]
            elif cols[j][k] == 1: name, (what, v) = p[1]
            else: continue
            fs.append(name)
            (d if j < len(PAIRS) else fd)[what] = v
        r.shuffle(fs)
        out.append((fs, d, fd))
    return out


def all_changed():
    fs = [p[1] for p in PAIRS + FLAG_PAIRS]
    return [f for f, _ in fs], dict(p[1][1] for p in PAIRS), dict(p[1][1] for p in FLAG_PAIRS)


def declare(r, i, feat, explicit=0.35):
    s = S.gen(r, i, max_fields=5, ignored=r.random() < 0.1)
    s["vis"] = r.choice(["pub", "pub(crate)", ""])
    s["feat"] = dict(feat)
    s["sw"] = {x: r.random() < 0.5 for x in SWITCHES if r.random() < explicit}
    keys = list(s["sw"])
    r.shuffle(keys)
    s["sw"] = {k: s["sw"][k] for k in keys}
    for k in ("order", "from_endian", "into_endian", "write_endian"):
        s[k] = r.choice([["lsb", "msb"], ["big", "little"]][k != "order"]) if r.random() < explicit else None
    if r.random() >= explicit: s.pop("heap_arg", None)
    return settle(s)


def settle(s):
    """bit_ops = true together with a feature that disables one group is left open by the documentation: the group is then named too."""
    if s["sw"].get("bit_ops") is True:
        for g in GROUPS + ["toggle_bit_ops"]:
            if s["feat"].get(g) is False and g not in s["sw"]: s["sw"][g] = True
    if s["name"].startswith("r#"): s["name"] = s["name"][2:]
    return s


def enum(r, i, feat):
    e = flags.gen(r, i)
    e["feat"] = dict(feat)
    return e


def check(rep, seed, n_sets, n_probe, n_run, n_enum, histories, maxlen, deep, stop):
    r = random.Random(seed)
    chosen = sets(r, n_sets)
    rt = core.Build().rt
    with cf.ThreadPoolExecutor(1) as ex:
        builds = [ex.submit(core.FeatBuild, fs, rt) for fs, _, _ in chosen]
        for (fs, d, fd), fut in zip(chosen, builds):
            if rep.violations or stop():
                for b in builds: b.cancel()
                break
            rep.extra["feature_sets"] = rep.extra.get("feature_sets", 0) + 1
            rep.replay_extra = {"features": fs}
            build = fut.result()
            apiprops.check(rep, build, [declare(r, i, d) for i in range(n_probe)], False)
            if rep.violations: break
            rtprops.check(rep, build, [declare(r, i, d, 0.2) for i in range(n_run)], histories=histories, maxlen=maxlen, deep=deep)
            if rep.violations: break
            flags.check(rep, build, [enum(r, i, fd) for i in range(n_enum)], 300)
            if len(rep.samples) < 6: rep.sample({"features": fs})
    rep.replay_extra = {}


class Quiet:
    """Collects what a check finds without reporting it."""

    def __init__(self, rep):
        self.__dict__.update(prop=rep.prop, tier=rep.tier, seed=rep.seed, evaluations=0, nontrivial=0, samples=[], extra={}, violations=[])

    def sample(self, x): pass
    def violation(self, replay, signature=None): self.violations.append(replay)


def facade(rep):
    """The features as a user names them: on the public crate, default features off."""
    fs, d, fd = all_changed()
    rt = core.Build().rt
    try: build = core.FeatBuild(fs, rt, True)
    except core.ToolError as e:
        rep.violation({"kind": "facade", "features": fs, "failure": str(e)[-1500:]})
        return
    r = random.Random("facade")
    base = [declare(r, i, d, 0) for i in range(16)]
    for s in base: s["kind"] = "int" if s["kind"] == "int" else "heap"; s.pop("heap_arg", None)
    if not differs(rep, build, base): return
    plain = [dict(s, feat={}, kind="int" if s["kind"] == "int" else "arr") for s in base]
    # attr_args adds array_heap only where it differs from the default in force, so both readings have the same source.
    same = not differs(rep, build, plain)
    rep.violation({"kind": "facade", "features": fs, "failure": "declarations ignore every feature of the public crate" if same else "the features of the public crate have a wrong effect",
                   "declaration": emit.declaration(base[0])}, "facade-features-not-forwarded" if same else None)


def differs(rep, build, base):
    q = Quiet(rep)
    d = core.Dir(rep.prop + "q")
    try:
        pr = api.Prober(q, build, d, True)
        units = {i: (s, api.probes(s, i, False)) for i, s in enumerate(base)}
        parts = [{i: units[i] for i in range(k, len(base), core.JOBS)} for k in range(core.JOBS)]
        if any(core.pmap(lambda k: pr.run(parts[k], f"s{k}", False) if parts[k] else [], range(core.JOBS))): return True
        rn = rtprops.Runner(q, build, d, 30, 8, False)
        ids = [list(range(k, len(base), core.JOBS)) for k in range(core.JOBS)]
        us = [{"schemas": [s]} for s in base]
        return any("compile" in x or x.get("fail") for res in core.pmap(lambda k: rn.run(us, ids[k], rep.seed, f"r{k}"), range(core.JOBS)) for x in res.values())
    finally: d.close()
