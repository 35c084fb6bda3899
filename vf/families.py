"""Stratified families of declarations for each property."""
import random
from . import schema as S
from .schema import *

NEED = {
    "C01": [], "C02": ["builder"], "C03": ["new", "default", "builder"], "C04": ["from_into_bits", "from_traits"],
    "C05": ["from_into_bits", "from_traits"], "C06": ["write_bit_ops"], "C07": ["set_get_bit_ops"], "C08": ["set_get_bit_ops"],
    "C09": ["clear_bit_ops"], "C10": ["invert_bit_ops"], "C18": ["debug"],
    "C11": ["copy", "write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops", "from_into_bits"],
    "C12": ["new", "default", "builder", "from_into_bits", "from_traits", "write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops"],
    "C21": ["new", "builder", "from_into_bits", "write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops", "debug"],
    "C22": ["new", "default", "builder", "from_into_bits", "from_traits", "write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops"],
    "C16": [],
    "C23": [],
}
WANT = {
    "C01": [["rw", "ro"], ["rw", "wo"]], "C02": [["rw", "wo"]], "C06": [["rw", "wo"]], "C09": [["rw", "wo"]], "C10": [["rw", "wo"]],
}
BACK = {"C04": ["int"], "C05": ["arr", "arr", "heap"]}
PROTECTED = [["ro", "na"], ["ro", "wo"]]


def opts(prop, r, heavy=None):
    o = {"need": NEED.get(prop, []), "want": WANT.get(prop, [])}
    if len(o["need"]) > 1 and r.random() < 0.3: o["need"] = sorted(r.sample(o["need"], r.randint(1, len(o["need"]) - 1)))
    if heavy is None: heavy = r.random() < 0.25
    o["sw_off"] = 0.2 if heavy else 0.93
    if prop == "C16": o["sw_off"] = r.choice([0.2, 0.5, 0.8])
    if prop in BACK: o["backing"] = BACK[prop]
    o["ignored"] = r.random() < 0.15
    o["ign_copy"] = prop == "C16"
    o["traitnames"] = prop not in ("C15", "C16", "C17")
    return o


def build(r, i, kind, nbytes, specs, o, order=None):
    """A declaration from explicit (ty, bits) specs; pads with filler fields to the total."""
    total = nbytes * 8
    used = sum(b for _, b in specs)
    specs = list(specs)
    left = total - used
    assert left >= 0
    while left > 0:
        w = left if left <= 5 else min(left, r.choice([1, 3, 5, 7, 11, 13, 31, 64, 100]))
        specs.append((S.pick_type(r, w, [], kind), w))
        left -= w
    r.shuffle(specs)
    s = S.gen(r, i, **{**o, "backing": [kind], "sizes": [nbytes], "style": "one"})
    mixes = [{"rw": 1}, {"rw": 5, "ro": 1, "wo": 1}, {"rw": 4, "ro": 1, "wo": 1, "na": 1, "rs": 1}]
    mix = r.choice(mixes) if o.get("access", True) else mixes[0]
    pdef = o.get("defaults", r.choice([0, 0.5, 1.0]))
    fields = []
    for j, (ty, w) in enumerate(specs):
        acc = r.choices(list(mix), weights=list(mix.values()))[0]
        nb = S.natural_bits(ty)
        f = {"name": f"_f{j}" if acc == "rs" else f"f{j}", "ty": ty, "bits": w, "attr_bits": not (nb == w and r.random() < 0.7),
             "reserved": acc == "rs", "access": None if acc in ("rs", "rw") else acc, "vis": "", "default": None}
        if r.random() < pdef: f["default"] = S.pick_default(r, f, kind == "int")
        fields.append(f)
    for need in o.get("want", []):
        if not any(S.access(f) in need for f in fields): fields[0].update(reserved=False, access=need[0], name="f0")
    s["fields"] = fields
    if order: s["order"] = order
    return s


def all_pairs(r, kinds, full):
    """Every (type, width); with `full` False the wide types are thinned to every third width plus the bounds."""
    out = []
    for t, w in list(UINT.items()) + list(SINT.items()):
        for b in range(1, w + 1):
            if full or w <= 32 or b <= 2 or b >= w - 2 or b in (31, 32, 33, 63, 64, 65) or r.random() < 0.34: out.append((t, b))
    out.append(("bool", 1))
    if "arr" in kinds:
        for n in (1, 2, 3, 4, 5, 8, 9, 12, 16, 17, 20):
            for b in range(1, min(8 * n, 128) + 1):
                if n <= 2 or b >= 8 * n - 9 or b % 8 == 0 or r.random() < (0.6 if full else 0.12): out.append((f"[u8;{n}]", b))
    if "custom" in kinds:
        for t, (w, _) in list(XOR.items()) + list(NEST.items()):
            for b in range(1, w + 1):
                if w <= 16 or b >= w - 1 or r.random() < (0.7 if full else 0.15): out.append((t, b))
        for t, w in FLAG.items(): out.append((t, w))
    return out


def fam_pairs(r, base, prop, kind, full=False, allow=("arr", "custom")):
    ps = all_pairs(r, allow, full)
    if kind == "int": ps = [p for p in ps if p[1] <= 128]
    r.shuffle(ps)
    out = []
    while ps:
        nb = r.choice([8, 16, 16, 16]) if kind == "int" else r.choice([16, 17, 23, 30, 40])
        room = nb * 8
        take = []
        k = 0
        while k < len(ps) and len(take) < 14:
            if ps[k][1] <= room:
                room -= ps[k][1]
                take.append(ps.pop(k))
            else: k += 1
        if not take:  # nothing fits this size (only wide ones left)
            nb = 16 if kind == "int" else 17
            take = [ps.pop()]
        o = opts(prop, r, heavy=False)
        if prop in ("C03", "C09"): o["defaults"] = 0.9
        out.append(build(r, base + len(out), kind, nb, take, o))
    return out


def fam_random(r, base, prop, n, **over):
    return [S.gen(r, base + k, **{**opts(prop, r), **over}) for k in range(n)]


def fam_bits(r, base, prop, kinds):
    """Many one-bit (and few-bit) fields."""
    out = []
    for kind in kinds:
        for nb in ((4, 8, 16) if kind == "int" else (4, 9)):
            o = opts(prop, r, heavy=False)
            out.append(S.gen(r, base + len(out), **{**o, "backing": [kind], "sizes": [nb], "style": "bits", "max_fields": 128}))
    return out


def fam_big(r, base, prop, n):
    """Large arrays with few, wide fields."""
    out = []
    for k in range(n):
        kind = r.choice(["arr", "heap"])
        nb = r.choice([33, 48, 100, 127, 128, 129, 200, 255, 256, 257, 300])
        o = opts(prop, r, heavy=False)
        out.append(S.gen(r, base + k, **{**o, "backing": [kind], "sizes": [nb], "style": "huge", "max_fields": 14}))
    return out


def fam_single(r, base, prop, kinds):
    """One field covering everything."""
    out = []
    for kind in kinds:
        for nb in (1, 2, 4, 8, 16) + (() if kind == "int" else (3, 17, 32)):
            out.append(S.gen(r, base + len(out), **{**opts(prop, r, heavy=False), "backing": [kind], "sizes": [nb], "style": "one"}))
    return out


def fam_edge(r, base, prop, kinds, n):
    """A protected or unreadable field between accessible ones, at every boundary kind."""
    out = []
    for k in range(n):
        kind = r.choice(kinds)
        nb = r.choice([1, 2, 2, 4, 8, 16]) if kind == "int" else r.choice([1, 2, 3, 5, 9, 17])
        o = {**opts(prop, r, heavy=False), "backing": [kind], "sizes": [nb], "style": r.choice(["tiny", "small", "mixed", "aligned"])}
        s = S.gen(r, base + k, **o)
        accs = r.choice([["rw", "ro"], ["rw", "wo"], ["rw", "na"], ["rw", "rs"], ["rw", "ro", "wo", "na", "rs"], ["ro", "wo"], ["na", "rw", "rw"]])
        for j, f in enumerate(s["fields"]):
            a = accs[j % len(accs)]
            f["reserved"] = a == "rs"
            f["name"] = (f"_q{j}" if a == "rs" else f"q{j}")
            f["access"] = None if a in ("rw", "rs") else a
        out.append(s)
    return out


def family(prop, tier, seed, round_=0):
    r = random.Random(f"{prop}/{seed}/{round_}")
    thorough = tier == "thorough"
    kinds = BACK.get(prop, ["int", "arr", "heap"])
    kset = sorted(set(kinds))
    out = []
    heavy_props = ("C11", "C21", "C22", "C16")
    if prop in heavy_props:
        n = 150
        ign = {"ignored": True} if prop == "C22" else {}
        out += fam_random(r, 0, prop, n, max_fields=14, **ign)
        if prop == "C11": out += fam_edge(r, len(out), prop, kset, 60)
        if prop == "C21": out += fam_big(r, len(out), prop, 6)
        return out
    n = {"C03": 260, "C18": 240}.get(prop, 220)
    out += fam_random(r, 0, prop, n, max_fields=24)
    if prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C09", "C10", "C18"):
        for k in kset:
            if k == "heap" and not thorough and prop != "C05":
                continue
            out += fam_pairs(r, len(out), prop, k, full=thorough or prop in ("C01", "C02"))
    out += fam_bits(r, len(out), prop, kset)
    out += fam_single(r, len(out), prop, kset)
    if "arr" in kset: out += fam_big(r, len(out), prop, 16)
    out += fam_edge(r, len(out), prop, kset, 80)
    return out
