"""Random bitfield declarations (stratified), independent of how the macros are written.

A schema is a JSON-able dict:
  name, vis, kind ('int'|'arr'|'heap'), nbytes, order (None|'lsb'|'msb'),
  from_endian/into_endian/write_endian (None|'big'|'little'),
  sw: {switch: bool} explicitly given switches,
  fields: [{name, ty, bits, attr_bits, access (None|'rw'|'ro'|'wo'|'na'), reserved, vis,
            default: None|{form, raw}}],
  ignored: [{pos, name, ty, vis}]
  heap_arg: optional, array_heap is given explicitly (with no effect on integers)
  feat: optional, defaults set by cargo features {switch: bool, order/..endian: str, array_heap: bool}
"""
import random

UINT = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128}
SINT = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}
XOR = {"X8": (8, "u8"), "X16": (16, "u16"), "X32": (32, "u32"), "X64": (64, "u64"), "X128": (128, "u128")}
FLAG = {"F1": 1, "F2": 2, "F3": 3}
NEST = {"N8": (8, "u8"), "N16": (16, "u16"), "N32": (32, "u32")}
# Types whose conversions lose information or use unusual integers: (width of the conversion integer, what into(from(x)) does).
LOSSY = {"E8": (8, "even"), "SAT8": (8, "sat"), "Q16": (16, "low10"), "SI8": (8, "id"), "SI16": (16, "id"), "SI32": (32, "id"), "SI64": (64, "id"), "SI128": (128, "id"), "US": (64, "id"), "IS": (64, "id"),
         "BL": (1, "id"), "CH": (8, "id"), "Gn8": (8, "id"), "Gn32": (8, "id"),
         "G8": (8, "flag/2/1/5/2/7"), "G8d": (8, "flag/0/0/1/2"), "G16": (16, "flag/300/300/1/2/65535"), "G16l": (16, "flagl/258/258/1/4660/255"), "G32": (32, "flag/4/4/8/16/4294967295"), "G64": (64, "flag/9223372036854775808/9223372036854775808/1/3"), "G128": (128, "flag/1/1/2/340282366920938463463374607431768211455")}
TY_TEXT = {"Gn8": "Gen<u8>", "Gn32": "Gen<u32>"}
SWITCHES = ["new", "from_into_bits", "from_traits", "default", "debug", "copy", "builder", "bit_ops",
            "write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops", "toggle_bit_ops"]
GROUPS = ["write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops"]


def ty_info(ty):
    """(kind letter, type width)"""
    if ty in UINT: return "u", UINT[ty]
    if ty in SINT: return "i", SINT[ty]
    if ty == "bool": return "b", 1
    if ty.startswith("["): return "a", 8 * arr_len(ty)
    if ty in XOR: return "c", XOR[ty][0]
    if ty in FLAG: return "c", FLAG[ty]
    if ty in NEST: return "c", NEST[ty][0]
    if ty in LOSSY: return "c", LOSSY[ty][0]
    raise ValueError(ty)


def arr_len(ty):
    return int(ty.split(";")[1].rstrip("]"))


def effective(s, name):
    """Value of a switch under the documented rules: argument, else feature (s["feat"], default: everything on)."""
    sw, d = s["sw"], s.get("feat") or {}
    if name in GROUPS or name == "toggle_bit_ops":
        if name in sw: return sw[name]
        return sw.get("bit_ops", d.get("bit_ops", True)) and d.get(name, True)
    return sw.get(name, d.get(name, True))


def setting(s, name):
    """order / from_endian / into_endian / write_endian."""
    return s[name] or (s.get("feat") or {}).get(name) or ("lsb" if name == "order" else "big")


def access(f):
    if f["reserved"]: return "rs"
    return f["access"] or "rw"


def kinds(s):
    k = [1, 2, 3, 4, 38]
    arr = s["kind"] != "int"
    if effective(s, "new"): k += [5, 6]
    if effective(s, "default"): k += [7]
    if effective(s, "builder"): k += [8, 9, 10, 11]
    if effective(s, "from_into_bits"): k += [12, 13] + ([16, 17] if arr else [])
    if effective(s, "from_traits"): k += [14, 15]
    if effective(s, "write_bit_ops"): k += [18, 19]
    if effective(s, "set_get_bit_ops"): k += [20, 21, 22, 23, 24, 25, 26, 27]
    if effective(s, "clear_bit_ops"): k += [28, 29, 30, 31]
    if effective(s, "invert_bit_ops"): k += [32, 33, 34]
    if effective(s, "debug"): k += [35]
    if effective(s, "copy"): k += [36, 37]
    if s["ignored"]: k += [39]
    if "only" in s: k = [x for x in k if x in s["only"]]
    return sorted(k)


def mask(b): return (1 << b) - 1


def schema_text(s):
    """The line the runtime's model parses."""
    out = []
    for f in s["fields"]:
        kl, tw = ty_info(f["ty"])
        d = "-"
        if f["default"] is not None:
            d = f["default"]["raw"].to_bytes((tw + 7) // 8, "little").hex()
        if f["ty"] in LOSSY: kl = "c:" + LOSSY[f["ty"]][1]
        out.append(",".join([f["name"].removeprefix("r#"), kl, str(tw), str(f["bits"]), access(f), d]))
    e = ",".join("l" if setting(s, x) == "little" else "b" for x in ("from_endian", "into_endian", "write_endian"))
    return "|".join([s["name"].removeprefix("r#"), "int" if s["kind"] == "int" else "arr", str(s["nbytes"]), setting(s, "order"), e,
                     ",".join(map(str, kinds(s))), "1" if s["ignored"] else "0", ";".join(out)])


# ---------------------------------------------------------------- generation

STEMS = ["a", "b", "mode", "x", "flag", "speed", "idx", "len2", "ctl", "q", "kind", "tag", "lo", "hi", "data",
         "count", "err", "irq", "pad", "sel", "w", "addr", "e1", "e2", "status", "very_long_field_name_here", "z9",
         # names the generated code could use itself
         "this", "value", "mask", "offset", "index", "len", "length", "start", "end", "i", "j", "result", "val",
         "arr", "byte", "slice", "range", "build", "with", "core", "u8", "s", "bits_end", "source", "array", "other", "field", "mode_bits", "f", "n"]
TRAITS = ["from", "default", "fmt", "clone"]  # named like methods of traits
RAW = ["r#type", "r#match", "r#in", "r#fn", "r#mod", "r#use"]


def partition(r, total, style):
    ws = []
    left = total
    while left > 0:
        if style == "tiny": w = r.randint(1, 4)
        elif style == "small": w = r.randint(1, 11)
        elif style == "mixed": w = r.choice([1, 2, 3, 5, 7, 8, 9, 12, 13, 16, 17, 24, 31, 32, 33])
        elif style == "large": w = r.choice([20, 31, 32, 33, 47, 60, 63, 64, 65, 100, 127, 128])
        elif style == "aligned": w = r.choice([8, 8, 8, 16, 16, 32, 64, 128])
        elif style == "huge": w = r.choice([129, 130, 136, 144, 200, 257, 64, 15, 1, 8])
        elif style == "bits": w = 1
        elif style == "one": w = total
        elif style == "edge": w = r.choice([1, left - 1 if left > 1 else 1])
        else: raise ValueError(style)
        w = min(w, left)
        ws.append(w)
        left -= w
    r.shuffle(ws)
    return ws


def pick_type(r, bits, allow, backing_kind):
    """A field type that can hold `bits`; returns (ty, may omit the width attribute)."""
    cands = []
    for t, w in UINT.items():
        if w >= bits: cands.append((t, 6 if w < 2 * bits or w == 8 else 2))
    for t, w in SINT.items():
        if w >= bits: cands.append((t, 5 if w < 2 * bits or w == 8 else 2))
    if bits == 1: cands.append(("bool", 14))
    if "arr" in allow:
        n = (bits + 7) // 8
        cands.append((f"[u8;{n}]", 4 if bits > 8 else 2))
        cands.append((f"[u8;{n + r.randint(1, 3)}]", 2))
        if r.random() < 0.15: cands.append((f"[u8;{n + r.randint(4, 30)}]", 2))
    if "custom" in allow:
        for t, (w, _) in XOR.items():
            if w >= bits: cands.append((t, 2 if w < 2 * bits or w == 8 else 1))
        for t, w in FLAG.items():
            if w == bits: cands.append((t, 4))
        for t, (w, _) in NEST.items():
            if w >= bits: cands.append((t, 2 if w == bits else 1))
    if "lossy" in allow:
        n = sum(c[1] for c in cands) / 3
        for t, (w, _) in LOSSY.items():
            if w >= bits and (t != "BL" or bits == 1): cands.append((t, n * (0.4 if w < 2 * bits or w == 8 else 0.1)))
    if not cands:  # wider than 128 bits
        n = (bits + 7) // 8
        cands.append((f"[u8;{n}]", 1))
        cands.append((f"[u8;{n + 1}]", 1))
    tot = sum(c[1] for c in cands)
    x = r.random() * tot
    for t, w in cands:
        x -= w
        if x <= 0: return t
    return cands[-1][0]


def natural_bits(ty):
    """The width when the attribute is omitted, or None if it is mandatory."""
    k, w = ty_info(ty)
    return None if k == "c" else w


def pick_default(r, f, int_backed):
    kl, tw = ty_info(f["ty"])
    bits = f["bits"]
    m = mask(bits)
    x = r.random()
    if x < 0.12: raw = m
    elif x < 0.2: raw = 1 << (bits - 1)
    elif x < 0.28: raw = mask(bits - 1)
    elif x < 0.34: raw = 1
    elif x < 0.38: raw = 0
    else: raw = r.getrandbits(bits)
    raw &= m
    if kl == "i" and raw >> (bits - 1):  # stored sign-extended to the type
        full = raw | (mask(tw) ^ m)
    else: full = raw
    if kl == "u": forms = ["dec", "hex", "bin", "oct", "hexus", "suffix", "const", "path", "fn"]
    elif kl == "i":
        forms = ["dec", "hex", "suffix", "const", "fn", "path"]
        if full != raw and bits < tw: forms += ["wrap", "wraphex"]
    elif kl == "b": forms = ["dec", "dec", "const", "fn"]
    elif kl == "a": forms = ["hex", "dec", "bin"] if int_backed else ["list", "listhex", "const", "fn"]
    elif f["ty"] in XOR: forms = ["const", "fn", "frombits", "tuple"]
    elif f["ty"] in FLAG: forms = ["variant", "const"]
    else: forms = ["const", "fn", "frombits"]
    if not (kl == "a" and int_backed): forms += ["expr", r.choice(["selfc", "selff"])]
    return {"form": r.choice(forms), "raw": full}


IGN = ["u8", "i32", "bool", "u64", "(u8,u16)", "[u8;3]", "Option<u32>", "IgnE"]
IGN_NOCOPY = ["String", "Vec<u8>"]


def gen(r, i, **o):
    """One declaration. Options: backing (list of kinds), need (switches that must be on), allow, sizes,
    access (bool), defaults (probability), ignored (bool), sw_off (probability of turning others off)."""
    kind = r.choice(o.get("backing", ["int", "int", "arr", "arr", "heap"]))
    sizes = o.get("sizes")
    if kind == "int":
        nbytes = r.choice([x for x in (sizes or [1, 2, 2, 4, 4, 8, 8, 16, 16]) if x in (1, 2, 4, 8, 16)])
    else:
        nbytes = r.choice(sizes) if sizes else (r.choice([1, 2, 3, 4, 5, 7, 8, 9, 11, 13, 16, 17, 20]) if r.random() < 0.8 else r.choice([24, 31, 32, 33, 40, 63, 64, 65]))
    total = nbytes * 8
    styles = ["tiny", "small", "small", "mixed", "mixed", "aligned", "one", "edge"]
    if total <= 32: styles += ["bits"]
    if total >= 32: styles += ["large", "large"]
    if total > 128: styles = ["mixed", "large", "large", "aligned", "huge", "huge", "edge"]
    if total > 256: styles = ["large", "large", "huge", "huge"]
    style = o.get("style") or r.choice(styles)
    ws = partition(r, total, style)
    if total <= 128 or kind == "int":
        pass
    elif style in ("one", "edge"):
        pass
    maxf = o.get("max_fields", 40)
    while len(ws) > maxf:
        j = r.randrange(len(ws) - 1)
        ws[j] += ws.pop(j + 1)
    allow = o.get("allow", ["arr", "custom"])
    if r.random() < 0.35: allow = [a for a in allow if r.random() < 0.3]
    order = r.choice([None, "lsb", "msb", "msb"])
    # Access mix of this declaration.
    mix = r.choice([
        {"rw": 1},
        {"rw": 6, "ro": 1, "wo": 1, "na": 1, "rs": 2},
        {"rw": 3, "ro": 2, "wo": 2, "na": 1, "rs": 2},
        {"rw": 1, "ro": 1}, {"rw": 1, "wo": 1}, {"rw": 1, "rs": 1}, {"rw": 2, "na": 1},
        {"ro": 1}, {"wo": 1, "rw": 1, "ro": 1, "na": 1, "rs": 1}]) if o.get("access", True) else {"rw": 1}
    pdef = o.get("defaults", r.choice([0, 0.3, 0.5, 0.8, 1.0]))
    fields = []
    names = r.sample(STEMS, min(len(STEMS), len(ws))) + [f"f{j}" for j in range(len(ws))]
    for j, w in enumerate(ws):
        acc = r.choices(list(mix), weights=list(mix.values()))[0]
        ty = pick_type(r, w, allow, kind)
        nb = natural_bits(ty)
        nm = names[j] if j < len(names) else f"f{j}"
        if j >= len(STEMS) or r.random() < 0.3: nm = f"f{j}"
        elif o.get("raw", True) and r.random() < 0.03: nm = r.choice(RAW)
        elif o.get("traitnames") and r.random() < 0.06: nm = r.choice(TRAITS)
        if any(nm == g["name"] for g in fields): nm = f"f{j}"
        res = acc == "rs"
        if res: nm = r.choice(["__", f"_r{j}", f"_{nm.removeprefix('r#')}", "_reserved" + str(j)])
        f = {"name": nm, "ty": ty, "bits": w, "attr_bits": not (nb == w and r.random() < 0.7), "reserved": res,
             "access": None if res or (acc == "rw" and r.random() < 0.8) else acc, "vis": r.choice(["", "", "pub", "pub(crate)"]),
             "default": None}
        if ty in TY_TEXT: f["ty_text"] = TY_TEXT[ty]
        if r.random() < pdef: f["default"] = pick_default(r, f, kind == "int")
        fields.append(f)
    for need in o.get("want", []):  # make sure some field has the access the property is about
        if not any(access(f) in need for f in fields):
            f = r.choice(fields)
            if f["reserved"]: f["name"] = f"f{fields.index(f)}"
            f["reserved"] = False
            f["access"] = r.choice(need)
    sw = {}
    need = o.get("need", [])
    off = o.get("sw_off", 0.0)
    for x in SWITCHES:
        if x in need:
            if r.random() < 0.2: sw[x] = True
        elif x == "bit_ops": continue
        elif r.random() < off: sw[x] = False
        elif r.random() < 0.1: sw[x] = True
    if r.random() < 0.1 and off > 0:
        sw["bit_ops"] = r.choice([True, False])
        if sw["bit_ops"] is False:
            for x in need:
                if x in GROUPS: sw[x] = True
    s = {"name": r.choice([f"S{i}", f"S{i}", f"Reg{i}", f"Packet_{i}", f"T{i}x"]), "vis": r.choice(["", "pub", "pub(crate)"]),
         "kind": kind, "nbytes": nbytes, "order": order,
         "from_endian": r.choice([None, "big", "little"]), "into_endian": r.choice([None, "big", "little"]),
         "write_endian": r.choice([None, "big", "little"]), "sw": sw, "fields": fields, "ignored": [], "ann": r.randrange(4)}
    if r.random() < 0.06: s["heap_arg"] = True if kind == "heap" else False if kind == "arr" else r.random() < 0.6
    if o.get("ignored"):
        n = r.choice([1, 1, 2, 3])
        copy = effective(s, "copy") and kind != "heap" or o.get("ign_copy")
        for j in range(n):
            t = r.choice(IGN + ([] if copy else IGN_NOCOPY))
            s["ignored"].append({"pos": r.randint(0, len(fields)), "name": r.choice([f"ig{j}"] * 3 + [n + str(j) if k else n for n in ["this", "bits", "value", "offset", "_mark", "new", "mask"] for k in range(2)]), "ty": t, "vis": r.choice(["", "pub", "pub(crate)"])})
        used = {f["name"] for f in fields}
        for j, g in enumerate(s["ignored"]):
            if g["name"] in used: g["name"] = f"ig{j}"
            used.add(g["name"])
    return s
