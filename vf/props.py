"""One entry per property."""
import copy
import random
import time
from . import apiprops, consts, contexts, core, emit, families, feat, flags, nested, reject, rtprops
from . import schema as S

CHECKS = {}


def rounds(rep, quick=1, quick_s=150.0, thorough_s=600.0):
    """Round numbers: a fixed count in the quick tier (cut short only on a slow machine), by time in the thorough one; stops at a violation."""
    k = 0
    while True:
        yield k
        k += 1
        rep.extra["rounds"] = k
        if rep.violations: return
        if rep.tier == "thorough":
            if rep.clock.s() > thorough_s: return
        elif k >= quick or rep.clock.s() > quick_s: return


def deep(rep): return 4 if rep.tier == "thorough" else 1


def rt_property(prop, histories=60, maxlen=14, quick=3):
    def run(rep):
        rep.rule = rtprops.RULE
        build = core.Build()
        for k in rounds(rep, quick):
            bases = families.family(prop, rep.tier, rep.seed, k)
            rtprops.check(rep, build, bases, histories=histories * deep(rep), maxlen=maxlen, deep=rep.tier == "thorough")
    CHECKS[prop] = run


for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C18"): rt_property(p)
rt_property("C11", histories=400, maxlen=40)


def twin_int(s):
    """int, inline array and heap array of the same fields."""
    out = []
    for kind in ("int", "arr", "heap"):
        t = copy.deepcopy(s)
        t["kind"] = kind
        if any(f["ty"].startswith("[") for f in s["fields"]): t["sw"]["debug"] = False
        out.append(t)
    return out


def twin_arr(s):
    out = []
    for kind in ("arr", "heap"):
        t = copy.deepcopy(s)
        t["kind"] = kind
        out.append(t)
    return out


def c12(rep):
    rep.rule = rtprops.RULE + " Oracle: the three (two) declarations that differ only in storage must agree on every result and on the bits after every call."
    build = core.Build()
    for k in rounds(rep, 2):
        r = random.Random(f"C12/{rep.seed}/{k}")
        o = {"backing": ["int"], "need": families.NEED["C12"], "max_fields": 12}
        bases = [S.gen(r, i, **{**o, "sw_off": r.choice([0, 0, 0.9]), "ignored": r.random() < 0.15}) for i in range(96)]
        # A defaulted array field is a number on integers and a byte list on arrays: both forms are emitted per backing.
        rtprops.check(rep, build, bases, twin_int, 3, histories=150 * deep(rep), maxlen=25, deep=rep.tier == "thorough")
        o = {"backing": ["arr"], "need": families.NEED["C12"], "max_fields": 10}
        bases = [S.gen(r, i, **{**o, "sw_off": r.choice([0, 0, 0.9]), "ignored": r.random() < 0.15}) for i in range(48)]
        rtprops.check(rep, build, bases, twin_arr, 2, histories=100 * deep(rep), maxlen=25, deep=rep.tier == "thorough")


CHECKS["C12"] = c12


def c21(rep):
    rep.rule = rtprops.RULE + " Oracle: no call panics or aborts, and every case's hash over all results and states is the same for the overflow-checked unoptimised build and the optimised unchecked build."
    build = core.Build()
    for k in rounds(rep, 3):
        bases = families.family("C21", rep.tier, rep.seed, k)
        kw = dict(histories=150 * deep(rep), maxlen=25, deep=rep.tier == "thorough")
        a = rtprops.check(rep, build, bases, **kw)
        if rep.violations: break
        b = rtprops.check(rep, build, bases, extra=core.RELEASE, **kw)
        for i in a:
            if i in b and a[i].get("trace") != b[i].get("trace") and len(rep.violations) < 2: rtprops.build_difference(rep, build, bases[i], (core.DEBUG, core.RELEASE), **kw)


CHECKS["C21"] = c21


def twin_ign(s):
    t = copy.deepcopy(s)
    t["ignored"] = []
    return [copy.deepcopy(s), t]


def c22(rep):
    rep.rule = rtprops.RULE + " Oracles: the same declaration without its ignored fields must agree on every result and on the bits after every call; the ignored fields themselves must hold their type's default after every construction and otherwise what was last assigned. Their visibility is probed from four locations: each probe is non-trivial."
    build = core.Build()
    for k in rounds(rep, 3):
        r = random.Random(f"C22/{rep.seed}/{k}")
        apiprops.check(rep, build, [apiprops.declare(r, i, "C22") for i in range(60)], True, "ignored")
        if rep.violations: return
        bases = families.family("C22", rep.tier, rep.seed, k)
        rtprops.check(rep, build, bases[:100], twin_ign, 2, histories=150 * deep(rep), maxlen=25, deep=rep.tier == "thorough")


CHECKS["C22"] = c22


PROBE_RULE = ("Declarations are drawn at random (access mixes, visibilities, switches, backings); for each one every item of the documented API is probed by "
              "the compiler: items that must exist as typed paths that must compile, items that must not exist (or must not be nameable from that module or crate) "
              "as paths that must each be an error. Every (declaration, probe) is distinct; one is non-trivial because its verdict depends on the declaration.")


def c15(rep):
    rep.rule = PROBE_RULE
    build = core.Build()
    for k in rounds(rep, 3):
        r = random.Random(f"C15/{rep.seed}/{k}")
        apiprops.check(rep, build, [apiprops.declare(r, i, "C15") for i in range(120)], True)


CHECKS["C15"] = c15


def twin_all(s):
    t = copy.deepcopy(s)
    t["sw"] = {}
    return [copy.deepcopy(s), t]


def c16(rep):
    rep.rule = PROBE_RULE + " In addition random histories of everything that remains generated run on the declaration and on the same declaration with everything enabled, which must agree. " + rtprops.RULE
    build = core.Build()
    for k in rounds(rep, 2):
        r = random.Random(f"C16/{rep.seed}/{k}")
        apiprops.check(rep, build, [apiprops.declare(r, i, "C16") for i in range(200)], False)
        if rep.violations: return
        bases = families.family("C16", rep.tier, rep.seed, k)
        rtprops.check(rep, build, bases[:80], twin_all, 2, histories=100 * deep(rep), maxlen=20, deep=rep.tier == "thorough")


CHECKS["C16"] = c16


def c13(rep):
    rep.rule = ("Bitflag enums are drawn at random (1 to 256 variants, dense, one-hot, palindromic, sparse and byte-swapped discriminants in every literal form, base and default anywhere, "
                "endian and copy arguments, derives, documentation, visibilities). from_bits is called for every u8 and u16 value, and for wider types for every discriminant, its byte swap, "
                "their neighbours, all their one-bit changes, truncations and random values; into_bits for every variant; both also in constants; existence, visibility and preserved attributes "
                "are probed by the compiler. A value is non-trivial if it maps to a variant other than the fallback (every into_bits and probe is); values are deduplicated per enum.")
    build = core.Build()
    for k in rounds(rep, 6):
        r = random.Random(f"C13/{rep.seed}/{k}")
        flags.check(rep, build, [flags.gen(r, i) for i in range(160)], 2000 * deep(rep))


CHECKS["C13"] = c13


def c14(rep):
    rep.rule = ("Well-formed declarations are drawn at random and must compile; from others one fault of a listed kind is made (width sums off in either direction, zero or too wide widths, defaults out of range or of the "
                "wrong kind, unsupported types, unknown or malformed arguments, missing widths, access on reserved fields, duplicate names, wrong items, enum faults) and the compiler must reject them; attributes with randomly "
                "inserted, removed and replaced tokens may do either but no macro may crash. An accept/reject case is non-trivial because the two classes differ in one place; a token case is if it was rejected.")
    build = core.Build()
    for k in rounds(rep, 3):
        r = random.Random(f"C14/{rep.seed}/{k}")
        reject.check(rep, build, reject.generate(r, 1200))


CHECKS["C14"] = c14


def c17(rep):
    rep.rule = ("Feature sets are drawn so that every opposing pair of features is absent, at its documented default and at the other value in turn; for each, declarations with and without explicit arguments are "
                "probed (C15/C16 probes) and run (random histories) against the settings they should have, and bitflag enums likewise. " + PROBE_RULE + " " + rtprops.RULE)
    feat.facade(rep)
    n = 13 if rep.tier == "quick" else 25
    for k in rounds(rep, 1):
        feat.check(rep, f"C17/{rep.seed}/{k}", n, 40, 24, 16, 60 * deep(rep), 14, rep.tier == "thorough", lambda: rep.clock.s() > (300 if rep.tier == "quick" else 700))


CHECKS["C17"] = c17


def c19(rep):
    rep.rule = rtprops.RULE + (" Fields have custom types with lossy, signed, wider, bool, char and generic conversions, and sparse bitflags; or are nested bitfields up to three levels deep, whose inner fields are read and written "
                               "through every level and compared with the flattened layout.")
    build = core.Build()
    build.extra_header = nested.HEADER
    for k in rounds(rep, 3):
        r = random.Random(f"C19/{rep.seed}/{k}")
        rtprops.check(rep, build, [nested.typed(r, i) for i in range(120)], histories=80 * deep(rep), maxlen=14, deep=rep.tier == "thorough")
        if rep.violations: return
        rtprops.check(rep, build, [nested.tree(r, i) for i in range(100)], lambda s: [nested.flatten(s)], histories=150 * deep(rep), maxlen=14, deep=rep.tier == "thorough")


CHECKS["C19"] = c19


def c20(rep):
    rep.rule = ("Declarations without ignored fields are drawn at random. For each, every generated inherent function is called at least once with random arguments, in shuffled histories from random bits; the "
                "history is evaluated in a constant of a no_std crate that forbids warnings, and its hash over all results and states must be the one computed at run time. The size and alignment must be those of the "
                "backing type and the expansion must contain no unsafe code (the latter also for heap arrays). Each history is distinct and changes or reads bits, so it counts as non-trivial.")
    build = core.Build()
    for k in rounds(rep, 6):
        r = random.Random(f"C20/{rep.seed}/{k}")
        consts.check(rep, build, [consts.heap_gen(r, i) if i % 10 == 9 else consts.gen(r, i) for i in range(80)], r, ["2021", "2018", "2024"][k % 3])


CHECKS["C20"] = c20


EDITIONS = ["2021", "2018", "2024"]


def c23(rep):
    rep.rule = rtprops.RULE + (" Each declaration is written in a context drawn at random: its types, widths, values, names, visibilities or keys as fragments of a macro_rules macro (also forwarded through a second one), as a forwarded "
                               "item or token list, or directly; at module level, in function bodies, closures, methods and generic functions, in modules whose items shadow core names, or without the prelude; under each edition; with other "
                               "attribute paths, documentation, lint attributes, argument orders and delimiters. It must compile and behave as the declaration alone says.")
    build = core.Build()
    build.extra_header = contexts.HEADER
    msg = contexts.locals_probe(build)
    if msg: rep.violation({"kind": "locals", "failure": msg}, "default-named-like-a-local")
    for k in rounds(rep, 9):
        r = random.Random(f"C23/{rep.seed}/{k}")
        build.edition = rep.replay_extra["edition"] = EDITIONS[k % 3]
        rtprops.check(rep, build, [contexts.gen(r, i) for i in range(170)], lambda s: [contexts.render(s)], histories=40 * deep(rep), maxlen=14, deep=rep.tier == "thorough")
        if rep.violations: return
        flags.check(rep, build, [contexts.gen_flag(r, i) for i in range(60)], 300, False)


CHECKS["C23"] = c23


def prelude():
    """(first error, source) if the well-formed declarations used by every check do not compile."""
    build = core.Build()
    d = core.Dir("prelude")
    try:
        for text in (emit.HEADER + "fn main() {}\n", consts.HEADER):
            c = core.rustc(build, d.file("p.rs", text), d.file("p.out"), ["--crate-name", "p", "--emit=metadata"] + (["--crate-type", "rlib"] if "no_std" in text else []))
            if not c.ok: return c.errors[0]["msg"], "\n".join(l for l in text.splitlines() if "bitf" in l)
        return None
    finally: d.close()


def replay(body):
    if body["kind"] == "prelude":
        print(prelude())
        return prelude() is not None
    if body["kind"] == "facade":
        rep = core.Report("C17", "quick", body["seed"])
        rep.findings = []
        feat.facade(rep)
        return bool(rep.violations)
    build = core.Build()
    if body["kind"] == "locals": return contexts.locals_probe(build) is not None
    if body["property"] == "C19": build.extra_header = nested.HEADER
    if body["property"] == "C23":
        build.extra_header = contexts.HEADER
        build.edition = body.get("edition", core.EDITION)
    if "features" in body: build = core.FeatBuild(body["features"], build.rt)
    if body["kind"] == "const": return consts.replay(build, body)
    if body["kind"] == "decl": return reject.replay(build, body)
    if body["kind"] in ("flags", "flagapi"): return flags.replay(build, body)
    if body["kind"] == "api": return apiprops.replay(build, body)
    if body["kind"] == "builds": return rtprops.replay_builds(build, body)
    if body["kind"] == "rt": return rtprops.replay(build, body)
    raise core.ToolError("unknown replay kind")
