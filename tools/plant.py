"""Confirms planted bugs: python3 tools/plant.py confirm ID... | check ID... | make DEFS.py

make:    DEFS.py holds BUGS = [dict(id, property, file, edits=[(old, new)], demo, bad=None, needs, breaks)]; writes seeded/<id>/.
confirm: in a scratch copy of /repo: builds, passes the stable tests, demo.sh exits 0 without and non-zero with the patch.
check:   applies the patch to /repo, runs the property's quick check, undoes it."""
import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
SCRATCH = "/tmp/plant"
DEMO = """#!/bin/bash
# Exit 0: the documented behaviour. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=nightly-2026-02-27 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" PATH=/root/.cargo/bin:$PATH
unset RUSTFLAGS
try() { # a crate with main.rs = $1
    mkdir -p "$d/c/src"
    cp "$here/$1" "$d/c/src/main.rs"
    cp "$repo/Cargo.lock" "$d/c/Cargo.lock"
    printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[dependencies]\\n%s\\n[workspace]\\n' "@DEP@" > "$d/c/Cargo.toml"
    (cd "$d/c" && cargo @VERB@ --offline -q)
}
"""
RUN = "try demo.rs\n"
BAD = """try demo.rs || exit 1
if (try bad.rs) 2> "$d/log"; then echo "accepted, but must be rejected"; exit 1; fi
grep -q '@WHY@' "$d/log" || { cat "$d/log"; exit 1; }
"""


def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(path):
    for b in runpy.run_path(path)["BUGS"]:
        d = os.path.join(SEED, b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        assert not sh("git -C /repo status --porcelain").stdout, "/repo is not clean"
        try:
            for f, old, new in b["edits"]:
                p = os.path.join("/repo/bitfields_impl/src", f)
                t = open(p).read()
                assert t.count(old) == b.get("count", 1), (b["id"], f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
        finally: sh("git -C /repo checkout -- .")
        open(os.path.join(d, "demo.rs"), "w").write(b["demo"])
        text = DEMO.replace("@DEP@", b.get("dep", 'bitfields = { path = \\"$repo/bitfields\\" }')).replace("@VERB@", b.get("verb", "run")) + (BAD.replace("@WHY@", b.get("why", "error")) if b.get("bad") else RUN)
        if b.get("bad"): open(os.path.join(d, "bad.rs"), "w").write(b["bad"])
        open(os.path.join(d, "demo.sh"), "w").write(text)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def confirm(ids):
    if not os.path.exists(SCRATCH): sh(f"mkdir -p {SCRATCH} && cp -a /repo {SCRATCH}/repo")
    r = SCRATCH + "/repo"
    sh(f"git -C {r} checkout -q -- . && git -C {r} fetch -q /repo && git -C {r} reset -q --hard FETCH_HEAD")
    for n in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + n).read().replace("cd /repo", "cd " + r).replace("LOGS=/opt/vp/logs", f"LOGS={SCRATCH}/logs")
        open(f"{SCRATCH}/{n}", "w").write(t)
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base["stable"])
    for i in ids:
        d = os.path.join(SEED, i)
        out = [i]
        p = sh(f"bash {d}/demo.sh", cwd=r)
        out.append(f"clean demo rc={p.returncode}")
        if p.returncode: print(p.stdout[-1500:], p.stderr[-1500:])
        a = sh(f"git -C {r} apply {d}/patch.diff")
        if a.returncode: print(i, "does not apply", a.stderr); continue
        try:
            b = sh(f"bash {SCRATCH}/build.sh")
            out.append(f"build rc={b.returncode}")
            if b.returncode: print(b.stderr[-2000:])
            t = sh(f"bash {SCRATCH}/test.sh {SCRATCH}/out.json")
            res = json.load(open(f"{SCRATCH}/out.json"))
            lost = sorted(want - set(res["passed"]))
            out.append(f"tests lost={len(lost)} {lost[:3]}")
            p = sh(f"bash {d}/demo.sh", cwd=r)
            out.append(f"patched demo rc={p.returncode} {(p.stdout + p.stderr).strip()[-160:]!r}")
        finally: sh(f"git -C {r} checkout -- .")
        print(" | ".join(out), flush=True)


def check(ids):
    for i in ids:
        d = os.path.join(SEED, i)
        prop = json.load(open(d + "/meta.json"))["property"]
        a = sh(f"git -C /repo apply {d}/patch.diff")
        if a.returncode: print(i, "does not apply", a.stderr); continue
        try: p = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 -m vf {prop}", cwd=ROOT)
        finally: sh("git -C /repo checkout -- .")
        print(i, prop, "rc", p.returncode, "CAUGHT" if p.returncode == 1 and f"VIOLATION property={prop}" in p.stdout else "MISSED", p.stdout.strip().splitlines()[-1:], p.stderr[-600:], flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make": make(sys.argv[2])
    else: (confirm if sys.argv[1] == "confirm" else check)(sys.argv[2:] or sorted(os.listdir(SEED)))
