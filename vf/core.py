"""Building, compiling, running, reporting. Exit codes: 0 held, 1 violation, 2 no answer."""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(ROOT, ".work")
TOOLCHAIN = "nightly-2026-02-27"
JOBS = 8
EDITION = "2021"


class ToolError(Exception):
    """The check could not give an answer."""


class Clock:
    def __init__(self): self.t0 = time.time()
    def s(self): return time.time() - self.t0


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "UPDATE_DOCS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"): e.pop(k, None)
    return e


_rustc = None


def rustc_path():
    global _rustc
    if _rustc is None:
        p = subprocess.run(["rustup", "which", "rustc", "--toolchain", TOOLCHAIN], capture_output=True, text=True)
        if p.returncode != 0: raise ToolError("no rustc: " + p.stderr)
        _rustc = p.stdout.strip()
    return _rustc


class Build:
    """The crate under test (and the runtime), built from /repo's current tree."""

    extra_header = ""
    edition = EDITION

    @property
    def header(self):
        from . import emit
        return emit.HEADER + self.extra_header

    def __init__(self, release=False):
        os.makedirs(WORK, exist_ok=True)
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(self._repo)
            b = ex.submit(self._rt)
            a.result(), b.result()

    def _repo(self):
        cmd = ["cargo", "build", "--offline", "--message-format=json", "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml"),
               "--target-dir", os.path.join(WORK, "target")]
        p = subprocess.run(cmd, capture_output=True, text=True, env=env(), timeout=600)
        self.files = {}
        self.lib = self.impl = None
        for line in p.stdout.splitlines():
            try: m = json.loads(line)
            except ValueError: continue
            if m.get("reason") == "compiler-artifact":
                name = m["target"]["name"].replace("-", "_")
                for f in m["filenames"]:
                    if name == "bitfields" and f.endswith(".rlib"): self.lib = f
                    if name == "bitfields_impl" and f.endswith(".so"): self.impl = f
                    self.files.setdefault(name, []).append(f)
        if p.returncode != 0 or not self.lib:
            raise ToolError("the crate under test does not build:\n" + p.stderr[-4000:])
        self.deps = os.path.join(WORK, "target", "debug", "deps")

    def _rt(self):
        src = os.path.join(ROOT, "rt", "src")
        h = hashlib.sha256()
        for f in sorted(os.listdir(src)):
            with open(os.path.join(src, f), "rb") as fh: h.update(fh.read())
        d = os.path.join(WORK, "rt-" + h.hexdigest()[:12])
        os.makedirs(d, exist_ok=True)
        self.rt = os.path.join(d, "librt.rlib")
        if os.path.exists(self.rt): return
        tmp = self.rt + f".{os.getpid()}"
        p = subprocess.run([rustc_path(), "--edition", EDITION, "--crate-type", "rlib", "--crate-name", "rt", "-C", "opt-level=2",
                            "-C", "metadata=vfrt", "-o", tmp, os.path.join(src, "lib.rs")], capture_output=True, text=True, env=env())
        if p.returncode != 0: raise ToolError("runtime does not build:\n" + p.stderr[-3000:])
        os.replace(tmp, self.rt)

    def flags(self):
        return ["--edition", self.edition, "--extern", "bitfields=" + self.lib, "--extern", "rt=" + self.rt, "-L", "dependency=" + self.deps, "-L", "dependency=" + os.path.dirname(self.rt),
                "--error-format=json"]


class FeatBuild(Build):
    """The macro crate (or, facade=True, the public crate) with exactly these cargo features; helper types are written without macros."""
    _lock = threading.Lock()

    def __init__(self, features, rt, facade=False):
        from . import emit
        self.features, self.rt, self.facade = list(features), rt, facade
        self._header = emit.HEADER if facade else emit.HEADER_HAND
        d = "facade" if facade else "feat"
        dep = "bitfields" if facade else "bitfields-impl"
        cmd = ["cargo", "build", "--offline", "--message-format=json", "--manifest-path", os.path.join(ROOT, "harness", d, "Cargo.toml"), "--target-dir", os.path.join(WORK, "target-" + d)]
        if features: cmd += ["--features", ",".join(f"{dep}/{f}" for f in features)]
        with FeatBuild._lock: p = subprocess.run(cmd, capture_output=True, text=True, env=env(), timeout=600)
        self.lib = None
        for line in p.stdout.splitlines():
            try: m = json.loads(line)
            except ValueError: continue
            if m.get("reason") == "compiler-artifact" and m["target"]["name"].replace("-", "_") == dep.replace("-", "_"):
                self.lib = next(f for f in m["filenames"] if f.endswith(".rlib" if facade else ".so"))
        if p.returncode != 0 or not self.lib: raise ToolError(f"the crate does not build with features {features}:\n" + p.stderr[-4000:])
        self.deps = os.path.join(WORK, "target-" + d, "debug", "deps")

    @property
    def header(self): return self._header


DEBUG = ["-C", "debug-assertions=on", "-C", "overflow-checks=on"]
RELEASE = ["-C", "opt-level=2", "-C", "debug-assertions=off", "-C", "overflow-checks=off"]


class Compiled:
    def __init__(self, ok, errors, warnings, stderr): self.ok, self.errors, self.warnings, self.stderr = ok, errors, warnings, stderr


def parse_diags(stderr):
    errors, warnings = [], []
    for line in stderr.splitlines():
        if not line.startswith("{"): continue
        try: m = json.loads(line)
        except ValueError: continue
        if m.get("$message_type") not in (None, "diagnostic"): continue
        spans = [s for s in m.get("spans", []) if s.get("is_primary")] or m.get("spans", [])
        lines = []
        for s in spans:
            while s.get("expansion") and s["expansion"].get("span"): s = s["expansion"]["span"]
            lines.append(s["line_start"])
        d = {"code": (m.get("code") or {}).get("code"), "msg": m.get("message", ""), "lines": lines}
        if m.get("level") == "error": errors.append(d)
        elif m.get("level") == "warning": warnings.append(d)
    return errors, warnings


def rustc(build, src, out, extra=(), timeout=600, input=None, lib_flags=None):
    cmd = [rustc_path()] + (lib_flags if lib_flags is not None else build.flags()) + list(extra) + ["-o", out, src]
    try: p = subprocess.run(cmd, capture_output=True, text=True, env=env(), timeout=timeout, input=input)
    except subprocess.TimeoutExpired: raise ToolError("rustc took too long on " + src)
    errors, warnings = parse_diags(p.stderr)
    if p.returncode != 0 and not errors: raise ToolError(f"rustc ended with {p.returncode} on {src}:\n{p.stderr[-2000:]}")
    if p.returncode != 0 and any("internal compiler error" in e["msg"] or "linking with" in e["msg"] or "No space left" in e["msg"] for e in errors):
        raise ToolError(f"rustc failed on {src}:\n{p.stderr[-2000:]}")
    return Compiled(p.returncode == 0, errors, warnings, p.stderr)


def run_bin(cmd, stall=150, total=840):
    """Runs a shard; returns (json lines, status) with status 'ok', 'stalled' or 'crashed:<rc>'."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    lines, last = [], [time.time()]
    err = []

    def rd():
        for l in p.stdout:
            last[0] = time.time()
            try: lines.append(json.loads(l))
            except ValueError: pass

    def rde():
        for l in p.stderr: err.append(l)
    ts = [threading.Thread(target=rd, daemon=True), threading.Thread(target=rde, daemon=True)]
    for t in ts: t.start()
    t0 = time.time()
    while p.poll() is None:
        time.sleep(0.02)
        if time.time() - last[0] > stall or time.time() - t0 > total:
            p.kill()
            p.wait()
            for t in ts: t.join(5)
            return lines, "stalled", "".join(err)
    for t in ts: t.join(10)
    if p.returncode != 0: return lines, f"crashed:{p.returncode}", "".join(err)
    return lines, "ok", "".join(err)


class Dir:
    """A scratch directory of this run under .work."""

    def __init__(self, prop):
        self.path = os.path.join(WORK, f"run-{prop}-{os.getpid()}")
        shutil.rmtree(self.path, ignore_errors=True)
        os.makedirs(self.path)

    def file(self, name, text=None):
        p = os.path.join(self.path, name)
        if text is not None:
            with open(p, "w") as f: f.write(text)
        return p

    def close(self): shutil.rmtree(self.path, ignore_errors=True)


def pmap(fn, items, jobs=JOBS):
    with cf.ThreadPoolExecutor(jobs) as ex: return list(ex.map(fn, items))


# ------------------------------------------------------------------ reporting

class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.clock = Clock()
        self.evaluations = self.nontrivial = 0
        self.samples, self.extra, self.assumptions = [], {}, []
        self.violations, self.known = [], []
        self.rule = ""
        self.replay_extra = {}
        self.findings = load_findings()

    def sample(self, x):
        if len(self.samples) < 6: self.samples.append(x)

    def violation(self, replay, signature=None):
        """replay: dict; written to replays/. A listed finding with this exact signature is only announced."""
        if signature is not None:
            for f in self.findings:
                if f["property"] == self.prop and f["signature"] == signature:
                    self.known.append(f)
                    return
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        body = dict(property=self.prop, seed=self.seed, tier=self.tier, signature=signature, **self.replay_extra, **replay)
        h = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(d, f"{self.prop}-{h}.json")
        with open(p, "w") as f: json.dump(body, f, indent=1)
        self.violations.append(p)

    def finish(self):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
              "coverage": dict(evaluations=self.evaluations, distinct_nontrivial=self.nontrivial, rule=self.rule, samples=self.samples or ["none"], **self.extra),
              "assumptions": self.assumptions, "wall_s": round(self.clock.s(), 2), "violations": len(self.violations)}
        p = os.path.join(ROOT, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        seen = set()
        for k in self.known:
            if k["signature"] in seen: continue
            seen.add(k["signature"])
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        for v in self.violations[:5]: print(f"VIOLATION property={self.prop} replay={v}")
        print(f"{self.prop} {self.tier}: {self.evaluations} evaluations, {self.nontrivial} distinct non-trivial, {len(self.violations)} violations, {ev['wall_s']} s")
        return 1 if self.violations else 0


def load_findings():
    """known-findings.txt: lines `known: property=<id> signature=<exact> <what fails>` (fixed: lines suppress nothing)."""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if not os.path.exists(p): return out
    for line in open(p):
        line = line.strip()
        if not line.startswith("known:"): continue
        parts = line[len("known:"):].split(None, 2)
        out.append({"property": parts[0].split("=", 1)[1], "signature": parts[1].split("=", 1)[1], "what": parts[2]})
    return out
