"""python3 -m vf <property> | replay <file> | setup"""
import json
import os
import sys
import traceback
from . import core


def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    cmd = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if cmd == "setup":
        core.Build()
        print("built")
        return 0
    from . import props
    if cmd == "replay":
        body = json.load(open(sys.argv[2]))
        bad = props.replay(body)
        print("still failing" if bad else "no longer failing")
        return 1 if bad else 0
    rep = core.Report(cmd, tier, seed)
    try: props.CHECKS[cmd](rep)
    except core.ToolError:
        # Not an answer, unless the fixed declarations every generated program starts with are what does not compile.
        bad = props.prelude()
        if bad is None: raise
        rep.violation({"kind": "prelude", "failure": {"what": "well-formed declarations do not compile", "got": bad[0]}, "declaration": bad[1]})
    return rep.finish()


if __name__ == "__main__":
    try: rc = main()
    except core.ToolError as e:
        print("ERROR:", e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
