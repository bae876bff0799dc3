#!/usr/bin/env python3
"""check.py <property> [--thorough] [--replay FILE]   (VERIF_SEED, VERIF_TIER)"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import framework, pipe

API = {"C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C11", "C16", "C19"}


def main():
    pid = sys.argv[1]
    c = framework.Check(pid)
    if "--replay" in sys.argv:
        d = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))

        def again(c):
            if "cases" not in d:
                print("this replay file describes the failing schedule or configuration; run the check itself"); return
            c.phase("replay", framework.load_cases(d), d["focus"], jobs=1, env=d.get("env"), sched=d.get("sched", False))
        sys.exit(c.run(again))
    if pid in API:
        import api
        sys.exit(c.run(getattr(api, pid.lower())))
    import importlib
    sys.exit(c.run(importlib.import_module(pid.lower()).main))


if __name__ == "__main__":
    main()
