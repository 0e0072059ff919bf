#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   |   check.py --setup   |   check.py --replay FILE"""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, props
from run import Run, Violation, known_findings


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        core.build(list(core.VARIANTS))
        return 0
    if a and a[0] == "--replay":
        return props.replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a[0]
    r = Run(prop, tier, seed)
    try:
        for f in known_findings():
            if f[0] == prop:
                print("KNOWN-FINDING: " + f[2].split(" ", 1)[1])
        props.CHECKS[prop](r)
        r.evidence(0)
        r.log(f"held: {r.states} states, {r.traces} traces, {r.units} data units")
        return 0
    except Violation as v:
        r.evidence(1)
        print(f"VIOLATION property={prop} replay={v.replay}", flush=True)
        return 1
    except core.ToolError as e:
        print("TOOL ERROR:", e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        r.close()


sys.exit(main())
