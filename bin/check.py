#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on /repo's current working tree."""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, props


def main():
    pid = sys.argv[1]
    if pid == "--build":
        c = core.Check("build", "quick", 1)
        c.harness()
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = core.Check(pid, tier, seed)
    try:
        props.CHECKS[pid](c)
    except core.Violation as v:
        path = os.path.join(core.BUILD, "replay", pid + ".json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump(dict(property=pid, what=v.what, **v.detail), f, indent=1)
        c.evidence(1)
        print(v.what)
        print(json.dumps(v.detail)[:3000])
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    except core.ToolError as e:
        print(f"TOOL ERROR: {e}", flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    c.evidence(0)
    c.log(f"held: {c.states} states, {c.transitions} transitions, {c.traces} executions of the crate checked")
    return 0


if __name__ == "__main__":
    sys.exit(main())
