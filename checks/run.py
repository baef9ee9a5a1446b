#!/usr/bin/env python3
"""checks/run.py PROPERTY [quick|thorough] - decides one property (see DESIGN.md)."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "tools")]
import vt  # noqa: E402

COMPONENTS = ["c_db", "c_dbc", "c_misc", "c_frame", "c_client", "c_codec", "c_sched", "c_server", "c_tcp", "c_e2e"]

ASSUME = {}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else vt.TIER
    t0 = time.time()
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "_violations": []}
    mods = [m for m in (importlib.import_module(c) for c in COMPONENTS) if prop in m.PROPS]
    if not mods:
        print("unknown property " + prop)
        return 2
    try:
        for m in mods:
            m.run(prop, tier, cov)
    except vt.CheckError as e:
        print("CHECK ERROR property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    viol = cov.pop("_violations")
    known = vt.known_findings(prop)
    new = []
    shown = set()
    for v in viol:
        k = next((k for k in known if v.get("sig") and k["sig"] == v["sig"]), None)
        if k:
            if k["sig"] not in shown:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                shown.add(k["sig"])
        else:
            new.append(v)
    assumptions = []
    for m in mods:
        assumptions += getattr(m, "ASSUMPTIONS", [])
    vt.write_evidence(prop, tier, cov, time.time() - t0, len(new), assumptions)
    if new:
        v = new[0]
        p = vt.save_replay(prop, v)
        print("violated by %d scenarios; first: event %s of scenario %s: %s" % (len(new), v["event_index"], v["scenario"].get("id"), json.dumps(v["event"])[:600]))
        if v.get("why"):
            print("specification: " + str(v["why"])[:600])
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
        prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
