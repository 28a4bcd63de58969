#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property: model-checks its part of the TLA+ specification with TLC, then
runs the real library and has TLC check what it did against the same specification.
Exit 0: held on everything explored; 1: violation; 2: the check could not be run."""
import argparse, json, os, sys, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib
import props


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    try:
        ck = props.PROPS[a.prop](a.prop, a.tier, seed)
        if a.replay:
            bad = ck.replay(a.replay)
            print("reproduced" if bad else "not reproduced")
            return 1 if bad else 0
        violations = ck.run()
        ck.write_evidence(time.time() - t0, len(violations))
        for v in violations[:5]:
            print("VIOLATION property=%s replay=%s" % (a.prop, v))
        print("%s %s: %s in %.0f s" % (a.prop, a.tier,
              "%d violation(s)" % len(violations) if violations else "held", time.time() - t0))
        return 1 if violations else 0
    except vlib.CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (a.prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR property=%s: internal error" % a.prop)
        return 2
    finally:
        vlib.cleanup()


if __name__ == "__main__":
    sys.exit(main())
