"""Entry point:  python -m mc.main <property> [--tier quick|thorough] [--replay FILE]"""
import argparse, importlib, json, os, sys, time
from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--space", help="restrict to one space (development)")
    a = ap.parse_args()
    t0 = time.time()
    core.TIER = a.tier
    try:
        mod = importlib.import_module("mc.props." + a.prop.lower())
        spaces = mod.spaces(a.tier)
    except BaseException as e:   # the code under test no longer even loads / sets up
        import traceback
        v = {"space": "setup", "choices": [], "msg": "setup failed: %s: %s" % (type(e).__name__, e),
             "detail": traceback.format_exc()}
        path = core.save_replay(a.prop, v)
        core.write_evidence(a.prop, a.tier, "model_checking",
                            {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []},
                            time.time() - t0, 1, [])
        print(v["detail"])
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if a.space:
        spaces = [s for s in spaces if s.name == a.space]
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        sp = [s for s in mod.spaces(r.get("tier", a.tier)) if s.name == r["space"]][0]
        ch, v = core.run_case(sp, tuple(r["choices"]))
        print(json.dumps({"case": repr(ch.sample), "violation": v}, indent=1))
        if v:
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1 if v else 0
    budget = float(os.environ.get("VERIF_BUDGET") or (650 if a.tier == "quick" else 4 * 3600))
    stats, viol, truncated, samples = core.explore(spaces, t0 + budget)
    if viol is not None and viol.get("timeout"):
        sp = [s for s in spaces if s.name == viol["space"]][0]
        _, again = core.run_case(sp, tuple(viol["choices"]))
        if again is None:
            print("note: %s ran out of time once but not when repeated; not reported" % viol["space"])
            viol = None
            truncated = True
    fin = getattr(mod, "finish", None)
    if fin and viol is None:
        fin()
    total = sum(s.cases for s in stats)
    states = set()
    for s in stats:
        states |= s.states
    cov = {
        "states": len(states),
        "transitions": sum(s.ops for s in stats),
        "traces_validated_against_impl": total,
        "exhaustive": not truncated and viol is None,
        "samples": samples[:12],
        "spaces": [{"name": sp.name, "deviation_bound": sp.bound, "note": sp.note,
                    "executions": st.cases, "states": len(st.states), "impl_operations": st.ops,
                    "distinct_outcomes": len(st.outcomes)}
                   for sp, st in zip(spaces, stats)],
        "meaning": "states: distinct inputs/states visited; transitions: operations of the real code executed; "
                   "traces: complete executions of the real code compared with the reference model",
    }
    cov.update(getattr(mod, "EXTRA_COVERAGE", {}))
    level = getattr(mod, "LEVEL", "model_checking")
    if level == "fault_enumeration":
        cov["evaluations"] = total
        cov["distinct_nontrivial"] = len(states)
        cov["rule"] = getattr(mod, "RULE", "")
    core.write_evidence(a.prop, a.tier, level, cov, time.time() - t0,
                        0 if viol is None else 1, getattr(mod, "ASSUMPTIONS", []))
    for sp, st in zip(spaces, stats):
        print("%s/%s: executions=%d states=%d impl_ops=%d outcomes=%d bound=%d" % (
            a.prop, sp.name, st.cases, len(st.states), st.ops, len(st.outcomes), sp.bound))
    for k in core.load_known()["known"]:
        if k["property"] == a.prop:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    if viol is not None:
        viol["tier"] = a.tier
        path = core.save_replay(a.prop, viol)
        print("violated in space %s choices=%s" % (viol["space"], viol["choices"]))
        print(viol["msg"])
        if viol.get("detail"):
            print(str(viol["detail"])[:4000])
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    print("%s: property held on everything explored (%d executions, %d states, %.1f s%s)" % (
        a.prop, total, len(states), time.time() - t0, ", TRUNCATED by time budget" if truncated else ""))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
