"""python -m mc.run ID [--tier quick|thorough] [--replay FILE]"""
import argparse
import ast
import importlib
import json
import os
import sys
import time
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


SETUP = "'SETUP'"


def case_of(h, text):
    """the case whose repr is text; the enumeration knows what literals don't."""
    try:
        return ast.literal_eval(text)
    except (SyntaxError, ValueError):
        for tier in ("quick", "thorough"):
            for case in h.cases(tier):
                if repr(case) == text:
                    return case
        raise


def explore(h, tier, rep, core):
    """let h explore; what the code raises while h gets ready is its doing."""
    try:
        h.explore(tier, rep)
    except Exception as ex:
        if not core.through_code(ex):
            raise
        rep.violations.append(dict(
            key=f"{h.name}:setup", harness=h.name, case=SETUP,
            what=f"the code failed before anything was explored: {ex!r:.900}"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ns = ap.parse_args()
    if os.environ.get("PYTHONHASHSEED") != "0":
        # one fixed hash seed: string hashing is a source of nondeterminism
        os.environ["PYTHONHASHSEED"] = "0"
        os.chdir(HERE)
        os.execv(sys.executable,
                 [sys.executable, "-B", "-m", "mc.run"] + sys.argv[1:])
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    warnings.simplefilter("ignore")
    from mc import core
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module(f"mc.checks.{ns.prop.lower()}")
    harnesses = mod.harnesses(ns.tier)
    if ns.replay:
        data = json.load(open(ns.replay))
        bad = []
        for h in harnesses:
            if h.name == data["harness"] and data["case"] == SETUP:
                rep = core.Report()
                explore(h, ns.tier, rep, core)
                bad += rep.violations
            elif h.name == data["harness"]:
                bad += h.replay(case_of(h, data["case"]))
        for v in bad:
            print(f"VIOLATION property={ns.prop} replay={ns.replay}")
            print("  ", v["key"], v["what"])
        return 1 if bad else 0
    rep = core.Report()
    harnesses = [h for h in harnesses if ns.only in (None, h.name)]
    for i, h in enumerate(harnesses):
        left = t0 + core.TOTAL[ns.tier] - time.time()
        core.SOFT[0] = time.time() + core.share(left, len(harnesses) - i)
        explore(h, ns.tier, rep, core)
        if rep.violations and os.environ.get("MC_FIRST"):
            break       # tools/mutate.py wants no more than one
    if hasattr(mod, "finish"):
        mod.finish(rep)
    known = core.known_findings(ns.prop)
    fresh, listed = [], {}
    for v in rep.violations:
        if v["key"] in known:
            listed[v["key"]] = v
        else:
            fresh.append(v)
    for key in known:
        if key in listed:
            print(f"KNOWN-FINDING: property={ns.prop} {key} {known[key]}")
    level = mod.LEVEL
    cov = {
        "exhaustive": not rep.capped,
        "caps_hit": rep.capped,
        "samples": rep.samples[:6] or ["none"],
        "rule": mod.RULE,
        "parts": rep.parts,
        "distinct_outcomes": len(rep.outcomes),
    }
    if level == "model_checking":
        cov["states"] = len(rep.states)
        cov["transitions"] = rep.transitions
        cov["traces_validated_against_impl"] = rep.traces
        cov["executions"] = rep.evaluations
    else:
        cov["evaluations"] = rep.evaluations
        cov["distinct_nontrivial"] = len(rep.nontrivial)
    evidence = {
        "property": ns.prop,
        "tier": ns.tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    base = os.environ.get("MC_OUT", HERE)
    os.makedirs(os.path.join(base, "evidence"), exist_ok=True)
    with open(os.path.join(base, "evidence", f"{ns.prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write("\n")
    if fresh:
        os.makedirs(os.path.join(base, "replays"), exist_ok=True)
        for n, v in enumerate(fresh[:5]):
            path = os.path.join(
                base, "replays", f"{ns.prop}-{core.digest(v['case'])}.json")
            with open(path, "w") as f:
                json.dump(v | {"property": ns.prop}, f, indent=1)
            print(f"VIOLATION property={ns.prop} replay={path}")
            print(f"   {v['key']}: {v['what']}"[:1500])
        return 1
    print(f"{ns.prop} held: " + json.dumps(
        {k: v for k, v in cov.items()
         if isinstance(v, (int, bool))}) + f" in {evidence['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
