#!/usr/bin/env python
"""Runs the check of one property:  run.py C01 [--tier quick|thorough]
or replays a saved failure:          run.py --replay FILE
"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def load_known():
    """known_findings.txt: 'known: property=C14 key=... text' lines."""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("known:"):
            continue
        rest = line[len("known:"):].strip()
        toks = rest.split(None, 2)
        prop = toks[0].split("=", 1)[1]
        key = toks[1].split("=", 1)[1]
        out[(prop, key)] = toks[2] if len(toks) > 2 else key
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--ncpu", type=int, default=os.cpu_count() or 8)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()

    from vlib import env
    env.setup()
    from vlib import engine

    rep = None
    if a.replay:
        rep = json.load(open(a.replay))
        a.prop = rep["property"]
    env.import_qsonic()
    mod = importlib.import_module("props." + a.prop.lower())
    subs = mod.SUBS
    known = load_known()

    if rep:
        sub = [s for s in subs if s.name == rep["subcheck"]][0]
        out, info = engine.execute(sub, rep["case"])
        print(out, info)
        if out == "violation":
            print(f"VIOLATION property={a.prop} replay={a.replay}")
            return 1
        return 0

    t0 = time.time()
    results, errors, hung = engine.run_property(
        a.prop, subs, a.tier, a.seed, a.ncpu, a.only, a.scale)
    ev = {}
    nontriv, samples, viol, fail = set(), [], 0, None
    per = {}
    found = {}
    for r in results:
        p = per.setdefault(r["sub"], dict(
            evaluations=0, distinct_nontrivial=set(), tags={},
            truncated=False, discarded=0, wall_s=0.0))
        p["evaluations"] += r["evaluations"]
        p["distinct_nontrivial"].update(r["nontrivial"])
        p["truncated"] |= r["truncated"]
        p["discarded"] += r["skipped"]
        p["wall_s"] = round(p["wall_s"] + r["wall"], 2)
        for k, v in r["tags"].items():
            p["tags"][k] = p["tags"].get(k, 0) + v
        nontriv.update(r["sub"] + h for h in r["nontrivial"])
        for s in r["samples"]:
            if sum(1 for x in samples if x["subcheck"] == r["sub"]) < 2:
                samples.append(dict(subcheck=r["sub"], case=s))
        found.update(r["known"])
        if r["failure"]:
            viol += 1
            f = dict(r["failure"], sub=r["sub"])
            if fail is None or len(json.dumps(f["case"])) < \
                    len(json.dumps(fail["case"])):
                fail = f
    for name, case, age in hung:
        viol += 1
        if fail is None:
            fail = dict(sub=name, case=case,
                        message=f"case did not finish within {age:.0f} s")
    bad_known = [k for k in found if (a.prop, k) not in known]
    if bad_known and fail is None:
        errors.append(f"unlisted known-finding keys {bad_known}")
    rules = "; ".join(f"[{s.name}] {s.rule}" for s in subs if s.rule)
    for p in per.values():
        p["distinct_nontrivial"] = len(p["distinct_nontrivial"])
    ev = dict(
        property=a.prop, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=sum(p["evaluations"] for p in per.values()),
            distinct_nontrivial=len(nontriv),
            rule="Hypothesis generates a case per sub-check; a case counts "
                 "as non-trivial by: " + rules,
            samples=samples, subchecks=per),
        assumptions=getattr(mod, "ASSUMPTIONS", []) + [
            "numba is replaced by a pure-Python stand-in that enforces its "
            "explicit signatures; MPI by an in-process or forked simulator"],
        wall_s=round(time.time() - t0, 2), violations=viol)
    edir = os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    if a.v:
        for k, p in sorted(per.items()):
            print(k, p)
    for k in sorted(found):
        if (a.prop, k) in known:
            print(f"KNOWN-FINDING: property={a.prop} {known[(a.prop, k)]}")
    if fail is not None:
        rdir = os.path.join(edir, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{a.prop}-{fail['sub']}.json")
        with open(path, "w") as f:
            json.dump(dict(property=a.prop, subcheck=fail["sub"],
                           case=fail["case"], message=fail["message"]),
                      f, indent=1)
        print(f"{a.prop}/{fail['sub']}: {fail['message']}")
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if errors:
        for e in errors:
            print("ERROR", e, file=sys.stderr)
        return 2
    print(f"OK property={a.prop} evaluations={ev['coverage']['evaluations']} "
          f"nontrivial={len(nontriv)} wall={ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
