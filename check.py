#!/usr/bin/env python3
"""Runs the check of one property:  check.py PROPERTY [--tier quick|thorough]

Exit 0: held on everything explored; exit 1 with a VIOLATION line otherwise;
exit 2: the check could not be carried out (build failure, ...).
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WALNUT_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
JOBS = os.cpu_count() or 4


def log(*a):
    print(*a, flush=True)


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    return json.load(open(path)) if os.path.exists(path) else []


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--harness", help="only this harness (development)")
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    props = json.load(open(os.path.join(VERIF, "checks.json")))
    conf = props[args.property]
    work = tempfile.mkdtemp(prefix="walnut_%s_" % args.property)
    try:
        results = []
        if "intsym" in conf:
            import intsym
            results.append(intsym.run(args.property, conf["intsym"], tier, seed, work, REPO, VERIF, args.harness))
        if "irsym" in conf:
            import irsym
            results.append(irsym.run(args.property, conf["irsym"], tier, seed, work, REPO, VERIF, args.harness))
        rc = report(args.property, conf, results, tier, seed, t0)
    except BuildError as e:
        log("ERROR: %s" % e)
        rc = 2
    finally:
        if not args.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            log("work directory", work)
    sys.exit(rc)


class BuildError(Exception):
    pass


def report(prop, conf, results, tier, seed, t0):
    known = [k for k in load_known() if k["property"] == prop]
    violations, suppressed = [], {}
    for r in results:
        for v in r["violations"]:
            hit = None
            for k in known:
                if k.get("status") == "fixed":
                    continue
                if re.fullmatch(k["match"], v["signature"]):
                    hit = k
                    break
            if hit is not None:
                suppressed.setdefault(hit["id"], (hit, []))[1].append(v)
            else:
                violations.append(v)
    obligations = sum(r["obligations"] for r in results)
    discharged = sum(r["discharged"] for r in results)
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd="python3 check.py %s --tier %s" % (prop, tier),
        trusted_base=sorted({t for r in results for t in r["trusted"]}),
        explanation=conf.get("explanation", "") or
        "Bounded solver-based check: every feasible path of the harnesses within the stated bounds is "
        "executed symbolically on the code compiled from the current tree, and each assertion on it is decided "
        "by an SMT solver for all values of the symbolic inputs.",
        states=sum(r.get("states", 0) for r in results),
        transitions=sum(r.get("transitions", 0) for r in results),
        traces_validated_against_impl=sum(r.get("validated", 0) for r in results),
        samples=[s for r in results for s in r["samples"]][:8],
        exhaustive=all(r["complete"] for r in results),
        engines=[{k: v for k, v in r.items() if k not in ("violations", "samples", "trusted")} for r in results],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=conf.get("level", "model_checking"), coverage=cov,
              assumptions=sorted({t for r in results for t in r["assumptions"]} | set(conf.get("assumptions", []))),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for kid, (k, vs) in sorted(suppressed.items()):
        log("KNOWN-FINDING: property=%s %s (%d failing paths)" % (prop, k["what"], len(vs)))
    for r in results:
        for n in r.get("notes", []):
            log("note:", n)
    log("%s: %d obligations, %d discharged, %.1fs%s" % (
        prop, obligations, discharged, time.time() - t0, "" if cov["exhaustive"] else " (not exhaustive)"))
    if violations:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(violations[:5]):
            path = os.path.join(rdir, "%s_%d.txt" % (prop, i))
            with open(path, "w") as f:
                f.write(v["replay"])
            log("violation: %s" % v["signature"])
        log("VIOLATION property=%s replay=%s" % (prop, os.path.join(rdir, "%s_0.txt" % prop)))
        return 1
    fatal = [n for r in results for n in r.get("fatal", [])]
    if fatal:
        for n in fatal:
            log("ERROR:", n)
        return 2
    return 0


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    main()
