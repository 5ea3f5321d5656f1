"""Shared by the two engines: exploring the harnesses of a property, replaying
counterexamples and path witnesses on the real code, collecting results."""
import glob, json, os, re, subprocess, time
from check import log, JOBS

SCALES = {"intsym": ("1", "6", "4294967296", "1099511627776", "18446744073709551616",
                     "680564733841876926926749214863536422912"),
          "irsym": ("1",)}


def explore(engine, prop, conf, tier, seed, work, only, sym, real, build_s):
    """sym: command prefix of the symbolic engine; real: command prefix of the real program."""
    names = []
    for line in subprocess.run(sym + ["--list"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        n, t, b = line.split("\t")
        if only and n != only:
            continue
        if tier == "thorough" or int(t) == 0 or only:
            names.append(n)
    budget = conf.get("budget", 150) if tier == "quick" else conf.get("thorough_budget", 900)
    total_deadline = time.time() + (conf.get("total", 500) if tier == "quick" else 6000)
    res = dict(engine=engine, harnesses=[], violations=[], samples=[], notes=[], fatal=[],
               obligations=0, discharged=0, states=0, transitions=0, validated=0, complete=True,
               solver_s=0.0, queries=0, build_s=round(build_s, 1))
    funcs = set()
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=1",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=1")

    def replay(model, h, scale):
        cmd = real + ["--harness", h, "--model", model, "--scale", scale]
        if tier == "thorough":
            cmd.append("--thorough")
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env,
                               timeout=60, errors="replace")
            return p.returncode, p.stdout[-2500:]
        except subprocess.TimeoutExpired:
            return 1, "TIMEOUT"

    for n in names:
        out = os.path.join(work, "out_" + n)
        left = max(5, min(budget, total_deadline - time.time()))
        cmd = sym + ["--harness", n, "--out", out, "--jobs", str(JOBS), "--budget", str(left), "--seed", str(seed)]
        if tier == "thorough":
            cmd.append("--thorough")
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            res["fatal"].append("harness %s: engine exit %d %s" % (n, p.returncode, p.stderr[-500:]))
            continue
        st = json.loads(p.stdout.strip().splitlines()[-1])
        confirmed, unconfirmed = [], []
        for m in sorted(glob.glob(out + "/viol_*")):
            text = open(m).read()
            kind = re.search(r"^kind (.*)$", text, re.M).group(1)
            what = re.search(r"^what (.*)$", text, re.M).group(1)
            ok = False
            if m.endswith(".model"):
                for scale in SCALES[engine]:
                    rc, o = replay(m, n, scale)
                    if rc not in (0, 4, 5):
                        ok = True
                        break
            if ok:
                confirmed.append(dict(
                    signature="%s:%s:%s" % (n, kind, what),
                    replay="property %s harness %s input scale %s\n%s\nreal execution:\n%s\n" % (prop, n, scale, text, o)))
            else:
                unconfirmed.append("%s:%s:%s" % (n, kind, what))
        res["violations"] += confirmed
        seen = {v["signature"] for v in confirmed}
        u = sorted(set(unconfirmed) - seen)
        if u:
            res["notes"].append("candidates that did not reproduce on the real code (not reported): %s" % u)
        validated, samples = 0, []
        for m in sorted(glob.glob(out + "/sample_*.model")):
            rc, o = replay(m, n, "1")
            if rc == 0:
                validated += 1
                if len(samples) < 1:
                    samples.append(dict(harness=n, inputs=[l for l in open(m).read().splitlines() if l][:40]))
            elif rc not in (4, 5):
                res["violations"].append(dict(
                    signature="%s:replay:%s" % (n, (re.search(r"(CHECK-FAILED .*|ASSERT-FAILED .*|runtime error.*|ERROR: .*)", o) or [o[-200:]])[0]),
                    replay="property %s harness %s (path witness fails on the real code)\n%s\nreal execution:\n%s\n" % (prop, n, open(m).read(), o)))
            else:
                res["notes"].append("%s: witness %s not replayable: %s" % (n, os.path.basename(m), o.strip()[-200:]))
        st["validated"] = validated
        st["unconfirmed"] = len(unconfirmed)
        try:
            funcs |= set(l for l in open(out + "/funcs").read().split("\n" if engine == "irsym" else None) if l)
        except OSError:
            pass
        incomplete = st["incomplete"] or st["unsupported"] or unconfirmed
        if incomplete:
            res["complete"] = False
            res["notes"].append("%s: %d paths cut by the time budget, %d unsupported, %d undecided %s" % (
                n, st["incomplete"], st["unsupported"], len(unconfirmed),
                sorted(set(open(out + "/unsupported").read().split("\n")))[:4] if os.path.exists(out + "/unsupported") else ""))
        if st["paths"] == 0 and not st["violations"]:
            res["fatal"].append("harness %s: no path completes (vacuous)" % n)
        res["harnesses"].append(st)
        res["samples"] += samples
        res["obligations"] += st["checks"]
        res["discharged"] += max(0, st["checks"] - st["violations"])
        res["states"] += st["paths"] + st["discarded"] + st["violations"]
        res["transitions"] += st["sign_queries"]
        res["validated"] += validated
        res["solver_s"] += st["solver_s"]
        res["queries"] += st["sat"] + st["unsat"] + st["unknown"]
        log("  %-28s paths=%d checks=%d queries=%d unknown=%d viol=%d solver=%.1fs wall=%.1fs validated=%d%s" % (
            n, st["paths"], st["checks"], st["sat"] + st["unsat"] + st["unknown"], st["unknown"], st["violations"],
            st["solver_s"], st["wall_s"], validated, " INCOMPLETE" if incomplete else ""))
    res["solver_s"] = round(res["solver_s"], 2)
    res["bounds"] = [h["harness"] + ": " + h["bounds"] for h in res["harnesses"]]
    return res, funcs
