"""Driver of engine A (symbolic interpretation of the LLVM IR of the real sources)."""
import concurrent.futures as cf
import os, re, subprocess, time
from check import BuildError, JOBS
from common import explore
from intsym import z3_flags, compile_one

LLVM = "/usr/lib/llvm-18"


def run(prop, conf, tier, seed, work, repo, verif, only=None):
    eng = os.path.join(verif, "irsym")
    t0 = time.time()
    zi, zl = z3_flags()
    flags = ["-std=gnu++14", "-I" + repo + "/include", "-I" + eng + "/rt", "-I" + eng + "/harness"]
    src = [repo + "/src/walnut/" + s for s in conf.get("sources", ["big_int.cpp", "homo_point3.cpp"])]
    harness = [os.path.join(eng, "harness", h) for h in conf["harness"]]
    bcs, objs, jobs, engo = [], [], [], []
    for s in ("irsym.cpp", "state.cpp"):
        o = os.path.join(work, s + ".o")
        engo.append(o)
        jobs.append(["g++", "-std=gnu++17", "-O1", "-w", "-I" + LLVM + "/include", "-D_GNU_SOURCE",
                     "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"] + zi +
                    ["-c", os.path.join(eng, "rt", s), "-o", o])
    for s in harness + src:
        o = os.path.join(work, os.path.basename(s) + ".bc")
        bcs.append(o)
        jobs.append(["clang++-18"] + flags + ["-w", "-O0", "-fno-exceptions", "-emit-llvm", "-c", s, "-o", o])
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
    for s in harness + src + [eng + "/rt/native.cpp"]:
        o = os.path.join(work, "real_" + os.path.basename(s) + ".o")
        objs.append(o)
        jobs.append(["g++"] + flags + ["-O1", "-g1", "-w"] + san + ["-c", s, "-o", o])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for rc, out, cmd in ex.map(compile_one, jobs):
            if rc:
                raise BuildError("compilation failed: %s\n%s" % (" ".join(cmd), out[-3000:]))
    sym, real, bc = (os.path.join(work, n) for n in ("irsym", "real", "all.bc"))
    for cmd in ([LLVM + "/bin/llvm-link"] + bcs + ["-o", bc],
                ["g++"] + engo + ["-L" + LLVM + "/lib", "-lLLVM-18"] + zl + ["-lgmpxx", "-lgmp", "-o", sym],
                ["g++"] + san + ["-rdynamic"] + objs + ["-lgmpxx", "-lgmp", "-ldl", "-o", real]):
        rc, out, _ = compile_one(cmd)
        if rc:
            raise BuildError("link failed:\n%s" % out[-3000:])
    res, funcs = explore("irsym", prop, conf, tier, seed, work, only, [sym, "--bc", bc], [real], time.time() - t0)
    res["functions_encoded"] = sorted({re.sub(r"\(.*", "", f)[:110] for f in funcs if "walnut::" in f})
    res["assumptions"] = [
        "64 bit little endian target, clang -O0 code generation, IEEE doubles",
        "products of symbolic words are exact integers bounded by their factors' ranges (over-approximation; "
        "a counterexample counts only after it replays on the real code)",
    ]
    res["trusted"] = ["clang 18 front end", "z3", "cvc5", "GMP", "irsym interpreter", "harness oracles"]
    return res
