"""Driver of engine B (polynomial symbolic execution of the real sources)."""
import concurrent.futures as cf
import glob, os, re, subprocess, time
from check import BuildError, JOBS
from common import explore

Z3DIRS = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"]
STD = ["-std=gnu++14"]


def z3_flags():
    for d in Z3DIRS:
        if os.path.exists(d + "/include/z3++.h") and os.path.exists(d + "/lib/libz3.so"):
            return ["-I" + d + "/include"], ["-L" + d + "/lib", "-lz3", "-Wl,-rpath," + d + "/lib"]
    return [], ["-lz3"]


def compile_one(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, cmd


def run(prop, conf, tier, seed, work, repo, verif, only=None):
    eng = os.path.join(verif, "intsym")
    t0 = time.time()
    zi, zl = z3_flags()
    inc = ["-I" + repo + "/include"]
    shim = ["-I" + eng + "/shim", "-I" + eng + "/rt"]
    sources = sorted(glob.glob(repo + "/src/walnut/*.cpp"))
    sym_src = [s for s in sources if not os.path.basename(s).startswith("big_int")]
    harness = [os.path.join(eng, "harness", h) for h in conf["harness"]]
    instr = ["-finstrument-functions",
             "-finstrument-functions-exclude-file-list=/usr/,intsym/,big_int,big_uint"]
    jobs, sym_objs, real_objs = [], [], []
    for s in ("sym.cpp", "poly.cpp"):
        o = os.path.join(work, s + ".o")
        sym_objs.append(o)
        jobs.append(["g++", "-std=gnu++17", "-O2", "-w", "-fpermissive"] + zi + shim + inc + ["-c", eng + "/rt/" + s, "-o", o])
    for s in harness + sym_src:
        o = os.path.join(work, "sym_" + os.path.basename(s) + ".o")
        sym_objs.append(o)
        jobs.append(["g++"] + STD + ["-O1", "-g0", "-w", "-fpermissive", "-fno-inline-small-functions", "-DSYMBOLIC"] + instr + shim + inc + ["-I" + eng + "/harness", "-c", s, "-o", o])
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
    for s in harness + [eng + "/rt/real_rt.cpp"] + sources:
        o = os.path.join(work, "real_" + os.path.basename(s) + ".o")
        real_objs.append(o)
        jobs.append(["g++"] + STD + ["-O1", "-g1", "-w"] + san + ["-I" + eng + "/rt"] + inc + ["-I" + eng + "/harness", "-c", s, "-o", o])
    # The longest compilations first.
    jobs.sort(key=lambda c: -os.path.getsize(c[-3]) - (10 ** 7 if "/harness/" in c[-3] else 0))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for rc, out, cmd in ex.map(compile_one, jobs):
            if rc:
                raise BuildError("compilation failed: %s\n%s" % (" ".join(cmd), out[-3000:]))
    sym = os.path.join(work, "sym")
    real = os.path.join(work, "real")
    for cmd in (["g++", "-no-pie"] + sym_objs + zl + ["-lgmpxx", "-lgmp", "-o", sym],
                ["g++"] + san + real_objs + ["-o", real]):
        rc, out, _ = compile_one(cmd)
        if rc:
            raise BuildError("link failed:\n%s" % out[-3000:])
    res, funcs = explore("intsym", prop, conf, tier, seed, work, only, [sym], [real], time.time() - t0)
    res["functions_encoded"] = symbolize(sym, funcs)
    res["assumptions"] = [
        "BigInt is represented by exact polynomials (its own exactness is the subject of C01-C04)",
        "branches are decided over the rationals; inputs are homogeneous so every rational model scales to integers",
    ]
    res["trusted"] = ["g++ 13", "z3", "GMP", "intsym polynomial engine and BigInt stand-in", "harness oracles"]
    return res


def symbolize(binary, addrs):
    if not addrs:
        return []
    table = {}
    for line in subprocess.run(["nm", "-C", binary], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        p = line.split(None, 2)
        if len(p) == 3 and p[1] in "tTwWuV":
            table[int(p[0], 16)] = p[2]
    names = set()
    for a in addrs:
        n = table.get(int(a, 16))
        if n and "walnut::" in n and not n.startswith("std::"):
            names.add(re.sub(r"\(.*", "", n)[:110])
    return sorted(names)
