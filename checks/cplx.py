"""C11: exhaustive operand grid x operators x aliasing patterns of complex_t, over compilers and optimisation levels."""
import os, sys, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check

def run(prop):
    ck = check.Check(prop, "model_checking")
    deep = check.TIER == "thorough"
    lib = ["-frounding-math", "-fno-finite-math-only", "-msse2", "-mfpmath=sse"]
    cfgs = []
    for cxx in ("g++", "clang++"):
        for o in ("-O0", "-O1", "-O2", "-O3"):
            cfgs.append((cxx, [o, "-std=c++11"] + (lib + ["-fsignaling-nans", "-fpermissive"] if cxx == "g++" and o == "-O3" else ["-ffp-contract=off"])))
    avx = "avx2" in open("/proc/cpuinfo").read()
    cfgs += [("g++", ["-O3", "-std=c++17", "-mavx2", "-ffp-contract=off"])] if avx else []
    cfgs += [("g++", ["-O2", "-std=c++20", "-ffp-contract=off"])]
    if deep:
        cfgs += [(c, [o, "-std=" + s, "-ffp-contract=off"]) for c in ("g++", "clang++") for o in ("-O0", "-O2", "-Os") for s in ("c++14", "c++17", "c++20")]
    src = os.path.join(build.VERIF, "harness", "cplx.cpp")
    def one(c):
        if c[0] == "clang++" and build.sh(["clang++", "--version"]).returncode: return None
        out = os.path.join(build.BUILD, "bin", "cplx-" + build.hashlib.sha256(repr(c).encode() + open(src, "rb").read() + pp).hexdigest()[:16])
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            r = build.sh([c[0]] + c[1] + ["-w", "-I" + build.REPO + "/inc", "-I" + build.config_header(), src, "-o", out + ".tmp", "-lm"])
            if r.returncode: raise build.BuildError(" ".join([c[0]] + c[1]) + "\n" + r.stdout[-2000:])
            os.replace(out + ".tmp", out)
        return out
    pp = build.subprocess.run(["g++", "-E", "-P", "-I" + build.REPO + "/inc", "-I" + build.config_header(), src], stdout=-1, env=build.ENV).stdout
    with cf.ThreadPoolExecutor(build.NPROC) as ex: exes = list(ex.map(one, cfgs))
    run = [(e, c) for e, c in zip(exes, cfgs) if e]
    res = ck.run_workers([[e] + (["deep"] if deep else []) for e, c in run], 800 if not deep else 4000)
    ck.assumptions += ["values outside the operand grid (zeros, units, extremes, subnormals, infinities, NaN and generic values in each component) are not enumerated",
                       "complex products and quotients whose intermediates overflow or underflow are outside the stated definition and skipped (counted)"]
    ck.finish(dict(states=sum(o["states"] for o in res), transitions=sum(o["evals"] for o in res), traces_validated_against_impl=sum(o["evals"] for o in res), exhaustive=True,
                   bound="all pairs of complex operands over a %d-value component grid, all operators/helpers, all aliasing patterns, all call-modify-call histories; per build configuration" % (30 if deep else 15),
                   skipped_out_of_range=sum(o["skipped"] for o in res), configurations=[" ".join([c[0]] + c[1]) for e, c in run],
                   samples=[dict(op="multiply", pattern="*= self", grid="a in G x G"), dict(op="unscale", pattern="/= own Re"), dict(op="norm", pattern="call, modify, call")]))
if __name__ == "__main__":
    check.guarded(lambda: run(sys.argv[1]))
