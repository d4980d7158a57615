"""C14: one instance shared by threads that supply all arrays (see DESIGN.md): deviation-bounded exploration of all schedules."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, check, par

# one length per kernel and factorisation class (the real transforms and the DCT use the complex transform of half the length)
FLEN = [2, 4, 8, 16, 32, 64, 128, 256, 1024, 2048, 3, 5, 6, 7, 9, 10, 11, 13, 25, 30, 34, 49, 121, 143, 1000]
FBIG = [4096, 8192, 16384, 32768, 36000]
RLEN = [2, 4, 6, 8, 10, 12, 14, 16, 20, 22, 26, 32, 64, 68, 128, 256, 512, 2048]
RBIG = [8192, 16384, 32768, 65536]
FHUGE, RHUGE = [65536, 131072, 262144, 59049, 46341], [131072, 262144, 98304]

def run(prop):
    ck = check.Check(prop, "model_checking")
    T = check.TIER == "thorough"
    src = ["share.cpp", "sched.cpp"]
    kinds = "RFE"
    try:
        build.program("share-tsan", src, build.library("tsan"), ["-DINTERNAL"], par.LIBS); fl = ["-DINTERNAL"]
    except build.BuildError:
        build.library("prod"); fl, kinds = [], "R"
        ck.assumptions.append("the internal structs FFT0 and DCT0 (explicit work arrays) are not available in the expected form; only the public RealFFT was shared")
    tsan = build.program("share-tsan", src, build.library("tsan"), fl, par.LIBS)
    prod = build.program("share-prod", src, build.library("prod"), fl, par.LIBS)
    cmds, bounds = [], []
    rots = "0,1,2,3,4,5,6,7" if T else "0,3,5,6"   # first operations; odd ones also set the instance up separately
    def add(exe, k, lens, dev, team, nt, own, ns=8):
        if k not in kinds: return
        sets = [k + b + str(n) for n in lens for b in "sav"]
        ns = min(ns, len(sets))
        for i in range(ns): cmds.append([exe, "/".join(sets[i::ns]), str(dev), str(team), str(nt), str(own), "0", "1", rots])
        bounds.append("%s lengths %s: %d threads%s, at most %d deviations, teams of %d, %s build, first operations %s" % (dict(R="RealFFT", F="FFT0", E="DCT0")[k], ",".join(map(str, lens)), nt, " and one with an own instance" if own else "", dev, team, "instrumented" if exe == tsan else "production", rots))
    for k, small, big, huge in (("F", FLEN, FBIG, FHUGE), ("R", RLEN, RBIG, RHUGE), ("E", RLEN, RBIG, RHUGE)):
        if T:
            add(tsan, k, huge, 1, 2, 2, 0, 15); add(tsan, k, big, 2, 3, 2, 0, 15); add(tsan, k, big, 2, 2, 3, 1, 15)
            add(tsan, k, small, 4, 1, 2, 0, 24); add(tsan, k, small, 3, 1, 3, 1, 24); add(prod, k, small + big + huge, 2, 2, 3, 1, 24)
        else:
            add(tsan, k, big, 0, 2, 2, 0, 15); add(tsan, k, small, 2, 1, 2, 0); add(tsan, k, small, 1, 1, 3, 1); add(prod, k, small + big, 1, 1, 3, 1)
    out = ck.run_workers(cmds, 800 if not T else 12000)
    ck.viol = par.locate(tsan, ck.viol)
    tot = lambda k: sum(o[k] for o in out)
    ck.assumptions += ["schedules differ at synchronisation operations (static initialisation guards, atomics, locks, barriers of parallel regions); between these points conflicting unsynchronised accesses are found by happens-before analysis",
                       "memory accesses are those the compiler's thread instrumentation reports at -O1; the production build runs the same schedules bit-compared"]
    ck.finish(dict(states=tot("points"), schedules=tot("execs"), transitions=tot("switches"), thread_sets=tot("sets"), memory_accesses=tot("accesses"), longest_schedule=max([o["maxpoints"] for o in out] + [0]),
                   traces_validated_against_impl=tot("execs"), exhaustive=True, bound="; ".join(bounds),
                   samples=[dict(schedule="main sets up RealFFT AVX 1024; thread 1 runs fwd,fwd0,..,invn on its arrays, thread 2 the same operations in reverse order on its own")]))
if __name__ == "__main__":
    check.guarded(lambda: run(sys.argv[1]))
