"""C09: concurrent use of distinct instances (see DESIGN.md): deviation-bounded exploration of all schedules."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, check, par

CLS = {"C": [2, 4, 8, 16, 64, 128, 1024, 6, 10, 30, 34, 11], "R": [2, 4, 16, 64, 2048, 12, 20, 68, 22], "D": [2, 4, 16, 64, 2048, 12, 20, 68, 22], "B": [2, 3, 7, 16, 33, 100, 500]}
BIGC = {"C": [2048, 4096, 16384, 1000, 2002], "R": [8192, 4096 * 3], "D": [8192, 4096 * 3], "B": [1025, 3000]}

def run(prop):
    ck = check.Check(prop, "model_checking")
    T = check.TIER == "thorough"
    tsan = build.program("own-tsan", ["own.cpp", "sched.cpp"], build.library("tsan"), [], par.LIBS)
    prod = build.program("own-prod", ["own.cpp", "sched.cpp"], build.library("prod"), [], par.LIBS)
    cmds, bounds = [], []
    def add(exe, sets, dev, ap, team, what, ns=8, parts=1):
        sets = ["," .join(s) for s in sets]
        ns = min(ns, len(sets))
        cmds.extend([exe, "/".join(sets[i::ns]), str(dev), str(int(ap)), str(team), "0", "1", str(k), str(parts)] for i in range(ns) for k in range(parts))
        bounds.append("%s: %d thread sets, at most %d deviations, %sallocation points, teams of %d, %s build" % (what, len(sets), dev, "" if ap else "no ", team, "instrumented" if exe == tsan else "production"))
    reqs = [k + b for k in "CRDB" for b in "savx"]
    pairs = [(a + "16", b + "16") for a, b in itertools.combinations_with_replacement(reqs, 2)]
    same = lambda lens: [(k + b + str(m), k + b + str(n)) for k in "CRDB" for b in "sav" for m, n in itertools.product(lens[k], repeat=2)]
    two = [(a + "8+" + b + "12", c + "16+" + d + "4") for a, b, c, d in itertools.product([k + "x" for k in "CRDB"], repeat=4)]
    tri = [(a + "16", b + "16", c + "16") for a, b, c in itertools.combinations_with_replacement([k + b for k in "CRDB" for b in "ax"], 3)]
    mixed = [(a + str(CLS[a[0]][-1]), b + str(CLS[b[0]][3])) for a in reqs for b in reqs]
    par2 = [("C" + b + "16384", "C" + b + "16384") for b in "sav"] + [("C" + b + "8192", "R" + b + "32768") for b in "sav"] + [("D" + b + "32768", "B" + b + ("8192" if T else "4096")) for b in "sav"]
    # quick: every length with itself and with the next one; thorough: all pairs
    near = lambda lens: [(k + b + str(lens[k][i]), k + b + str(lens[k][(i + d) % len(lens[k])])) for k in "CRDB" for b in "sav" for i in range(len(lens[k])) for d in (0, 1)]
    half = lambda lens: [(k + b + str(m), k + b + str(n)) for k in "CRDB" for b in "sav" for m, n in itertools.combinations_with_replacement(lens[k], 2)]
    big = same(BIGC) if T else near(BIGC)
    if T:
        add(tsan, pairs, 4, False, 1, "all pairs of kind and request"); add(tsan, pairs, 3, True, 1, "all pairs of kind and request", 32)
        add(tsan, same(CLS), 2, True, 1, "same kind, all pairs of class lengths", 32); add(tsan, mixed, 2, True, 1, "mixed kinds", 16)
        add(tsan, two, 2, True, 1, "two instances per thread", 32); add(tsan, tri, 3, False, 1, "three threads", 32)
        add(tsan, big, 1, True, 1, "same kind, longer lengths", 32); add(tsan, par2, 1, False, 2, "parallel regions inside", 9, 8); add(tsan, par2, 1, False, 3, "parallel regions inside", 9, 8)
        add(prod, pairs, 3, True, 1, "all pairs of kind and request", 16); add(prod, same(CLS), 2, True, 1, "same kind, all pairs of class lengths", 16); add(prod, par2, 2, False, 2, "parallel regions inside", 9, 8)
    else:
        add(tsan, [par2[-1], par2[4], par2[0]], 1, False, 2, "parallel regions inside", 3, 8)
        add(tsan, pairs, 3, False, 1, "all pairs of kind and request"); add(tsan, pairs, 2, True, 1, "all pairs of kind and request")
        add(tsan, half(CLS), 1, True, 1, "same kind, all pairs of class lengths"); add(tsan, mixed, 1, True, 1, "mixed kinds")
        add(tsan, two, 1, True, 1, "two instances per thread"); add(tsan, tri, 2, False, 1, "three threads")
        add(tsan, big, 1, False, 1, "same kind, longer lengths")
        add(prod, pairs, 2, True, 1, "all pairs of kind and request"); add(prod, near(CLS), 1, True, 1, "same kind, equal and neighbouring class lengths")
    out = ck.run_workers(cmds, 600 if not T else 12000)
    ck.viol = par.locate(tsan, ck.viol)
    tot = lambda k: sum(o[k] for o in out)
    ck.assumptions += ["schedules differ at synchronisation operations (static initialisation guards, atomics, locks) and, where stated, at allocations; between these points conflicting unsynchronised accesses are found by happens-before analysis",
                       "memory accesses are those the compiler's thread instrumentation reports at -O1; the production build runs the same schedules bit-compared"]
    ck.finish(dict(states=tot("points"), schedules=tot("execs"), transitions=tot("switches"), thread_sets=tot("sets"), memory_accesses=tot("accesses"), longest_schedule=max([o["maxpoints"] for o in out] + [0]),
                   traces_validated_against_impl=tot("execs"), exhaustive=True, bound="; ".join(bounds),
                   samples=[dict(schedule="thread 1 creates ComplexFFT AVX 16 up to the feature-detection guard, thread 2 creates RealFFT AUTO 16 and runs, thread 1 continues")]))
if __name__ == "__main__":
    check.guarded(lambda: run(sys.argv[1]))
