"""C15: the caller's execution environment (see DESIGN.md): exhaustive product of settings x calls on the real code."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check

CLS = {"C": [2, 4, 8, 16, 32, 64, 128, 256, 1024, 2048, 3, 5, 6, 7, 9, 10, 11, 13, 17, 34, 49, 1000], "R": [2, 4, 8, 16, 32, 64, 256, 2048, 6, 10, 12, 14, 22, 34, 68],
       "D": [2, 4, 8, 16, 32, 64, 256, 2048, 6, 10, 12, 14, 22, 34, 68], "B": [1, 2, 3, 5, 7, 16, 33, 100, 500]}
PAR = {"C": [4096, 8192, 16384, 32768, 65536, 36000, 32770], "R": [8192, 16384, 32768, 65536, 40000], "D": [8192, 16384, 32768, 65536, 40000], "B": [1025, 2049, 4097, 8193, 32769]}
HUGE = {"C": [131072, 262144, 524288, 59049], "R": [131072, 262144], "D": [131072, 262144], "B": [65537]}

def run(prop):
    ck = check.Check(prop, "model_checking")
    T = check.TIER == "thorough"
    exe = build.program("env", ["env.cpp"], build.library("prod"), ["-fopenmp", "-frounding-math"])
    cmds, bounds = [], []
    j = lambda l: ",".join(map(str, l))
    def add(lens, fp, ic, what, split=1):
        for k in "CRDB":
            for b in (0, 1, 2, 3) if T else (0, 1, 2):
                for i in range(split):
                    l = lens[k][i::split]
                    if l: cmds.append([exe, k, str(b), j(l), j(fp), j(ic)])
        bounds.append("%s: %d floating-point x %d threading settings on lengths %s" % (what, len(fp), len(ic), ", ".join("%s:%s" % (k, j(lens[k])) for k in "CRDB")))
    A64, A24 = list(range(64)), list(range(24))
    if T:
        add(HUGE, [0, 1, 2, 3, 16, 19, 44, 63], [0, 1, 2, 5, 17, 23], "long lengths", 4); add(PAR, A64, A24, "parallel lengths", 5); add(CLS, A64, A24, "class lengths", 4)
    else:
        add(PAR, [0, 1, 2, 3, 16, 63], [1, 2, 5, 23], "parallel lengths", 2); add(CLS, A64, [0, 17], "class lengths, all floating-point settings"); add(CLS, [0, 19], A24, "class lengths, all threading settings")
    out = ck.run_workers(cmds, 800 if not T else 12000, dict(OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0"))
    tot = lambda k: sum(o[k] for o in out)
    ck.assumptions += ["settings observed: MXCSR, x87 control word (calling thread and team threads), direction flag, OpenMP control variables, signal mask and handlers, environment variables, locale, directory, affinity, file mode mask, priority, resource limits, open descriptors, standard output and error",
                       "the real libgomp runs the parallel regions; its team threads inherit the floating-point settings of the thread that started them"]
    ck.finish(dict(states=tot("envs"), transitions=tot("calls"), schedules=tot("envs"), results_compared=tot("compared"), largest_relative_deviation=max([o["worst"] for o in out] + [0]),
                   traces_validated_against_impl=tot("envs"), exhaustive=True, bound="; ".join(bounds),
                   samples=[dict(environment="rounding up, flush-to-zero, invalid/divide/overflow unmasked, 5 threads, dynamic adjustment on", history="create empty, set up, set up twice the length and back, all operations, destroy")]))
if __name__ == "__main__":
    check.guarded(lambda: run(sys.argv[1]))
