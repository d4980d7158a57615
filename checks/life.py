"""C18: the library at every stage of a process and on every thread (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check

SMALL = {"C": [30, 64], "R": [60, 64], "D": [60, 64], "B": [31]}
BIG = {"C": [16384, 50000], "R": [65536], "D": [65536], "B": [20000]}

def run(prop):
    ck = check.Check(prop, "model_checking")
    T = check.TIER == "thorough"
    late = build._compile(os.path.join(build.VERIF, "harness", "life.cpp"), ["-std=c++17", "-O2", "-w", "-DLATE"])
    exe = build.program("life", ["life.cpp"], build.library("prod"), ["-fopenmp"], [late, "-lpthread"])
    cmds, n = [], 0
    def add(kinds, reqs, lens, fork, shards, dist=4):
        for k in kinds:
            for r in reqs:
                for L in lens(k):
                    for i in range(shards): cmds.append(([exe, k, str(r), str(L), str(i), str(shards), str(fork), str(dist)], {"OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"}))
    add("CRDB", range(4), lambda k: BIG[k] if T else [], 0, 4)
    if not T:
        add("CRDB", [3], lambda k: BIG[k][:1], 0, 4, 2)
        add("CRDB", range(3), lambda k: SMALL[k][:1], 0, 1, 2)
    add("CRDB", range(4) if T else [3], lambda k: SMALL[k] if T else SMALL[k][:1], 0, 4)
    add("CRDB", range(4), lambda k: SMALL[k] if T else SMALL[k][:1], 1, 2)
    # the same library inside a plugin; the OpenMP runtime stays loaded with the host, as it has to
    so = build.program("plug-so", ["plug.cpp"], build.library("prod"), ["-fopenmp", "-shared", "-fPIC", "-DPLUGIN"])
    host = build.program("plug-host", ["plug.cpp"], [], [], ["-Wl,--no-as-needed", "-lgomp", "-ldl", "-lpthread"])
    for k in "CRDB":
        for r in range(4):
            for L in (SMALL[k] if T else SMALL[k][:1]) + (BIG[k][:1] if T or r == 3 else []): cmds.append(([host, so, k, str(r), str(L)], {"OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"}))
    out = ck.run_workers(cmds, 800 if not T else 8000)
    tot = lambda k: sum(o[k] for o in out)
    ck.assumptions += ["in forked processes only lengths below the threading thresholds are used: the OpenMP runtime itself does not support parallel regions on both sides of a fork"]
    ck.finish(dict(states=tot("execs"), transitions=tot("events"), traces_validated_against_impl=tot("execs"), exhaustive=True,
                   bound="every non-decreasing assignment of creation, setup, transforms and destruction to 13 stages of a process (static constructors, main, threads, team members, thread-local and static destructors, exit handlers; quick: at most two different stages for explicit requests and threading lengths), the same after another instance has lived and died in an earlier stage, and every such assignment spanning a fork; every assignment to three threads in a plugin that is loaded and unloaded three times; one process each",
                   samples=[dict(creation="static constructor before the library's", setup="thread 1", transforms="thread 2", destruction="exit handler")]))
if __name__ == "__main__":
    check.guarded(lambda: run(sys.argv[1]))
