"""C10 (allocation failure) and C13 (lifecycle): see DESIGN.md."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check

# one or two lengths of every algorithm class; evens for C, R, D, anything for B
SMALL = [0, 2, 4, 8, 32, 64, 128, 6, 10, 14, 22, 34, 60]
MID = [1, 16, 256, 512, 1024, 2048, 4096, 8192, 30, 210, 1001 * 2, 16384]
BIG = [32768, 65536, 131072, 262144, 3 * 32768]

def classes(kind, thorough):
    f = 2 if kind in "RD" else 1
    def ev(L): return [n * f for n in L] if kind != "B" else [max(n - 1, 0) if n > 2 else n for n in L]
    s, m, b = ev(SMALL), ev([x for x in MID if not (kind in "D" and x == 0)]), ev(BIG)
    return s, m, b

def run(prop):
    ck = check.Check(prop, "fault_injection" if prop == "C10" else "model_checking")
    ck.level = "model_checking"
    T = check.TIER == "thorough"
    exe = build.program("oom", ["oom.cpp", "alloc.cpp"], build.library("prod"), ["-fopenmp"])
    j = lambda L: ",".join(map(str, L))
    cmds, bounds = [], []
    env1 = {"OMP_NUM_THREADS": "1"}; env3 = {"OMP_NUM_THREADS": "3", "OMP_WAIT_POLICY": "passive"}
    for kind in "CRDB":
        s, m, b = classes(kind, T)
        # every length on its own
        f, st = 2 if kind in "RD" else 1, 1 if kind == "B" else 2
        if prop == "C10": every, large = list(range(st, 1201 if T else 161, st)), [f * 2**k for k in range(19, 23 if T else 21)]
        else: every, large = list(range(st, 4001 if T else 701, st)), [f * 2**k for k in range(19, 24 if T else 23)]
        if kind == "B": large = [n - 1 for n in large[:-1]]
        mode = "oomsweep" if prop == "C10" else "sweep"
        cmds += [([exe, mode, kind, "sav", j(every), str(i), "8"], env1) for i in range(8)]
        cmds += [([exe, mode, kind, "sav"[(i + ord(kind)) % 3] if not T else "sav", j([n]), "0", "1"], env3) for i, n in enumerate(large)]
        bounds.append("%s: every length %d..%d and %s alone" % (kind, every[0], every[-1], j(large)))
        if prop == "C10":
            groups = [(s + m[:5] if T else s[:11], "sava", env1), (m, "sav", env1)]
            groups += [(b[:4] + s[1:3], "sav", env3)] if T else [((b[:1] if kind == "B" else b[:3]) + s[1:3], "v", env1)]
            for L, be, e in groups:
                be = "".join(dict.fromkeys(be)); cmds += [([exe, "oom", kind, be, j(L), str(i), "8"], e) for i in range(8)]
                bounds.append("%s: lengths %s, backends %s" % (kind, j(L), be))
        else:
            groups = [(s[:6], "sav", 3, env1), ([s[1], s[5], s[8]], "sav", 4, env1), (s[6:11] + m[6:8], "sav", 2, env1), (b[:4], "sav", 2, env3)]
            if T: groups = [(s, "sav", 3, env1), ([0, s[1], s[5], s[8]], "sav", 4, env1), ([s[2], s[9]], "sav", 5, env1), (m, "sav", 2, env1), (b, "sav", 2, env3)]
            for L, be, d, e in groups:
                cmds += [([exe, "life", kind, be, j(L), str(i), "8", str(d)], e) for i in range(8)]
                bounds.append("%s: lengths %s, depth %d, backends %s" % (kind, j(L), d, be))
    out = ck.run_workers(cmds, 400 if not T else 10000)
    tot = lambda k: sum(o[k] for o in out)
    ck.assumptions += ["allocations are those library code makes itself (malloc family and operator new, intercepted at link time); the runtimes' own allocations are not failed"]
    ck.finish(dict(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("states"), exhaustive=True,
                   failure_points=tot("points"), bound="; ".join(bounds),
                   samples=[dict(scenario="length 64, setup(10), allocation #1 fails, then setup(10) again"), dict(scenario="create(1024), all allocations from #2 fail")] if prop == "C10" else
                           [dict(history="create0(64) setup0(10) run0, then all destroyed"), dict(history="setup0(8) set1(64) destroy0")]))
if __name__ == "__main__":
    check.guarded(lambda: run(sys.argv[1]))
