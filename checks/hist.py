"""C06: history independence over exhaustive bounded histories (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check

CL = [0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 6, 10, 14, 22, 30, 60, 34]
MID = [1024, 2048, 4096, 8192, 16384, 210, 1000, 2002, 36, 12]
BIG = [32768, 65536, 131072, 262144, 32768 * 3, 24]

def lens(kind, L):
    if kind in "RD": return [2 * n for n in L]
    if kind == "B": return [n if n < 3 else n - 1 if i % 2 else n + 1 for i, n in enumerate(L)]
    return L

def run(prop):
    ck = check.Check(prop, "model_checking")
    T = check.TIER == "thorough"
    exe = build.program("hist", ["hist.cpp", "alloc.cpp"], build.library("prod"), ["-fopenmp"])
    cmds, bounds = [], []
    env = {"OMP_NUM_THREADS": "1"}
    def add(mode, kind, be, L, depth, fill, ns=8):
        l = ",".join(map(str, L)); r = "%d..%d" % (L[0], L[-1]) if mode == "near" else l
        cmds.extend(([exe, mode, kind, be, l, str(i), str(ns), str(depth), str(fill)], env) for i in range(ns))
        bounds.append("%s %s depth %d lengths %s backends %s fill %d" % (mode, kind, depth, r, be, fill))
    for kind in "CRDB":
        f = lambda L: lens(kind, L)
        st = 1 if kind == "B" else 2
        add("near", kind, "sav", list(range(st, 4001 if T else 481, st)), 2, 2)
        if T:
            add("chain", kind, "sav", f(CL), 3, 3, 16)
            add("chain", kind, "sav", f(CL + MID[:3]), 3, -1, 16)
            add("two", kind, "sav", f([4, 64, 10]), 4, -1, 16)
            add("chain", kind, "sav", f(BIG), 3, -1, 16)
            add("chain", kind, "sav", f(CL[1:12:2] + [6, 14, 0]), 4, 2, 16)
            add("chain", kind, "sav", f(CL + MID), 2, 0, 16)
            add("chain", kind, "sav", f(BIG + [524288, 1048576] if kind != "B" else BIG), 2, 3, 8)
            add("ops", kind, "sav", f([1, 2, 4, 8, 32, 64, 128, 6, 10, 14, 22, 1024]), 3, 2, 8)
            add("two", kind, "sav", f([0, 4, 128]), 4, 2, 16)
            add("two", kind, "sav", f([8, 10, 64]), 4, 3, 16)
        else:
            add("chain", kind, "sav", f(CL), 3, 3)
            add("chain", kind, "sav", f(CL), 3, -1)
            add("two", kind, "sav", f([4, 64, 10]), 3, -1)
            add("chain", kind, "sav", f(MID[:5 if kind != "B" else 4] + MID[5:] + [8, 64]), 2, -1)
            add("chain", kind, "a", f(BIG if kind != "B" else [16384, 32768, 24]), 2, -1)
            add("chain", kind, "sav", f(MID[:5 if kind != "B" else 4] + MID[5:] + [8, 64]), 2, 2)
            add("chain", kind, "v" if kind != "C" else "sav", f(BIG if kind != "B" else [16384, 32768, 24]), 2, 3)
            add("ops", kind, "sav", f([1, 2, 4, 8, 64, 128, 6, 10, 14]), 2, 2, 2)
            add("ops", kind, "sav", f([8, 64, 10]), 3, 0, 4)
            add("two", kind, "sav", f([4, 64, 10]), 3, 2)
    out = ck.run_workers(cmds, 400 if not T else 12000)
    tot = lambda k: sum(o[k] for o in out)
    ck.assumptions += ["inputs are two fixed dense vectors per length and operation; data values are not enumerated here (they are in C01-C04)"]
    ck.finish(dict(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("states"), exhaustive=True, bound="; ".join(bounds),
                   samples=[dict(history="create(64) run setup(10) run setup(64), all operations"), dict(history="0=create(C,64) 1=RAVX(10) 0.setup(4) 1.run destroy1, all operations"), dict(history="fwd/0 inv/1 fwd0/0 on one instance")]))
if __name__ == "__main__":
    check.guarded(lambda: run(sys.argv[1]))
