"""C16: non-finite data (see DESIGN.md): every position x non-finite value x operation on the real code."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check

def lengths(kind, T):
    f = 2 if kind in "RD" else 1
    if kind == "B":
        return list(range(1, 129 if T else 41)) + [97, 127, 128, 129], [500, 513, 1000, 1025, 4097, 16385, 32769] + ([65537, 131071] if T else [])
    small = ([1] if kind == "C" else []) + list(range(2, 257 if T else 65, 2)) + [f * 2**k for k in range(6, 12 if T else 8)] + [f * n for n in (90, 98, 126, 130, 154)]
    big = [f * 2**k for k in range(9 if T else 8, 21 if T else 17)] + [f * n for n in (1000, 2002, 6000, 36036, 3 * 2**15, 2 * 3**10, 2 * 7**5, 2 * 5**7)] + ([65534] if T else [])
    return sorted(set(small)), sorted(set(big))

def run(prop):
    ck = check.Check(prop, "model_checking")
    T = check.TIER == "thorough"
    exe = build.program("nan", ["nan.cpp"], build.library("prod"), ["-fopenmp", "-frounding-math"])
    cmds, bounds = [], []
    j = lambda L: ",".join(map(str, L))
    for kind in "CRDB":
        s, b = lengths(kind, T)
        for i in range(4): cmds.append(([exe, kind, "sav", j(b), "0", str(i), "4"], {"OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"}))
        for i in range(4): cmds.append(([exe, kind, "sav", j(s), "1", str(i), "4"], {"OMP_NUM_THREADS": "1"}))
        bounds.append("%s: every position of lengths %s; 7 positions of lengths %s" % (kind, j(s), j(b)))
    out = ck.run_workers(cmds, 800 if not T else 12000)
    tot = lambda k: sum(o[k] for o in out)
    ck.assumptions += ["one non-finite element per call (a conjugate pair of bins for the inverse real transform), among generic finite ones"]
    ck.finish(dict(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("transitions"), exhaustive=True,
                   bound="all operations, 3 backends, {NaN, +Inf, -Inf} x component; " + "; ".join(bounds),
                   samples=[dict(kind="R", N=64, op="fwd", element=17, value="NaN"), dict(kind="D", N=100, op="inv", element=3, value="-inf")]))
if __name__ == "__main__":
    check.guarded(lambda: run(sys.argv[1]))
