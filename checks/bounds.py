"""C07: memory confinement, alignment and initialisation (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check

def lengths(kind, T):
    f = 2 if kind in "RD" else 1
    if kind == "B":
        small = list(range(1, 601 if T else 140)); mid = [2**k + d for k in range(8, 14) for d in (-1, 0, 1)] + [10007, 1000]
        big = [2**k + d for k in (14, 15, 16) for d in (-1, 0, 1)] + ([2**17 - 1, 2**17 + 1, 2**18 - 1, 2**20 + 1] if T else [])
    else:
        small = ([1] if kind == "C" else []) + list(range(2, 1201 if T else 300, 2)); mid = [f * 2**k for k in range(8, 14)] + [f * n for n in (2 * 311, 2 * 7 * 11 * 13, 3**6 * 2, 5**4 * 2, 2000, 6000, 2 * 4999)]
        big = [f * 2**k for k in range(14, 22 if T else 19)] + [f * n for n in (32768 + 6, 32768 * 3, 2 * 3**10, 2 * 5**7, 2 * 7**6)] + [65536 - 2, 65536 + 2]
    return small, mid, big

def run(prop):
    ck = check.Check(prop, "model_checking")
    T = check.TIER == "thorough"
    exe = build.program("bounds", ["bounds.cpp", "alloc.cpp"], build.library("prod"), ["-fopenmp"])
    cmds, bounds = [], []
    for kind in "CRDB":
        s, m, b = lengths(kind, T)
        for L, be, n, th in ((s, "sav", 8, 1), (m, "sav", 8, 1), (b, "sav", 8, 2)):
            l = ",".join(map(str, sorted(set(L))))
            cmds += [([exe, kind, be, l, str(i), str(n)], {"OMP_NUM_THREADS": str(th), "OMP_WAIT_POLICY": "passive"}) for i in range(n)]
            bounds.append("%s: %d lengths up to %d" % (kind, len(L), max(L)))
    out = ck.run_workers(cmds, 400 if not T else 10000)
    # the documented maximum lengths, on aliased memory
    mx = build.program("maxlen", ["maxlen.cpp"], build.library("prod"), ["-fopenmp"], ["-Wl,--wrap=" + w for w in "malloc calloc posix_memalign aligned_alloc memalign free".split()])
    P30, MIX30 = 2**30, [3 * 5 * 2**26, 2 * 3**18, 4 * 5**12, 7 * 2**27, 31 * 2**25]
    if T: jobs = [(k, b, n, "ff") for k in "CRD" for b in "sav" for n in [P30, 2**29] + (MIX30 if b == "v" else [])] + [("B", b, n, "ff") for b in "sav" for n in (2**28, 2**28 - 1, 2**27 + 1, 2**27 - 1)]
    else: jobs = [("C", "v", P30, "ff"), ("C", "a", P30, "10"), ("C", "s", P30, "02"), ("R", "v", P30, "11"), ("D", "v", P30, "11"), ("B", "v", 2**28, "01")]
    mo = [o for o in ck.run_workers([[mx, k, b, str(n), ops] for k, b, n, ops in jobs], 600 if not T else 3000, {"OMP_WAIT_POLICY": "passive"}, 3)]
    ck.cov_max = dict(jobs=len(jobs), skipped=sum(o.get("skipped", 0) for o in mo), executions=sum(o.get("execs", 0) for o in mo), lengths=sorted({j[2] for j in jobs}))
    tot = lambda k: sum(o[k] for o in out)
    ck.assumptions += ["at the maximum lengths memory is aliased (all arrays show the same 8 MiB): the addresses accessed do not depend on the values", "accesses inside the same page but outside a block are seen only when the block lies against the guard on that side (both sides are enumerated) or when they write to the canaried gap",
                       "uninitialised reads are seen through their effect on the result under four memory patterns"]
    ck.finish(dict(maximum_lengths=ck.cov_max, states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("transitions"), exhaustive=True,
                   bound="all operations, 3 backends, 10 configurations of (guard side, memory pattern, argument placement incl. 8/16/24-byte offsets) for " + "; ".join(bounds),
                   samples=[dict(kind="R", N=100, op="fwd", arrays="input write-protected, ends at a guard page"), dict(kind="C", N=2048, op="inv", arrays="8 bytes off")]))
if __name__ == "__main__":
    check.guarded(lambda: run(sys.argv[1]))
