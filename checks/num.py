"""C01..C04: exhaustive numeric exploration of the transforms against exact columns (see DESIGN.md)."""
import os, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check

KIND = {"C01": "C", "C02": "R", "C03": "D", "C04": "B"}
NAME = {"C": "complex FFT", "R": "real FFT", "D": "DCT", "B": "Bluestein FFT"}

def maxprime(n):
    b, p = 1, 2
    while p * p <= n:
        while n % p == 0: b, n = max(b, p), n // p
        p += 1
    return max(b, n)

def sig(n):
    r = []
    for p, cap in ((2, 7), (3, 3), (5, 3)):
        c = 0
        while n % p == 0: n //= p; c += 1
        r.append(min(c, cap))
    # number of further prime factors, and whether the first is 7
    f, p = [], 7
    while n > 1:
        if p * p > n: p = n
        if n % p == 0: f.append(p); n //= p
        else: p += 2
    r.append((min(len(f), 3), bool(f) and f[0] == 7, len(set(f)) > 1))
    return tuple(r)

def representatives(lo, hi, maxp, step=1, limit=None):
    """the smallest n >= lo of every factorisation signature (capped exponents) found below hi"""
    seen, out = set(), []
    for n in range(lo, hi, step):
        if maxprime(n) > maxp: continue
        s = sig(n)
        if s not in seen:
            seen.add(s); out.append(n)
    return out

def jobs(kind, thorough):
    S, M, B = [], [], []      # small: one thread each; mid: teams of 3; big: teams of 8
    ev = 1 if kind == "B" else 2
    f = 2 if kind in "RD" else 1          # the inner transform has half the length
    if kind == "B":
        S += [("basis", n, "sav", "ff") for n in range(1, 601 if thorough else 161)]
        S += [("dense", n, "sav", "ff") for n in range(1, 4097 if thorough else 1100)]
        near = [2**k + d for k in range(11, 20 if thorough else 17) for d in (-2, -1, 0, 1, 2)] + [2**14 + 2**13 + d for d in range(3)]
        near += [10007, 46337, 46340, 46341, 46349, 65519, 65521, 65535, 65537, 92681, 92682, 92683]
        M += [("dense" if maxprime(n) < 400 else "light", n, "sav", "ff") for n in near]
        big = [2**k + d for k in range(18, 23 if thorough else 20) for d in (-1, 1)] + [1000003]
        B += [("dense" if maxprime(n) < 400 else "light", n, "sav" if thorough or n < 600000 else "v", "ff") for n in big]
        if thorough: B += [("light", n, "v", "66") for n in (2**23 + 1, 2**24 - 3, 2**24 + 43)]
        B += [("huge", n, "sav", "ff") for n in (2**25 + 1, 3**15)] + [("huge", 2**26 + 1, "v", "22"), ("huge", 2**26, "a", "22")] if thorough else [("huge", 2**22 + 1, "v", "22")]
        return S, M, B
    S += [("basis", n, "sav", "ff") for n in range(2, 1001 if thorough else 241, 2)]
    S += [("basis", 2**k, "sav", "ff") for k in range(8, 13 if thorough else 12)]
    if kind == "C":     # odd lengths: not promised, but what a real transform of twice the length runs on
        S += [("basis", n, "sav", "ff") for n in [1] + list(range(3, 162 if thorough else 62, 2))]
        S += [("dense", n, "sav", "ff") for n in list(range(63, 2048 if thorough else 300, 2)) + [375, 693, 1155, 3375, 4095, 10125]]
        M += [("dense", n, "sav", "ff") for n in (32769, 32805, 45045)]
    S += [("dense", n, "sav", "ff") for n in range(2, 8193 if thorough else 1900, 2)]
    S += [("denormal", n, "sav", "ff") for n in ([2**k for k in range(1, 15)] + [6, 10, 30, 14, 2310]) if kind != "D"]
    lo = 2**15
    M += [("dense", f * n, "sav", "ff") for n in representatives(lo, lo * (8 if thorough else 3), 4000 if thorough else 60, 2 // f)]
    M += [("dense", n, "sav", "ff") for n in range(lo - 8, lo + 10, 2) if maxprime(n) < 300]
    M += [("dense", n, "sav", "ff") for n in range(2**16 - 6, 2**16 + 8, 2) if maxprime(n) < 300]
    M += [("dense", 2**k, "sav", "ff") for k in range(11, 18)]
    M += [("light", f * 2 * p, "v" if not thorough else "sav", "66") for p in (10007, 5003)]
    M += [("dense", f * 3**a, "sav", "ff") for a in range(8, 12) if f == 2] + [("dense", 2 * 5**a, "sav", "ff") for a in (6, 7, 8)] + [("dense", 2 * 7**a, "sav", "ff") for a in (5, 6)]
    B += [("dense", 2**k, "sav", "ff") for k in range(18, 25 if thorough else 21)]
    if not thorough:
        B += [("dense", 2**21, "sav", "ff" if kind == "C" else "99"), ("light", 2**22, "sav", "ff" if kind == "C" else "66")]
        B += [("light", 2**k, "sav" if kind == "C" else "v", o) for k, o in ((23, "66"), (24, "66"))]
        B += [("light", n, "sav" if kind == "C" else "v", "ff") for n in (10**6, 3 * 2**19, 2 * 3**13, 2 * 7**7, 2 * 5**9, 11 * 13 * 2**13, 2**20 + 2**10)]
    else:
        B += [("light", 2**25, "sav", "ff"), ("light", 2**26, "v", "66"), ("light", 2**27, "v", "22"), ("light", 3 * 2**23, "sav", "66"), ("light", 5 * 2**22, "sav", "66"), ("dense", 10**6, "sav", "ff"), ("dense", 10**7, "sav", "66"), ("light", 2 * 3**15, "v", "66"), ("light", 2 * 5**10, "v", "66"), ("light", 2 * 7**8, "v", "66")]
    if thorough: B += [("huge", 2**28, "sav" if kind == "C" else "v", "22"), ("huge", 2**27, "sav", "ff"), ("huge", 3 * 2**26, "v", "22"), ("huge", f * 3**16 * (3 - f), "a", "22"), ("huge", 2 * 5**11, "v", "22"), ("huge", 2 * 7**9, "s", "22"), ("huge", 2 * 3 * 5 * 7 * 11 * 13 * 17 * 19, "v", "22")]
    if thorough and kind == "C": B += [("huge", 2**29, "v", "22"), ("huge", 2**29, "s", "2")]
    if not thorough: B += [("huge", 2**26 if kind != "D" else 2**25, "v", "22")]
    # a prime factor whose square exceeds the int range: 46349
    if kind == "C" or thorough: M.insert(0, ("light", f * 2 * 46349, "v", "22"))
    return S, M, B

def run(prop):
    kind = KIND[prop]
    ck = check.Check(prop, "model_checking")
    thorough = check.TIER == "thorough"
    exe = build.program("num", ["num.cpp"], build.library("prod"), ["-fopenmp"])
    S, M, B = jobs(kind, thorough)
    with tempfile.TemporaryDirectory(prefix="num", dir=build.BUILD) as d:
        cmds = []
        def add(nm, L, shards, threads):
            p = os.path.join(d, nm)
            open(p, "w").write("".join("%s %d %s %s\n" % j for j in L))
            return [([exe, kind, p, str(i), str(shards)], {"OMP_NUM_THREADS": str(threads), "OMP_DYNAMIC": "false", "OMP_WAIT_POLICY": "passive"}) for i in range(shards)]
        out = ck.run_workers(add("small", S, 24, 1) + add("mid", M, 24, 3), 860 if not thorough else 20000)
        out += ck.run_workers(add("big", B, 1, 8), 800 if not thorough else 20000)
    tot = lambda k: sum(o[k] for o in out)
    worst = {}
    for o in out:
        for c, (v, n, op) in o["worst"].items():
            if v > worst.get(c, [0])[0]: worst[c] = [v, n, op]
    lens = sorted({j[1] for j in S + M + B})
    ck.assumptions += ["linearity of the transform is established per length by full basis columns (basis jobs) and per length class by dense, multi-impulse and power-of-two scaled inputs; values other than these are covered by linearity, not enumerated",
                       "long-double sinl/cosl of the C library, reduced to an eighth turn with exact integer arithmetic, are the reference"]
    ck.finish(dict(states=tot("columns"), transitions=tot("evals"), traces_validated_against_impl=tot("evals"), exhaustive=True,
                   bound="states: (length, backend set, input column); transitions: executed transform operations, each compared element by element with the exact column. "
                         "Basis-complete: lengths %s. Dense: %d further lengths up to %d." % (_ranges([j[1] for j in S if j[0] == "basis"]), len(lens), max(lens)),
                   jobs=tot("jobs"), worst_error_in_eps_of_input_norm=worst,
                   samples=[dict(mode=j[0], N=j[1], backends=j[2], ops_mask=j[3]) for j in (S[5], S[-1], M[len(M) // 2], B[0])]))

def _ranges(v):
    v = sorted(set(v)); return "%d..%d (%d lengths)" % (v[0], v[-1], len(v))

if __name__ == "__main__":
    build.guarded = check.guarded
    check.guarded(lambda: run(sys.argv[1]))
