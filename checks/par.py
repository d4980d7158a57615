"""C08: parallel execution (see DESIGN.md): exhaustive happens-before exploration under a replaced OpenMP runtime."""
import os, sys, re, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check

WRAP = "memcpy,memset,memmove,pthread_mutex_lock,pthread_mutex_unlock,pthread_mutex_trylock,pthread_once".split(",")
LIBS = ["-no-pie", "-lpthread"] + ["-Wl,--wrap=" + w for w in WRAP]

def locate(exe, viol):
    """Source lines for the program counters of the first few reports (one symboliser run)."""
    head, tail = viol[:12], viol[12:]
    pcs = sorted({int(h, 16) for _, t, _ in head for h in re.findall(r"@([0-9a-f]+)", t)} - {0})
    names = {}
    if pcs:
        try:
            r = subprocess.run(["addr2line", "-e", exe, "-s", "-i", "-a"] + [hex(a - 1) for a in pcs], capture_output=True, text=True, timeout=120).stdout.split("\n")
            for l in r:   # an address line, then the inlined frames from the inside out: take the first one of the repository
                if l.startswith("0x"): at = int(l, 16) + 1
                elif "otfft" in l and not re.match(r"otfft_(misc|complex|types)", l): names.setdefault(at, l.split(" ")[0])
        except (subprocess.TimeoutExpired, OSError): pass
    f = lambda m: "[%s]" % names.get(int(m[1], 16), m[1])
    return [(k, re.sub(r"@([0-9a-f]+)", f, t), r) for k, t, r in head] + tail

POW = [1 << k for k in range(1, 11)]
SMALL = [2048, 4096, 8192, 16384, 32768, 65536, 131072]
# >= 2^15: every prime-power leaf and combination of the mixed-radix kernels (2,3,4,5,7,8,9,11,13,.. and general primes)
MIX = [3 << 14, 5 << 13, 7 << 13, 11 << 12, 13 << 12, 15 << 12, 21 << 11, 35 << 10, 59049, 78125 // 5 * 6, 50421, 35937, 33614, 36015, 37349, 34500 // 4 * 4, 32770, 65534, 3 << 16]
PRIME = [32776, 46341, 32774, 33698]
BIG = [1 << 18, 1 << 19]
HUGE = [1 << 20, 1 << 21]
REAL = [32768, 65536, 131072, 3 << 15, 65534, 70000]
BLU = [1025, 2049, 4097, 8193, 16385, 32767, 32768, 32769, 65535]

def run(prop):
    ck = check.Check(prop, "model_checking")
    T = check.TIER == "thorough"
    race = build.program("par-tsan", ["par.cpp", "sched.cpp"], build.library("tsan"), [], LIBS)
    prod = build.library("prod")
    bits = build.program("par-prod", ["par.cpp", "sched.cpp"], prod, ["-DSCHED_MAXT=136"], LIBS)
    real = build.program("par-real", ["par.cpp"], prod, ["-fopenmp", "-DREAL"])
    cmds, bounds = [], []
    def add(mode, kind, be, L, lvl, ops, cost):
        exe = {"race": race, "bits": bits, "real": real}[mode]
        for b in be:
            for n in L:
                cmds.append((cost * n, [exe, mode, kind, b, str(n), str(lvl), ops]))
        bounds.append("%s %s lengths %s backends %s policies level %d operations %s" % (mode, kind, ",".join(map(str, L)), be, lvl, ops))
    if T:
        add("race", "C", "sav", POW + SMALL, 3, "all", 100)
        add("race", "C", "sav", MIX, 2, "all", 100)
        add("race", "C", "sav", BIG, 2, "all", 100)
        add("race", "C", "sav", HUGE, 1, "all", 20)
        add("race", "C", "sav", PRIME, 1, "few", 800)
        for k in "RD": add("race", k, "sav", REAL + [1 << 18, 4096, 16384], 2, "all", 40)
        add("race", "B", "sav", BLU + [131073, 40000], 2, "all", 100)
        for k, L in (("C", POW + SMALL + MIX + BIG), ("R", REAL + [4096, 16384, 1 << 18]), ("D", REAL + [4096, 16384, 1 << 18]), ("B", BLU)):
            add("bits", k, "sav", L, 3, "all", 3)
            add("real", k, "sav", L, 3, "all", 3)
        add("bits", "C", "sav", HUGE + [1 << 22, 1 << 23, 1 << 24], 1, "all", 3)
    else:
        add("race", "C", "sav", POW[::3], 0, "few", 1)
        add("race", "C", "sav", SMALL[:5], 2, "all", 60)
        add("race", "C", "sav", SMALL[5:], 1, "few", 16)
        add("race", "C", "a", MIX, 1, "few", 20)
        add("race", "C", "sv", MIX, 0, "few", 10)
        add("race", "C", "sav", BIG, 0, "few", 10)
        add("race", "C", "a", HUGE[1:], 0, "few", 12)
        add("race", "C", "v", HUGE[:1], 0, "few", 12)
        for k in "RD": add("race", k, "sav", REAL[:5], 0, "few", 6); add("race", k, "a", REAL[5:], 1, "few", 8)
        add("race", "B", "sav", BLU[3:], 0, "few", 20)
        for k, L in (("C", POW + SMALL + MIX), ("R", REAL), ("D", REAL), ("B", BLU)):
            add("bits", k, "sav", L, 2 if k in "CB" else 1, "all", 2)
        for k, L in (("C", SMALL[:5] + MIX[:4]), ("R", REAL[:3]), ("D", REAL[:3]), ("B", BLU[5:])):
            add("real", k, "a", L, 1, "few", 2)
        add("bits", "C", "sav", BIG, 1, "few", 2)
    cmds = [c for _, c in sorted(cmds, key=lambda c: -c[0])]
    out = ck.run_workers(cmds, 600 if not T else 12000, {"OMP_THREAD_LIMIT": "128"})
    ck.viol = locate(race, ck.viol)
    tot = lambda k: sum(o[k] for o in out)
    ck.assumptions += ["a data-race-free trace stands for every interleaving with the same order of synchronisation operations; the code has no order-dependent synchronisation other than barriers, region boundaries and single blocks, whose outcomes are enumerated by the policies",
                       "the memory accesses seen are those the compiler's thread instrumentation reports at -O1 plus memcpy/memset/memmove; the production build is additionally run bit-exactly under the same schedules"]
    ck.finish(dict(states=tot("states"), schedules=tot("states"), transitions=tot("cases"), parallel_regions=tot("regions"), barriers=tot("barriers"), context_switches=tot("switches"), memory_accesses=tot("accesses"), largest_team=max([o["maxteam"] for o in out] + [0]),
                   parallel_lengths=tot("parallel_lengths"), traces_validated_against_impl=tot("states"), exhaustive=True, bound="; ".join(bounds),
                   samples=[dict(schedule="setup and every transform of N=32768 with teams of 3, members in order 2,1,0 within every phase"), dict(schedule="teams per region 3,1,2,3,1,2,...")]))
if __name__ == "__main__":
    check.guarded(lambda: run(sys.argv[1]))
