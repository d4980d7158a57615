"""C19: work and memory in proportion to the length (see DESIGN.md): counted on every execution."""
import os, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, check
from num import maxprime, representatives

# limits, as multiples of the units of harness/cost.cpp: work of a transform, work of setup, trigonometric calls, memory held
LIM = {"C": (2.5, 7.0, 2.5, 5.7), "R": (1.4, 10.0, 2.5, 4.0), "D": (2.0, 17.0, 4.0, 8.8), "B": (2.2, 9.0, 3.0, 11.5)}

def lengths(k, T):
    out = []
    if k == "B":
        out += [(n, "sav") for n in range(1, 2049 if T else 400)]
        out += [(2**i + d, "sav") for i in range(9, 20 if T else 15) for d in (-1, 0, 1)]
        out += [(n, "v" if not T else "sav") for n in (46337, 65521, 100003) + ((1000003, 2**20 + 7) if T else ())]
        return out
    f = 1 if k == "C" else 2
    out += [(n, "sav") for n in range(2, 4097 if T else 700, 2) if maxprime(n) < (2000 if T else 150)]
    out += [(2**i, "sav") for i in range(9, 23 if T else 18)]
    out += [(f * n, "sav" if T else "v") for n in representatives(2**15, 2**15 * (4 if T else 2), 800 if T else 60, 2 // f)]
    out += [(2 * f * p**a, "sav" if T else "v") for p, a in ((3, 9), (5, 6), (7, 5), (11, 4), (13, 4), (17, 3), (31, 3), (101, 2))]
    out += [(2 * f * n, "sav" if T else "v") for n in (7 * 11 * 13 * 17, 31 * 37, 13 * 101, 499, 1009, 2003) + ((4001, 10007) if T else ())]
    return sorted(set(out), key=lambda x: -x[0] * maxprime(x[0]))

STACK = 32768
def stack_lengths(k, T):
    f = 1 if k in "CB" else 2
    L = list(range(1 if k == "B" else 2, 2000 if T else 400, 1 if k == "B" else 2)) + [2**i for i in range(9, 23 if T else 20)]
    if k == "B": return L + [2**i + 1 for i in range(9, 20)] + [10007, 65521, 100003]
    return L + [f * n for n in representatives(2**15, 2**15 * (4 if T else 2), 800 if T else 100, 2 // f)] + [2 * f * p for p in (499, 1009, 2003, 4001)] + [f * 2 * 3**9, f * 2 * 5**7, f * 2 * 7**6]

def run(prop):
    ck = check.Check(prop, "model_checking")
    T = check.TIER == "thorough"
    exe = build.program("cost", ["cost.cpp", "alloc.cpp"], build.library("tsan"), ["-no-pie"], ["-lgomp", "-lpthread"] + ["-Wl,--wrap=" + w for w in "memcpy memmove memset sin cos tan exp sincos".split()])
    with tempfile.TemporaryDirectory(prefix="cost", dir=build.BUILD) as d:
        cmds, nl = [], {}
        for k in "CRDB":
            L = lengths(k, T); nl[k] = len(L)
            p = os.path.join(d, k); open(p, "w").write("".join("%d %s\n" % x for x in L))
            cmds += [([exe, k, p, str(i), "8"] + [str(v) for v in LIM[k]], {"OMP_NUM_THREADS": "1"}) for i in range(8)]
        out = ck.run_workers(cmds, 800 if not T else 8000)
        # the stack of every call, in the production build; the stacks of team threads are the smallest in use (64 KiB)
        st, sc = build.program("stack", ["stack.cpp"], build.library("prod"), ["-fopenmp"]), []
        for k in "CRDB":
            p = os.path.join(d, k + "stack"); open(p, "w").write("".join("%d sav\n" % n for n in stack_lengths(k, T)))
            for th in (1, 4): sc += [([st, k, p, str(i), "2", str(STACK)], {"OMP_NUM_THREADS": str(th), "OMP_STACKSIZE": "64k", "OMP_WAIT_POLICY": "passive"}) for i in range(2)]
        so = ck.run_workers(sc, 400 if not T else 4000)
    tot = lambda k: sum(o[k] for o in out)
    worst = {}
    for c, o in zip(cmds, out):
        for w, v in o["worst"].items():
            m = max(v); key = c[0][1] + " " + w
            if m > worst.get(key, [0]): worst[key] = m
    ck.assumptions += ["stack use is that of the production build, with one thread and with teams of four whose stacks have 64 KiB", "work is the number of bytes of memory accesses the compiler's thread instrumentation reports in the library at -O1, one thread; memory is what the library holds from the allocator"]
    ck.finish(dict(states=tot("states") + sum(o["states"] for o in so), transitions=tot("execs") + sum(o["execs"] for o in so), traces_validated_against_impl=tot("execs") + sum(o["execs"] for o in so), largest_stack_of_a_call=max([o["stack"] for o in so] + [[0, 0]]), exhaustive=True,
                   bound="lengths per kind %s, all operations, first set-up, set-up after a shorter and after a longer length, dense and zero data; limits %s; stack of every call at most %d bytes" % (nl, LIM, STACK),
                   worst_ratio_and_length=worst, samples=[dict(kind="B", N=46337, backend="AVX2", operation="fwd")]))
if __name__ == "__main__":
    check.guarded(lambda: run(sys.argv[1]))
