"""C05: dispatch under every consistent feature environment."""
import os, sys, re, hashlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check

def trapped_common():
    """The dispatcher's translation units with cpuid/xgetbv turned into intercepted traps (assembly level, -O3 as shipped)."""
    objs = []
    for src, grp, fl in build.commands():
        if grp != "common": continue
        inc = ["-I" + build.REPO + "/inc", "-I" + build.REPO + "/src", "-I" + build.config_header()]
        s = os.path.join(build.BUILD, "disp-%d-%s.s" % (os.getpid(), os.path.basename(src)))
        r = build.sh(["g++"] + fl + inc + ["-w", "-S", src, "-o", s])
        if r.returncode: raise build.BuildError(r.stdout[-3000:])
        t = open(s).read()
        t, n1 = re.subn(r"(?m)^(\s*)cpuid\b", r"\1ud2; .byte 1", t)
        t, n2 = re.subn(r"(?m)^(\s*)xgetbv\b", r"\1ud2; .byte 2", t)
        open(s, "w").write(t)
        r = build.sh(["g++", "-c", s, "-o", s + ".o"])
        if r.returncode: raise build.BuildError(r.stdout[-3000:])
        h = hashlib.sha256(open(s + ".o", "rb").read()).hexdigest()[:24]
        o = os.path.join(build.BUILD, "obj", "disp-%s.o" % h)
        os.makedirs(os.path.dirname(o), exist_ok=True)
        os.replace(s + ".o", o); os.unlink(s)
        objs.append(o)
    return objs

def run(prop):
    ck = check.Check(prop, "model_checking")
    thorough = check.TIER == "thorough"
    lib = [o for o in build.library("prod", groups=("sse2", "avx", "avx2"))]
    exe = build.program("disp", ["disp.cpp"], trapped_common() + lib, ["-fopenmp"])
    n = 16
    out = ck.run_workers([[exe, str(i), str(n), "1"] for i in range(n)], 800)
    ck.assumptions += ["environments are those an x86-64 processor/OS pair can report (AVX implies XSAVE, AVX2 implies AVX and leaf 7, OSXSAVE implies XSAVE, XCR0 readable only with OSXSAVE); reading a leaf above the maximum returns the highest leaf's data",
                       "the backend of an object is told from its dynamic type; that each backend keeps to its instruction set is C12"]
    tot = lambda k: sum(o[k] for o in out)
    ck.finish(dict(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("states"), exhaustive=True,
                   environments_without_noise=out[0]["base"] if out else 0, intercepted_cpuid=tot("cpuid"), intercepted_xgetbv=tot("xgetbv"),
                   bound="every consistent environment over maximum leaf, SSE2, XSAVE, OSXSAVE, AVX, AVX2, XCR0, times all-zero/all-one background and every single irrelevant bit flipped; per environment 4 transform kinds x 4 requests x 2 rounds, each a real factory call and deletion in a fresh process",
                   samples=[o["sample"] for o in out[:3]]))

if __name__ == "__main__":
    check.guarded(lambda: run(sys.argv[1]))
