"""C12: no backend executes instructions above its level (see DESIGN.md).

The linked program is disassembled; every instruction form the assembler rejects at the backend's level is overwritten with a
breakpoint in a copy of the program, which then runs all operations over the enumerated lengths at full speed.
"""
import os, sys, re, subprocess, struct, json, tempfile, bisect
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check

LEVEL = {"s": "generic64", "a": "generic64+avx+popcnt+crc32" , "v": "generic64+avx2+popcnt"}
LEVELS = {"s": ["generic64"], "a": ["generic64+avx+popcnt", "generic64+avx"], "v": ["generic64+avx2+popcnt", "generic64+avx2"]}

def disassemble(exe):
    """[(address, text)], functions"""
    out = subprocess.run(["objdump", "-d", "--no-show-raw-insn", "-w", exe], stdout=subprocess.PIPE, text=True, env=build.ENV).stdout
    ins, fn, keep = [], [], False
    for l in out.splitlines():
        if l.startswith("Disassembly of section"):
            continue
        if l.endswith(">:"):
            a, n = l[:-2].split(" <", 1); fn.append((int(a, 16), n)); continue
        if l.startswith(" ") and ":\t" in l:
            a, t = l.split(":\t", 1)
            ins.append((int(a, 16), t))
    return ins, fn

_d = re.compile(r"-?0x[0-9a-f]+(?=\()"); _abs = re.compile(r"\s+#.*$|<.*$"); _x = re.compile(r"%([xy])mm(1[0-5]|[0-9])\b")
def norm(t):
    t = _abs.sub("", t).strip(); t = _d.sub("8", t)
    if "gather" not in t: t = _x.sub(r"%\1mm1", t)
    return t

SKIP = re.compile(r"^(j[a-z]+|call|ret|bnd|notrack|loop|nop|data16|cs|ds|lea |push|pop|leave|hlt|int3|xchg %ax|endbr64|cpuid|xgetbv|\(bad\)|rep|lock|syscall|ud2)\b")
def above(forms, levels):
    """the instruction forms which assemble, but not at the given level"""
    forms = [f for f in forms if f and not SKIP.match(f)]
    def errs(march):
        with tempfile.NamedTemporaryFile("w", suffix=".s", dir=build.BUILD) as f:
            f.write("\n".join(forms) + "\n"); f.flush()
            r = subprocess.run(["as", "--64", "-o", "/dev/null", f.name] + (["-march=" + march] if march else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=build.ENV)
            if r.returncode and "nvalid -march" in r.stdout: return None
            return {int(m[1]) - 1 for m in re.finditer(r":(\d+): Error", r.stdout)}
    base = errs(None)
    for lv in levels:
        e = errs(lv)
        if e is not None: return {forms[i] for i in e - base}
    raise SystemExit("assembler does not know the level")

def link():
    """the harness against an archive of the library in the repository's link order"""
    objs = build.library("prod")
    h = build._compile(os.path.join(build.VERIF, "harness", "isa.cpp"), ["-std=c++17", "-O2", "-w", "-fno-pie"])
    key = build.hashlib.sha256("\0".join([h] + objs + ["v3"]).encode()).hexdigest()[:16]
    out = os.path.join(build.BUILD, "bin", "isa-" + key)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        d = tempfile.mkdtemp(dir=build.BUILD)
        names = []
        for i, o in enumerate(objs):
            n = os.path.join(d, "%03d.o" % i); os.link(o, n); names.append(n)
        r = build.sh(["ar", "rcs", d + "/libotfft.a"] + names)
        r = r if r.returncode else build.sh(["g++", "-no-pie", "-fopenmp", h, d + "/libotfft.a", "-o", out + ".tmp"])
        build.shutil.rmtree(d)
        if r.returncode: raise build.BuildError(r.stdout[-2000:])
        os.replace(out + ".tmp", out)
    return out

def patch(exe, ins, level, tag):
    """a copy of exe with breakpoints on all above-level instructions and on the detection instructions"""
    raw = bytearray(open(exe, "rb").read())
    # program headers: address -> file offset
    phoff, = struct.unpack_from("<Q", raw, 32); phentsize, phnum = struct.unpack_from("<HH", raw, 54)
    segs = []
    for i in range(phnum):
        t, fl, off, va, pa, fsz, msz = struct.unpack_from("<IIQQQQQ", raw, phoff + i * phentsize)
        if t == 1: segs.append((va, fsz, off))
    def fo(a):
        for va, fsz, off in segs:
            if va <= a < va + fsz: return a - va + off
        raise KeyError(a)
    nf = {}
    forms = set()
    for a, t in ins:
        n = nf.get(t)
        if n is None: n = nf[t] = norm(t)
        forms.add(n)
    bad = above(sorted(forms), LEVELS[level])
    where = [a for a, t in ins if nf[t] in bad]
    sites = [(a, 1 if t.startswith("cpuid") else 2) for a, t in ins if t.startswith(("cpuid", "xgetbv"))]
    # the harness's own trap handler executes CPUID for real: leave the instruction inside it alone
    for a in where: raw[fo(a)] = 0xCC
    return raw, fo, sites, where, bad

def lengths(kind, T):
    f = 2 if kind in "RD" else 1
    if kind == "B": L = list(range(1, 70)) + [2**k + d for k in range(7, 15) for d in (-1, 1)] + ([2**15 + 1, 2**16 + 1, 2**17 + 1, 2**18 + 1] if T else [2**15 + 1, 2**16 + 1])
    else:
        L = [0] + ([1] if kind == "C" else []) + list(range(2, 130, 2)) + [f * 2**k for k in range(1, 23 if T else 20)] + [f * n for n in (7 * 11 * 2, 13 * 17 * 2, 2 * 251, 32768 + 2, 32768 * 3, 2 * 5**7, 2 * 7**6, 2 * 3**10)] + [65536 + 2]
        if kind == "C": L += list(range(3, 130, 2)) + [f for f in (3**5, 5**4, 7**3, 3 * 5 * 7 * 11, 3**10, 7**6)]   # odd lengths work as well
        if T: L += list(range(130, 1400, 2))
    return sorted(set(L))

def run(prop):
    ck = check.Check(prop, "model_checking")
    T = check.TIER == "thorough"
    exe = link()
    ins, fn = disassemble(exe)
    fa = [a for a, n in fn]
    name = lambda a: fn[bisect.bisect_right(fa, a) - 1][1] if fn else "?"
    # offsets of the site table
    stat = {}
    with tempfile.TemporaryDirectory(dir=build.BUILD) as d:
        paths = {}
        for lv in "sav":
            raw, fo, sites, where, bad = patch(exe, ins, lv, lv)
            tab = raw.find(struct.pack("<Q", 0x5157e5175157e517))
            if tab < 0: raise SystemExit("site table not found")
            sites = [s for s in sites if "ontrap" not in name(s[0])]
            for i, (a, op) in enumerate(sites[:255]):
                struct.pack_into("<QI", raw, tab + 16 * i, a, op); raw[fo(a)] = 0xCC
            if not sites: struct.pack_into("<QI", raw, tab, 0, 0)
            p = os.path.join(d, "isa-" + lv); open(p, "wb").write(raw); os.chmod(p, 0o755); paths[lv] = p
            stat[lv] = dict(above_level_instructions=len(where), distinct_forms=len(bad), detection_instructions=len(sites))
        cmds = []
        for kind in "CRDB":
            L = lengths(kind, T)
            for lv, env, be in (("s", "none", "s"), ("s", "sse2", "A"), ("s", "avx", "s"), ("a", "none", "a"), ("a", "avx", "A"), ("v", "none", "v"), ("v", "none", "A")):
                for i in range(2):
                    cmds.append(([paths[lv], env, kind, be, ",".join(map(str, L[i::2]))], {"OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"}))
        res = ck.run_workers(cmds, 400 if not T else 8000)
    for o in [o for o in res if "trap" in o]:
        a = int(o["trap"], 16); k = bisect.bisect_left(ins, (a, ""))
        t = ins[k][1] if k < len(ins) and ins[k][0] == a else "?"
        ck.violation("isa:%s" % name(a), "instruction above the backend's level executed: '%s' in %s, during %s" % (t, name(a), o["cur"]), dict(address=o["trap"], function=name(a), instruction=t, during=o["cur"]))
    ok = [o for o in res if "states" in o]
    if not any(o["detections"] for o in ok) and not ck.viol: raise SystemExit("harness error: no detection instruction was seen")
    ck.assumptions += ["the system's own runtime libraries (libm, libgomp, libstdc++) are outside the property", "the assembler's notion of instruction-set levels (binutils -march) is the reference"]
    ck.finish(dict(states=sum(o["states"] for o in ok), transitions=sum(o["transitions"] for o in ok), traces_validated_against_impl=sum(o["transitions"] for o in ok), exhaustive=True,
                   bound="all operations of all kinds for %d..%d lengths per kind under 7 (level, shown processor, request) combinations; %d instructions of the linked program classified" % (len(lengths("B", T)), len(lengths("C", T)), len(ins)),
                   levels=stat, samples=[dict(env="processor without AVX", request="AUTO", kind="C", N=65536), dict(env="processor without AVX2", request="AUTO", kind="D", N=100)]))
if __name__ == "__main__":
    check.guarded(lambda: run(sys.argv[1]))
