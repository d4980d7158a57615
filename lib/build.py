"""Build variants of the library from /repo's current working tree into /verif/.build.

The compile commands come from the repository's own CMake configuration (so flags, source lists and
per-backend defines are the real ones); a variant only rewrites flags.  Objects are cached under the hash
of (preprocessed source, command): an unchanged translation unit is not compiled twice, a changed one
always is.
"""
import os, sys, json, hashlib, subprocess, shlex, shutil, tempfile, concurrent.futures as cf, fcntl, glob, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OTFFT_REPO", "/repo")
BUILD = os.environ.get("OTFFT_VERIF_BUILD", os.path.join(VERIF, ".build"))
ENV = dict(os.environ, LC_ALL="C.UTF-8", CC="gcc", CXX="g++")
for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS"):
    ENV.pop(k, None)
NPROC = os.cpu_count() or 8

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, **kw)

_BASE = ("-DUNIX -fPIC -fvisibility=hidden -fvisibility-inlines-hidden -DBUILD_X64 -fopenmp -O3 -DNDEBUG -msse "
         "-msse2 -mfpmath=sse -std=c++11 -frounding-math -fno-finite-math-only -fsignaling-nans -fpermissive").split()

def _fallback():
    out = []
    out.append((REPO + "/src/otfft.cpp", "common", _BASE + ["-DUSE_SSE2", "-DUSE_AVX", "-DUSE_AVX2"]))
    for be, fl in (("sse2", ["-msse2", "-DUSE_SSE2", "-DOTFFT_NAMESPACE=OTFFT_SSE2"]),
                   ("avx", ["-mavx", "-DUSE_AVX", "-DOTFFT_NAMESPACE=OTFFT_AVX"]),
                   ("avx2", ["-mavx2", "-DUSE_AVX2", "-DOTFFT_NAMESPACE=OTFFT_AVX2"])):
        for f in sorted(glob.glob(REPO + "/src/otfft_algo*.cpp")):
            out.append((f, be, _BASE + fl))
    return out

def commands():
    """[(source, group, flags)] of the library's translation units, as the repository's build has them."""
    os.makedirs(BUILD, exist_ok=True)
    cfg = tempfile.mkdtemp(prefix="cfg", dir=BUILD)
    try:
        r = sh(["cmake", "-S", REPO, "-B", cfg, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DBUILD_TESTING=OFF",
                "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", "-Wno-dev"])
        out = []
        if r.returncode == 0:
            for e in json.load(open(cfg + "/compile_commands.json")):
                f = os.path.realpath(os.path.join(e["directory"], e["file"]))
                if not f.startswith(os.path.realpath(REPO) + "/src/"):
                    continue
                a = shlex.split(e["command"])[1:]
                fl, obj, i = [], "", 0
                while i < len(a):
                    if a[i] == "-o":
                        obj = a[i + 1]; i += 2; continue
                    if a[i] == "-c":
                        i += 2; continue
                    if a[i].startswith("-W") or a[i] == "-pedantic":
                        i += 1; continue
                    fl.append(a[i]); i += 1
                d = [x for x in fl if x.startswith("-DOTFFT_NAMESPACE=")]
                grp = d[0].split("OTFFT_")[-1].lower() if d else "common"
                out.append((f, grp, fl))
        if not any(g == "common" for _, g, _ in out):
            out = _fallback()
        return out
    finally:
        shutil.rmtree(cfg, ignore_errors=True)

def config_header():
    """A stand-in for the generated (git-ignored) configuration header, used only where it is missing."""
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "otfft_config.h")
    t = "#pragma once\n#define OTFFT_WITH_SSE2\n#define OTFFT_WITH_AVX\n#define OTFFT_WITH_AVX2\n"
    if not os.path.exists(p) or open(p).read() != t:
        q = tempfile.mktemp(dir=d)
        open(q, "w").write(t); os.replace(q, p)
    return d

VARIANTS = {
    "prod": lambda fl: fl,
    "o1": lambda fl: ["-O1" if x == "-O3" else x for x in fl],
    "o1g": lambda fl: ["-O1" if x == "-O3" else x for x in fl] + ["-g1"],
    "tsan": lambda fl: ["-O1" if x == "-O3" else x for x in fl] + ["-g1", "-fsanitize=thread", "-fno-sanitize-recover=all"],
}

# heaviest translation units first
_ORDER = ["dif16", "dit16", "dit8", "dif8", "dif4", "dit4", "sixstep", "mixed"]

def _w(src):
    for i, k in enumerate(_ORDER):
        if k in os.path.basename(src):
            return i
    return 99

def _compile(src, flags, key_extra=""):
    inc = ["-I" + REPO + "/inc", "-I" + REPO + "/src", "-I" + config_header()]
    base = ["g++"] + flags + inc
    pp = subprocess.run(base + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
    if pp.returncode:
        raise BuildError("preprocess %s:\n%s" % (src, pp.stderr.decode(errors="replace")[-3000:]))
    dbg = any(f.startswith("-g") for f in flags)
    body = pp.stdout
    if dbg:  # line numbers matter in reports only; keep them right
        body = subprocess.run(base + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV).stdout
    h = hashlib.sha256(body + "\0".join(["v2", key_extra] + flags).encode()).hexdigest()[:32]
    out = os.path.join(BUILD, "obj", h + ".o")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp.o" % os.getpid()
        r = sh(base + ["-w", "-c", src, "-o", tmp])
        if r.returncode:
            raise BuildError("compile %s:\n%s" % (src, r.stdout[-3000:]))
        os.replace(tmp, out)
    else:
        os.utime(out)
    return out

def library(variant, backends=("sse2", "avx", "avx2"), groups=None, flags=None):
    """Object files of the library in the repository's link order (common first, then the backends)."""
    f = flags or VARIANTS[variant]
    cmds = [(s, g, f(fl)) for s, g, fl in commands() if g == "common" or g in backends or g not in ("sse2", "avx", "avx2")]
    if groups is not None:
        cmds = [c for c in cmds if c[1] in groups]
    order = sorted(range(len(cmds)), key=lambda i: _w(cmds[i][0]))
    objs = [None] * len(cmds)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        fut = {ex.submit(_compile, cmds[i][0], cmds[i][2]): i for i in order}
        for x in cf.as_completed(fut):
            objs[fut[x]] = x.result()
    return objs

def program(name, sources, objs, flags=(), libs=()):
    """Compile harness sources (from /verif/harness) and link them with objs."""
    hs = [os.path.join(VERIF, "harness", s) for s in sources]
    hobj = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        hobj = list(ex.map(lambda s: _compile(s, ["-std=c++17", "-O2", "-w"] + list(flags)), hs))
    h = hashlib.sha256("\0".join(hobj + list(objs) + list(flags) + list(libs)).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "bin", "%s-%s" % (name, h))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh(["g++"] + list(flags) + hobj + list(objs) + list(libs) + ["-o", tmp])
        if r.returncode:
            raise BuildError("link %s:\n%s" % (name, r.stdout[-3000:]))
        os.replace(tmp, out)
    return out

def trim(max_bytes=3 << 30):
    fs = [(os.stat(p).st_atime, os.stat(p).st_size, p) for p in glob.glob(BUILD + "/obj/*.o") + glob.glob(BUILD + "/bin/*")]
    tot = sum(x[1] for x in fs)
    for _, sz, p in sorted(fs):
        if tot <= max_bytes: break
        try: os.unlink(p)
        except OSError: pass
        tot -= sz

if __name__ == "__main__":
    t = time.time()
    for v in sys.argv[1:] or ["prod"]:
        print(v, len(library(v)), round(time.time() - t, 1))
