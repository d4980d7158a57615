"""Common frame of all checks: tiers, evidence, violations, known findings, worker processes."""
import os, sys, json, time, subprocess, re, tempfile, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
VERIF = build.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
KNOWN = os.path.join(VERIF, "known_findings.txt")

def known(prop):
    """{key: text} of the recorded (unrepaired) findings of a property."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m[1] == prop: out[m[2]] = m[3]
    return out

class Check:
    def __init__(self, prop, level):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.viol = []          # (key, text, replay dict)
        self.assumptions = []
        self.lock = threading.Lock()

    def violation(self, key, text, replay):
        with self.lock:
            self.viol.append((key, text, replay))

    def run_workers(self, cmds, timeout, env=None, par=None):
        """Run worker commands in parallel; each prints JSON lines.  Returns the list of decoded objects.
        {"viol":..,"key":..,...} lines become violations; a crash of a worker is a violation of its last
        announced case ({"at":...}) -- the code under test runs inside the workers."""
        import concurrent.futures as cf
        outs = []
        def one(c):
            e = dict(build.ENV); e.update(env or {}); 
            if isinstance(c, tuple): e.update(c[1]); c = c[0]
            with tempfile.TemporaryFile() as so, tempfile.TemporaryFile() as se:
                p = subprocess.Popen(c, stdout=so, stderr=se, env=e, stdin=subprocess.DEVNULL)
                try: rc = p.wait(timeout)
                except subprocess.TimeoutExpired:
                    p.kill(); p.wait(); rc = "timeout"
                so.seek(0); se.seek(0)
                return c, rc, so.read().decode(errors="replace"), se.read().decode(errors="replace")
        with cf.ThreadPoolExecutor(par or build.NPROC) as ex:
            for c, rc, so, se in ex.map(one, cmds):
                last = None
                for l in so.splitlines():
                    if not l.startswith("{"): continue
                    try: o = json.loads(l)
                    except ValueError: continue
                    if "at" in o: last = o; continue
                    if "viol" in o:
                        self.violation(o.get("key", o["viol"]), o["viol"], dict(o, cmd=c))
                        continue
                    outs.append(o)
                if rc == 3:   # the harness itself failed (bad arguments, resource limit): an error of the check
                    raise SystemExit("harness error in %s: %s" % (c, se[-2000:]))
                if rc != 0 and not (rc == 1):
                    self.violation("crash:%s" % json.dumps(last), "worker ended abnormally (%s) at %s: %s" % (rc, json.dumps(last), se[-500:].strip()),
                                   dict(cmd=c, at=last, rc=str(rc), stderr=se[-4000:]))
        return outs

    def finish(self, coverage):
        kn = known(self.prop)
        seen, new = set(), []
        for key, text, rep in self.viol:
            if key in kn:
                seen.add(key)
            else:
                new.append((key, text, rep))
        for k in sorted(kn):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, kn[k]) if k in seen else
                  "note: listed finding %s of %s did not occur in this run" % (k, self.prop))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=coverage,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        open(p + ".tmp", "w").write(json.dumps(ev, indent=1) + "\n"); os.replace(p + ".tmp", p)
        if new:
            rp = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
            json.dump([dict(key=k, what=t, replay=r) for k, t, r in new[:50]], open(rp, "w"), indent=1)
            for k, t, r in new[:10]: print("  " + t[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(rp, VERIF)))
            sys.stdout.flush(); sys.exit(1)
        print("%s: held on everything explored (%s tier, %.1f s)" % (self.prop, TIER, time.time() - self.t0))
        sys.exit(0)

def guarded(main):
    """A tree that does not build cannot be judged: that is an error (exit 2), not a violation."""
    try:
        main()
    except build.BuildError as e:
        print("BUILD ERROR", e); sys.exit(2)
