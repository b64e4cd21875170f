"""Common machinery of the checks: TLC runs, traces, evidence, verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, concurrent.futures as cf
import vbuild
from vbuild import VERIF, REPO

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")

class ModelError(Exception):
    rc = 0
    pass

class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                self.generated = self.distinct = int(m[-1])
        self.violated = re.findall(r"(?:Invariant|Action property|Temporal property|property) (\S+) (?:is|was) violated", out)
        if "Temporal properties were violated" in out:
            self.violated.append("temporal")
        if "Deadlock reached" in out:
            self.violated.append("deadlock")
        self.ok = rc == 0
        self.prints = [l for l in out.splitlines()]

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
            self.tier = sys.argv[2]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.quick = self.tier != "thorough"
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.level = level
        self.t0 = time.time()
        self.work = os.path.join(os.environ.get("VERIF_WORK", os.path.join(VERIF, "work")), pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assume = []
        self.nviol = 0

    def sub_rng(self, *key):
        return random.Random("%s-%d-%s" % (self.pid, self.seed, "-".join(map(str, key))))

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---- TLC -----------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, extra=(), timeout=600, heap="3g", tag=None, xss=None, count=True):
        """Run TLC. `cfg` is the text of the configuration file. Raises ModelError on anything that is
        neither success nor a reported violation."""
        tag = tag or module
        d = tempfile.mkdtemp(prefix="tlc-%s-" % tag, dir=self.work)
        cfgp = os.path.join(d, module + ".cfg")
        open(cfgp, "w").write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap]
        cmd.append("-Xss" + (xss or "32m"))
        cmd += ["-DTLA-Library=" + SPEC, "-cp", JAR, "tlc2.TLC", "-config", cfgp, "-workers", str(workers),
                "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise ModelError("TLC timed out on %s" % tag)
        finally:
            shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        open(os.path.join(d, "out.txt"), "w").write(r.stdout)
        t = TLCResult(r.returncode, r.stdout)
        # 0 ok, 10 assumption, 11 deadlock, 12 safety, 13 liveness, 75+ errors, 150+ parse
        if r.returncode not in (0, 11, 12, 13):
            if not (r.returncode == 10 and "ostcondition" in r.stdout):
                k = r.stdout.find("Error:")
                x = ModelError("TLC failed on %s (exit %d): %s" % (tag, r.returncode, r.stdout[max(k, 0):][:2500])); x.rc = r.returncode
                raise x
        if count:
            self.cov["states"] += t.distinct
            self.cov["transitions"] += t.generated
        return t

    def model_check(self, module, cfg, **kw):
        """Exhaustive check of a design configuration: anything but success is an error of the model."""
        t = self.tlc(module, cfg, **kw)
        if not t.ok:
            raise ModelError("the specification %s violates its own properties %s\n%s" % (module, t.violated, t.out[-3000:]))
        self.log("TLC %s: %d states generated, %d distinct" % (module, t.generated, t.distinct))
        return t

    def validate(self, module, traces, cfg=None, timeout=600, shards=None, heap="2g", xss=None, env=None, constants=""):
        """Validate recorded traces (list of lists of events) against trace spec `module`.
        Returns list of (trace index, number of events matched) for rejected traces."""
        if not traces:
            return []
        shards = min(shards or 8, len(traces), 8)
        order = sorted(range(len(traces)), key=lambda i: -len(traces[i]))
        parts = [order[i::shards] for i in range(shards)]
        cfg = cfg or ("SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\nCONSTRAINT Progress\nCHECK_DEADLOCK FALSE\n" + constants)
        rej = []
        def some(k, p):
            f = os.path.join(self.work, "traces-%s-%d-%d.json" % (module, k, time.monotonic_ns()))
            json.dump([traces[i] for i in p], open(f, "w"))
            ev = {"TRACES": f}
            ev.update(env or {})
            t = self.tlc(module, cfg, env=ev, timeout=timeout, heap=heap, xss=xss, tag="%s-%d" % (module, k), count=False)
            m = re.findall(r'"REJECTED"\s*,\s*(\d+)\s*,\s*(\d+)\s*>>', t.out)
            acc = re.search(r'"ACCEPTED"\s*,\s*(\d+)\s*>>', t.out)
            if not acc:
                raise ModelError("trace validation with %s gave no verdict: %s" % (module, t.out[-3000:]))
            if int(acc.group(1)) + len(m) != len(p):
                raise ModelError("trace validation with %s lost traces: %s" % (module, t.out[-2000:]))
            return [(p[int(a) - 1], int(b) - 1) for a, b in m], [t]
        def one(k, p=None, odd=None):
            """a recording with something in it that the specification cannot even evaluate is none of its behaviours"""
            p = parts[k] if p is None else p; odd = odd if odd is not None else []
            if len(odd) >= 2: return [], []
            try: return some(k, p)
            except ModelError as x:
                if x.rc not in (75, 76, 77): raise
                if len(p) == 1:
                    odd.append(p[0]); self.log("recording %d cannot be evaluated: %s" % (p[0], str(x)[:300])); return [(p[0], 0)], []
                h = len(p) // 2; r1, t1 = one(k, p[:h], odd); r2, t2 = one(k, p[h:], odd)
                return r1 + r2, t1 + t2
        with cf.ThreadPoolExecutor(shards) as ex:
            for r, ts in ex.map(one, range(shards)):
                rej += r
                for t in ts:
                    self.cov["states"] += t.distinct
                    self.cov["transitions"] += t.generated
                    if t.violated:
                        raise ModelError("invariant violated during trace validation: %s %s" % (t.violated, t.out[-3000:]))
        self.cov["traces_validated_against_impl"] += len(traces)
        return sorted(rej)

    # ---- verdicts ------------------------------------------------------
    def sample(self, x, n=3):
        if len(self.cov["samples"]) < n:
            s = json.dumps(x)
            self.cov["samples"].append(x if len(s) < 4000 else s[:4000])

    def replay_file(self, obj, name=None):
        d = os.path.join(VERIF, "work", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.pid, name or "%d" % (int(time.time() * 1000) % 10**9)))
        json.dump(obj, open(p, "w"), indent=1, default=str)
        return p

    def known(self, key):
        """whether this failure is listed in known_findings.txt ("known: property=ID <key>: <text>"); if so it is announced"""
        pre = "known: property=%s %s:" % (self.pid, key)
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            if l.startswith(pre):
                print("KNOWN-FINDING: property=%s %s:%s" % (self.pid, key, l[len(pre):].rstrip()), flush=True)
                return True
        return False

    def violation(self, what, obj):
        p = self.replay_file({"property": self.pid, "what": what, "seed": self.seed, "data": obj},
                             "%d" % self.nviol)
        self.nviol += 1
        print("what: %s" % what)
        print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)

    def finish(self):
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": self.level, "coverage": self.cov, "assumptions": self.assume,
              "wall_s": round(time.time() - self.t0, 2), "violations": self.nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        if not os.environ.get("VERIF_KEEP"):
            for n in os.listdir(self.work):
                if n.startswith(("traces-", "tlc-")):
                    q = os.path.join(self.work, n)
                    shutil.rmtree(q) if os.path.isdir(q) else os.unlink(q)
        self.log("done: %d states, %d transitions, %d traces, %d violations" %
                 (self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"], self.nviol))
        sys.exit(1 if self.nviol else 0)

def run_asan(prog, lines, timeout=300):
    """the program built with AddressSanitizer, so that a stray access ends it at once; where the sanitizer itself cannot
    run, the plain one"""
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"
    ev, rc, err = run_lines(prog + "-asan", lines, timeout)
    if rc and ("AddressSanitizer failed" in err or "Shadow memory range interleaves" in err): ev, rc, err = run_lines(prog, lines, timeout)
    return ev, rc, err

PACE = {"longest": 5.0, "hung": 0}   # how long the slowest run took that ended by itself; how many did not end

def run_lines(prog, lines, timeout=300, cwd=None):
    """Feed command lines to a harness; return (list of parsed JSON reply lines, return code, stderr)."""
    # where runs hang, those after the first few are not waited for as long: the check must still give its answer
    timeout = min(timeout, 150)
    if PACE["hung"] >= 2: timeout = min(timeout, max(20, (4 if PACE["hung"] < 8 else 2) * PACE["longest"]))
    t0 = time.time()
    p = subprocess.Popen([vbuild.exe(prog)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, cwd=cwd)
    try:
        o, e = p.communicate(("\n".join(lines) + "\n").encode(), timeout=timeout)
        rc = p.returncode
        PACE["longest"] = max(PACE["longest"], time.time() - t0)
    except subprocess.TimeoutExpired:   # a harness that hangs counts as one that died
        PACE["hung"] += 1
        p.kill()
        o, e = p.communicate()
        rc = -999
    o, e = o.decode(errors="replace"), e.decode(errors="replace")
    out = []
    for l in o.splitlines():
        if l.startswith("{"):
            try:
                out.append(json.loads(l))
            except ValueError:
                if rc == 0: raise
    return out, rc, e

def hexb(s):
    return list(bytes.fromhex(s))
