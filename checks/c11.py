"""C11: decoding is a function; decoders are values."""
import json, re
import concurrent.futures as cf
import vc, vbuild, vp8gen
MC = "SPECIFICATION Spec\nCONSTANTS Names = {%s}\n MaxKept = 2\n MaxOps = %d\n Logging = %s\nINVARIANTS %s\n%sCHECK_DEADLOCK FALSE\n"
INV = "AsIfUnshared KeptUnchanged FreeUnreferenced IdentityTrue NothingLost"
HD = dict(yq=20, level=12)
SIZES = ((16, 16), (24, 40), (33, 17), (48, 32), (15, 15))
LIGHT = ("st",)

def frames(rng, w, h):
    """the four frames of the model, several of each (and, as 5 to 7, frames with features that make state)"""
    g = vp8gen.Gen(rng, w, h)
    inter = dict(HD, pInter=rng.choice((60, 120, 200)), pLast=rng.choice((120, 20)), pGold=128)
    out = {}
    for k in range(2):
        out[1 + 10 * k] = g.frame(key=True, h=HD, pbytes=10)
        out[2 + 10 * k] = g.frame(key=False, h=dict(inter, refreshL=1, refreshG=0, copyG=0, refreshA=0, copyA=0, refreshProbs=0), pbytes=10)
        out[3 + 10 * k] = g.frame(key=False, h=dict(inter, refreshL=0, refreshG=1, copyG=0, refreshA=0, copyA=1, refreshProbs=0), pbytes=10)
        out[4 + 10 * k] = g.frame(key=False, h=dict(inter, refreshL=0, refreshG=0, copyG=0, refreshA=0, copyA=0, refreshProbs=1, coef={rng.randrange(1056): 77, rng.randrange(1056): 199}), pbytes=10)
    a = rng.randrange(2); seg = dict(abs=a, q=[3, 5 if a else -5, 10, 20], lf=[1, 2, 3 if a else -3, 4], tree=[100, 128, 60]); lfd = dict(ref=[5, -5, 10, 2], mode=[3, 4, -9, 5])
    out[5] = g.frame(key=True, h=dict(HD, seg=seg, lfd=lfd), pbytes=10)
    out[6] = g.frame(key=False, h=dict(inter, refreshL=1, refreshG=0, copyG=0, refreshA=0, copyA=0, seg=seg, lfd=lfd, refreshProbs=1, mv={3: 7, 20: 99}, ym=[20, 30, 40, 50], uvm=[9, 99, 199]), pbytes=10)
    out[7] = g.frame(key=False, h=dict(inter, refreshL=1, refreshG=0, copyG=0, refreshA=0, copyA=0, seg={}, lfd={}, refreshProbs=0), pbytes=10)
    return ["frame %d %s" % (n, f.hex()) for n, f in sorted(out.items())]

def history(rng, sched):
    w, h = rng.choice(SIZES); o = frames(rng, w, h); kept = 0; alive = []; outs = []
    rich = rng.random() < .6   # frames with features that outlast them
    tr = lambda f: rng.choice({1: (5,), 2: (6, 7, 7)}.get(f, (f, f + 10))) if rich else f + rng.choice((0, 10))
    for x in sched:
        op = x["op"]
        if op == "new": o.append("new %s %d %d" % (x["a"], w, h)); alive.append(x["a"])
        elif op == "fork":
            o.append("%s %s %s" % (rng.choice(("fork", "parts", "asg" if x["b"] in alive else "fork")), x["a"], x["b"])); alive.append(x["b"])
        elif op == "drop": o.append("drop " + x["a"]); alive = [a for a in alive if a != x["a"]]
        elif op == "dec":
            o.append("dec %s %d" % (x["a"], tr(x["f"]))); kept += 1
            if x["keep"]: outs.append(kept)
            else: o.append("out %d" % kept)
        elif op == "out": o.append("out %d" % outs.pop(x["i"] - 1))
        elif op == "look": o.append("look")
    return o + ["look"]

ALL = [("coef", i) for i in range(1056)] + [("mv", i) for i in range(38)] + [("ym", i) for i in range(4)] + [("uvm", i) for i in range(3)] + \
      [("segq", i) for i in range(4)] + [("seglf", i) for i in range(4)] + [("segabs", 0), ("segoff", 0), ("lfoff", 0)] + \
      [("lfref", i) for i in range(4)] + [("lfmode", i) for i in range(4)]
def tweaks(c, q):
    """every element of a state changed alone, and pairs changed the same way twice"""
    jobs = []
    items = list(ALL); w, h = 40, 24; mbs = 3 * 2
    items += [("segmap", i) for i in range(mbs)] + [("w", 0), ("h", 0)]
    n = 48 * 32
    for ref in ("last", "gold", "alt"):
        for plane, size in ((0, n), (1, n // 4), (2, n // 4)):
            cells = range(size) if not q else sorted({0, size - 1, size - 2, 1} | set(c.sub_rng(ref, plane).sample(range(size), 10)))
            items += [(ref, i * 3 + plane) for i in cells]
    rng = c.sub_rng("tweak"); rng.shuffle(items); per = 45
    for k in range(0, len(items), per):
        r = c.sub_rng("tw", k); fs = frames(r, w, h)
        o = fs + ["new a %d %d" % (w, h), "dec a 5", "out 1"]
        if k // per % 2: o += ["dec a 6", "out 2"]
        if k // per % 3 == 0: o += ["dec a 3", "look"]
        for i, (what, idx) in enumerate(items[k:k + per]):
            v = r.choice((1, 1, 1, 2, 4, 16, 64)) if what not in ("w", "h", "segmap") else 1
            v = 1 if what in ("segq", "seglf", "lfref", "lfmode") and v > 16 else v
            o.append("tweak a b %s %d %d" % (what, idx, v))
            if i % 15 == 7: o.append("tweak a c %s %d %d" % (what, idx, v)); o.append("look")     # the same change: equal
            if i % 15 == 14: o += ["tweak b c %s %d %d" % (items[k + i - 1] + (1,)), "look"]
        jobs.append(o + ["look"])
    return jobs, len(items)

def threads(rng, times):
    """chains decoded one after the other, then at the same time in several threads"""
    w, h = rng.choice(SIZES); o = frames(rng, w, h) + ["new a %d %d" % (w, h), "dec a 5"]; kept = 1; jobs = []
    for k in range(6):
        chain = [rng.choice((1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 14)) for _ in range(rng.randint(1, 4))]
        o.append("fork a t")
        for f in chain: o.append("dec t %d" % f); kept += 1; o.append("out %d" % kept)
        jobs.append("a," + ",".join(map(str, chain)))
    o += ["drop t", "par %d:%s" % (times, ";".join(jobs)), "look"]
    return o

def play(lines):
    """threads run under ThreadSanitizer: that what one thread does to a buffer is one step for the others is what the
    model takes for granted"""
    prog = "pure-tsan" if any(l.startswith("par ") for l in lines) else "pure"
    ev, rc, err = vc.run_lines(prog, lines, timeout=200)
    if prog != "pure" and "FATAL: ThreadSanitizer" in err: ev, rc, err = vc.run_lines("pure", lines, timeout=200)
    if rc != 0: ev.append({"e": "died", "rc": rc, "err": err[-500:]})
    return ev

def run(c):
    vbuild.build("pure", "pure-tsan")
    q = c.quick
    c.model_check("Pool", MC % ('"a","b"', 6 if q else 7, "FALSE", INV, "VIEW View\n"), workers=8, heap="10g", timeout=3000)
    if not q: c.model_check("Pool", MC % ('"a","b","c"', 6, "FALSE", INV, "VIEW View\n"), workers=8, heap="14g", timeout=3000)
    t = c.tlc("Pool", MC % ('"a","b","c"', 16, "TRUE", INV + " Emit", ""), extra=["-simulate", "num=%d" % (300 if q else 4000), "-depth", "18", "-seed", str(c.seed)], count=False, timeout=900, heap="4g")
    sched = sorted(set(re.findall(r'<<"SCHED", "(.*)">>', t.out))); rng = c.sub_rng("s")
    sched = [json.loads(json.loads('"%s"' % s)) for s in rng.sample(sched, min(len(sched), 120 if q else 1500))]
    if not sched: raise vc.ModelError("no schedules")
    jobs = [history(rng, s) for s in sched]
    tw, nitems = tweaks(c, q); jobs += tw
    th = [threads(c.sub_rng("t", k), 3 if q else 20) for k in range(24 if q else 120)]; jobs += th
    with cf.ThreadPoolExecutor(6) as ex: traces = list(ex.map(play, jobs))
    slim = lambda t: [{k: v for k, v in e.items() if k != "new"} for e in t]
    c.cov.update(model_histories=len(sched), elements_changed=nitems, threaded_histories=len(th), commands=sum(len(t) for t in traces))
    c.log("%d histories, %d commands" % (len(jobs), c.cov["commands"])); c.sample([l[:120] for l in jobs[0] if not l.startswith("frame")])
    rej = c.validate("PureTrace", [slim(t) for t in traces], timeout=900 if q else 4000)
    if rej:
        again = [play(jobs[i]) for i, _ in rej[:24]]
        bad = c.validate("PureTrace", [slim(t) for t in again], timeout=900)
        for k, pos in bad[:3]:
            ev = again[k][pos] if pos < len(again[k]) else None
            c.violation("history %d: event %d (%s) is not what equal states and equal frames give" % (rej[k][0], pos, ev and {a: b for a, b in ev.items() if a in ("e", "d", "into", "f")}), {"commands": jobs[rej[k][0]], "position": pos})
        if not bad:   # threads: once is enough
            for k, (i, pos) in enumerate(rej[:3]):
                if traces[i][min(pos, len(traces[i]) - 1)].get("e") in ("par", "died"): c.violation("threads interfere: history %d" % i, {"commands": jobs[i], "position": pos})
                else: c.violation("not reproducible: history %d parts at event %d once and not again" % (i, pos), {"commands": jobs[i], "position": pos})
    # altered recordings must be noticed
    cans = []
    def alter(i, kind, f):
        t = json.loads(json.dumps(slim(traces[i])))
        for e in t:
            if e["e"] == kind and f(e): cans.append(t); return
    def h(e): e["r"]["hash"] += "1"; return e["r"]["err"] == ""
    def look(e):
        if not e["kept"]: return False
        e["kept"][0]["is"] += 1; return True
    def eq(e): e["eqs"][0]["eq"] = not e["eqs"][0]["eq"]; return True
    def twk(e): e["hash"] = first_hash[0]; return True
    first_hash = [[e for e in traces[len(sched)] if e["e"] == "dec"][-1]["r"]["hash"]]
    def par(e): e["runs"][0]["pics"][0] += 1; return True
    alter(len(jobs) - 1, "par", par); alter(len(jobs) - 1, "look", look); alter(len(sched), "tweak", twk); alter(len(sched), "look", eq)
    n = len(c.validate("PureTrace", cans)); c.cov["traces_validated_against_impl"] -= len(cans)
    c.cov["canaries"] = "%d of %d noticed" % (n, len(cans))
    if n != len(cans): raise vc.ModelError("an altered recording was accepted")
