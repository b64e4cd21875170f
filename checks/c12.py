"""C12: an encoder's own state is the state its output takes a decoder to."""
import json, re
import concurrent.futures as cf
import vc, vbuild, vp8gen, vp8kit
MC = "SPECIFICATION Spec\nCONSTANTS Names = {%s}\n MaxOps = %d\n MaxTrials = 2\n Logging = %s\nINVARIANTS LockStep FirstIsKey%s\n%sCHECK_DEADLOCK FALSE\n"
PROPS = "PROPERTIES Others EstimatesLeaveNothing\nVIEW View\n"
SIZES = ((16, 16), (40, 24), (33, 49), (64, 32), (17, 80), (1, 1), (15, 31), (80, 17))
KINDS = ("mild", "busy", "noise", "grad", "flat", "zero")
HOTS = ("plain", "q", "lf", "probs", "mv", "refs", "intra", "seg", "all")

def decoder(rng, g, name, base, n, o):
    """a decoder with a past of n generated frames"""
    o.append("dnew %s %d %d" % (name, g.w, g.h))
    for k in range(n):
        o.append("frame %d %s" % (base + k, g.frame(key=(k == 0) or None, hot=rng.choice(HOTS), pbytes=8).hex())); o.append("feed %s %d" % (name, base + k))

def enc_line(rng, n, what, pics):
    kind, seed = rng.choice(pics)
    arg = {"q": rng.choice((0, 1, 4, 20, 40, 60, 90, 110, 127)), "s": rng.choice((0, 500, 900, 950, 990, 999, 1000)), "t": rng.choice((0, 50, 200, 500, 2000, 10000))}[what]
    return "enc %s %s %d %s %d" % (n, what, arg, kind, seed)

def reencode(rng, o, n, w, h, base, pics, bad=False):
    """a chunk of generated frames, decoded from the start by a decoder of its own, and the re-encoding along it"""
    g = vp8gen.Gen(rng, w, h); k = rng.randint(1, 4); ex = int(k > 1 and rng.random() < .4)
    o.append("dnew p%d %d %d" % (base, w, h))
    for i in range(k):
        key = i == 0 or rng.random() < .15
        hd = g.random_header(key, rng.choice(HOTS))
        if not (bad and i == k - 1): hd.pop("seg", None)
        o.append("frame %d %s" % (base + i, g.frame(key=key, h=hd, pbytes=8).hex()))
    o.append("re %s %d %d p%d %s %s" % (n, rng.choice((0, 25, 50, 75, 100)), ex, base, ",".join(str(base + i) for i in range(k)), ",".join("%s:%d" % rng.choice(pics) for _ in range(k))))

def history(rng, sched):
    w, h = rng.choice(SIZES); o = []; alive = []; base = 100
    pics = [(rng.choice(KINDS), rng.randrange(99)) for _ in range(2)]
    q = lambda: "%d %d" % (rng.random() < .3, rng.randrange(2))
    g = vp8gen.Gen(rng, w, h); decoder(rng, g, "d", 1, rng.randint(1, 3), o)
    for x in sched:
        op, a = x["op"], x["a"]
        if op == "new":
            if rng.random() < .5: o.append("new %s %d %d %d %d" % (a, w, h, rng.random() < .3, x["rt"]))
            else: o.append("from d %s %d %d" % (a, rng.random() < .3, x["rt"]))
        elif op == "from": o.append("from @%s %s %d %d" % (a, x["b"], rng.random() < .3, x["rt"]))
        elif op == "fork": o.append("%s %s %s" % (rng.choice(("fork", "move", "asg") if x["b"] in alive else ("fork", "move")), a, x["b"]))
        elif op == "drop": o.append("drop " + a)
        elif op == "est": o.append("est %s %d %s %d" % ((a, rng.choice((4, 50, 127))) + rng.choice(pics)))
        elif op == "re": reencode(rng, o, a, w, h, base, pics); base += 10
        else: o.append(enc_line(rng, a, op, pics))
        if op == "drop": alive.remove(a)
        elif op in ("new", "from", "fork"): b = x.get("b", a); alive = [n for n in alive if n != b] + [b]
        if rng.random() < .3: o.append("look")
    return o + ["look"]

def runs(rng):
    """one encoder, many frames; or one that continues a decoder with an unusual past; or a refused re-encoding"""
    w, h = rng.choice(SIZES); o = []; pics = [(rng.choice(KINDS), rng.randrange(99)) for _ in range(3)]; r = rng.random()
    g = vp8gen.Gen(rng, w, h); decoder(rng, g, "d", 1, rng.randint(1, 4), o)
    if r < .3: o.append("new a %d %d %d %d" % (w, h, rng.randrange(2), rng.randrange(2)))
    else: o.append("from d a %d %d" % (rng.randrange(2), rng.randrange(2)))
    for k in range(rng.randint(1, 4)):
        if o[-1].startswith("new"): o.append(enc_line(rng, "a", rng.choice("qst"), pics))
        elif rng.random() < .5: reencode(rng, o, "a", w, h, 100 + 10 * k, pics)
        else: o.append(enc_line(rng, "a", rng.choice("qst"), pics))
        if rng.random() < .3: o += ["fork a b", enc_line(rng, "b", rng.choice("qst"), pics), "drop b"]
    if rng.random() < .35 and not any(l.startswith("new a") for l in o): reencode(rng, o, "a", w, h, 200, pics, bad=True)
    return o + ["look"]

def play(lines):
    ev, rc, err = vc.run_asan("enc", lines, timeout=300)
    if rc != 0: ev.append({"e": "died", "rc": rc, "err": (re.findall("ERROR: .*|#[0-6] .*", err) or [err[-300:]])[:6]})
    return ev
def play_all(jobs):
    with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(play, jobs))
def diffs(c):
    import collections, glob, os
    o = collections.Counter()
    for f in glob.glob(os.path.join(c.work, "tlc-EncTrace*", "out.txt")):
        for w in re.findall(r'"DIFF",\s*"(\w+)"', open(f).read()): o[w] += 1
    return dict(o)

def judge(c, jobs, traces, what, timeout):
    rej = c.validate("EncTrace", traces, timeout=timeout)
    if rej:
        again = play_all([jobs[i] for i, _ in rej[:24]])
        for k, pos in c.validate("EncTrace", again, timeout=timeout)[:3]:
            ev = again[k][pos] if pos < len(again[k]) else None
            c.violation("%s: event %d (%s) of a history (%s)" % (what, pos, ev and {a: b for a, b in ev.items() if a in ("e", "n", "mode", "arg", "err", "rc")}, diffs(c)), {"commands": jobs[rej[k][0]], "position": pos})
    return rej

def count(c, traces):
    n = {}
    for t in traces:
        for e in t:
            k = e["e"] + (":" + e["mode"] if e["e"] == "enc" else "")
            n[k] = n.get(k, 0) + 1
            if e["e"] == "re": n["frames_reencoded"] = n.get("frames_reencoded", 0) + len(e["outs"]); n["refused"] = n.get("refused", 0) + (not e["outs"])
    c.cov["commands"] = n

def valid(c, traces, n):
    """some of what was encoded, decoded in full by the specification"""
    jobs = []
    for t in traces:
        w = h = None; outs = {}
        for e in t:
            if e["e"] == "new": w, h = e["to"]["w"], e["to"]["h"]; outs[e["n"]] = []
            elif e["e"] in ("fork", "move", "asg", "from"): outs.pop(e.get("into", e["n"]), None)
            elif e["e"] == "enc" and e["n"] in outs: outs[e["n"]].append(bytes(e["by"]).hex())
        for k, v in outs.items():
            if v and w * h <= 2000: jobs.append(["new a %d %d" % (w, h)] + ["dec a " + x for x in v[:3]] + ["check a"])
    c.sub_rng("v").shuffle(jobs); jobs = jobs[:n]
    vp8kit.judge(c, vp8kit.play_all(jobs), jobs, True, "an encoded frame")
    c.cov["encoded_histories_decoded_in_full"] = len(jobs)

def run(c):
    vbuild.build("enc", "enc-asan", "vp8")
    q = c.quick
    c.model_check("Encoder", MC % ('"a","b"', 4 if q else 5, "FALSE", "", PROPS), workers=8, heap="10g", timeout=3000)
    t = c.tlc("Encoder", MC % ('"a","b","c"', 12, "TRUE", " Emit", ""), extra=["-simulate", "num=%d" % (400 if q else 4000), "-depth", "60", "-seed", str(c.seed)], count=False, timeout=900, heap="4g")
    sched = sorted(set(re.findall(r'<<"SCHED", "(.*)">>', t.out))); rng = c.sub_rng("s")
    sched = [json.loads(json.loads('"%s"' % s)) for s in rng.sample(sched, min(len(sched), 60 if q else 800))]
    if not sched: raise vc.ModelError("no schedules")
    jobs = [history(rng, s) for s in sched] + [runs(c.sub_rng("r", k)) for k in range(90 if q else 1500)]
    traces = play_all(jobs); count(c, traces); c.cov["model_histories"] = len(sched)
    c.log("%d histories %s" % (len(jobs), c.cov["commands"])); c.sample([l[:120] for l in jobs[0] if not l.startswith("frame")])
    judge(c, jobs, traces, "encoder and decoder part", 900 if q else 6000)
    valid(c, traces, 24 if q else 200)
    # altered recordings must be noticed
    cans = []
    def alter(kind, f):
        for t in traces:
            t = json.loads(json.dumps(t))
            for e in t:
                if e["e"] == kind and f(e): cans.append(t); return
        raise vc.ModelError("nothing to alter: " + kind)
    def to(e): e["to"]["A"] += 1; return True
    def st(e): e["r"]["stv"]["coef"][7] ^= 1; return True
    def mini(e): e["mini"] += "1"; return True
    def rs(e):
        if len(e["rs"]) < 2: return False
        e["rs"][0]["to"]["G"] += 1; return True
    def order(e):
        if len(e["outs"]) < 3: return False
        e["outs"][1], e["outs"][2] = e["outs"][2], e["outs"][1]; return e["outs"][1] != e["outs"][2]
    def own(e): e["es"][0]["own"] = False; return True
    def est(e): e["to"]["L"] += 1; return True
    for k, f in (("enc", to), ("enc", st), ("enc", mini), ("re", rs), ("re", order), ("look", own), ("est", est), ("fork", to)): alter(k, f)
    n = len(c.validate("EncTrace", cans)); c.cov["traces_validated_against_impl"] -= len(cans)
    c.cov["canaries"] = "%d of %d noticed" % (n, len(cans))
    if n != len(cans): raise vc.ModelError("an altered recording was accepted")
