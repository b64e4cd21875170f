"""C18: the encoder honours the requested quantizer, size and quality."""
import json
import vc, vbuild, vp8gen
import c12
KINDS = ("mild", "busy", "noise", "grad", "flat", "zero")
SIZES = ((16, 16), (48, 32), (33, 17), (64, 64), (64, 48), (80, 64), (1, 1))

def before(rng, w, h, o, rt):
    """an encoder a with some past"""
    r = rng.random()
    if r < .35: o.append("new a %d %d %d %d" % (w, h, rng.random() < .3, rt))
    else: c12.decoder(rng, vp8gen.Gen(rng, w, h), "d", 1, rng.randint(1, 2), o); o.append("from d a %d %d" % (rng.random() < .3, rt))
    for _ in range(rng.choice((0, 1, 1, 2))): o.append("enc a q %d %s %d" % (rng.choice((0, 3, 19, 20, 21, 60, 110, 112, 127)), rng.choice(KINDS), rng.randrange(99)))
    if rng.random() < .5: return "a"
    # a copy of it goes on; what the copy was made over, and the encoder it was made of, must not matter
    how = rng.choice(("fork", "move", "asg"))
    if how == "asg": o += ["new b %d %d %d %d" % (w, h, rng.random() < .3, rt)] + (["enc b q %d %s %d" % (rng.choice((0, 30, 60, 127)), rng.choice(KINDS), rng.randrange(99))] if rng.random() < .6 else [])
    o.append("%s a b" % how)
    if rng.random() < .4: o.append("enc a q %d %s %d" % (rng.randrange(128), rng.choice(KINDS), rng.randrange(99)))
    return "b"

def quantizers(rng, lo, hi):
    """every quantizer in turn"""
    w, h = rng.choice(SIZES[:3]); o = []; n = before(rng, w, h, o, rng.randrange(2))
    for q in range(lo, hi): o += ["enc %s q %d %s %d" % (n, q, rng.choice(KINDS), rng.randrange(9))]
    return o + ["look"]

def table(rng, q):
    """what all quantizers give for a picture"""
    w, h = rng.choice(SIZES); o = []; rt = rng.randrange(2); n = before(rng, w, h, o, rt)
    return (w, h, n, o, rng.choice(KINDS) , rng.randrange(99))

def asks(rng, est, ssim, n):
    """targets around what there is"""
    o = []
    for k in range(n):
        if rng.random() < .5: o.append(("t", max(0, rng.choice(est) + rng.choice((-17, -16, -1, 0, 0, 1, 16)))) if rng.random() < .8 else ("t", rng.choice((0, 1, 10 ** 6))))
        else: o.append(("s", max(0, min(1000, rng.choice(ssim) // 1000 + rng.choice((-1, 0, 0, 1, 1))))) if rng.random() < .85 else ("s", rng.choice((0, 1000))))
    return o

def run(c):
    vbuild.build("enc", "enc-asan")
    q = c.quick
    c.model_check("Search", "SPECIFICATION Spec\nCONSTANTS N = %d\nINVARIANTS Result Best Honoured Few\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n" % (9 if q else 13), workers=8, timeout=2000)
    jobs = [quantizers(c.sub_rng("q", k), lo, min(128, lo + 16)) for k in range(1 if q else 8) for lo in range(0, 128, 16)]
    # first the tables, then requests around their values, each to a copy (which is then the same encoder)
    tabs = [table(c.sub_rng("t", k), q) for k in range(64 if q else 500)]
    first = c12.play_all([t[3] + ["tab %s %s %d" % (t[2], t[4], t[5])] for t in tabs])
    for t, ev in zip(tabs, first):
        rng = c.sub_rng("a", len(jobs)); e = ev[-1] if ev and ev[-1].get("e") == "tab" else None
        o = t[3]
        if e is None: jobs.append(o + ["tab %s %s %d" % (t[2], t[4], t[5])]); continue
        for mode, arg in asks(rng, e["est"][4:], e["ssim"], 3):
            o = o + ["tab %s %s %d" % (t[2], t[4], t[5]), "enc %s %s %d %s %d" % (t[2], mode, arg, t[4], t[5])]
            jobs.append(list(o)) if len(o) > 60 else None
            if rng.random() < .6: break
        jobs.append(o + ["look"])
    for k in range(24 if q else 200):
        rng = c.sub_rng("i", k)
        w, h = rng.choice(((16, 16), (17, 33), (64, 32), (48, 48)))
        one = (rng.choice(KINDS), rng.randrange(9)); two = one if rng.random() < .15 else (one[0] if rng.random() < .4 else rng.choice(KINDS), rng.randrange(9))
        jobs.append(["ssim %d %d %s %d %s %d" % ((w, h) + one + two)])
    traces = c12.play_all(jobs); c12.count(c, traces)
    c.log("%d histories %s" % (len(jobs), c.cov["commands"])); c.sample([l[:120] for l in jobs[8] if not l.startswith("frame")])
    asked = sum(1 for t in traces for a, b in zip(t, t[1:]) if a["e"] == "tab" and b["e"] == "enc")
    c.cov["requests_judged_by_tables"] = asked
    c12.judge(c, jobs, traces, "not what was asked for", 900 if q else 4000)
    cans = []
    def alter(f):
        for t in traces:
            t = json.loads(json.dumps(t)); past = 0
            for a, b in zip(t, t[1:] + [{}]):
                past += a["e"] == "enc"
                if (f is not size or not past) and f(a, b): cans.append(t); return
        raise vc.ModelError("nothing to alter: " + f.__name__)
    def quant(a, b):
        if a["e"] != "enc" or a["mode"] != "q": return False
        a["arg"] ^= 1; return True
    def size(a, b):
        if b.get("mode") != "t" or a["e"] != "tab" or min(a["est"][4], a["est2"][4]) <= b["arg"]: return False   # the finest that may be used is not
        b["arg"] = 10 ** 8; return True
    def qual(a, b):
        if b.get("mode") != "s" or a["e"] != "tab" or not min(a["ssim"]) + 5000 < b["arg"] * 1000 <= a["ssim"][0] - 5000: return False
        b["arg"] = max(a["ssim"]) // 1000 + 2; return True
    def alike(a, b):
        if a["e"] != "ssim" or a["q"] > 900000: return False
        a["q"] += 9000; return True
    for f in (quant, size, qual, alike): alter(f)
    n = len(c.validate("EncTrace", cans)); c.cov["traces_validated_against_impl"] -= len(cans)
    c.cov["canaries"] = "%d of %d noticed" % (n, len(cans))
    if n != len(cans): raise vc.ModelError("an altered recording was accepted")
