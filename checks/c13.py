"""C13: writing a parsed frame out again."""
import copy, json, os
import vc, vbuild, vp8gen, vp8kit
def doubled(job):
    """each frame is written out again before it is decoded"""
    o = []
    for l in job:
        if l.startswith("dec "): o.append("ser" + l[3:])
        if not l.startswith("check"): o.append(l)
    return o
def large(rng, w, h, key, parts, plen, flen, hd):
    """a long frame: what follows the header is random"""
    e = vp8gen.BoolEnc(); vp8gen.header(e, dict(hd, parts=parts), key)
    return vp8gen.assemble(key, True, e.finish() + rng.randbytes(flen), [rng.randbytes(plen) for _ in range(1 << parts)], w, h)
def coefs(*p):
    """the same eleven probabilities for every coefficient"""
    return {i * 11 + l: v for i in range(96) for l, v in enumerate(p)}
def run(c):
    vbuild.build("vp8", "framegen")
    q = c.quick; jobs = []
    for k in range(70 if q else 700):
        r = c.sub_rng("a", k); w, h = r.choice(vp8kit.SIZES); g = vp8gen.Gen(r, w, h)
        jobs.append(doubled(["new a %d %d" % (w, h)] + ["dec a " + g.frame().hex() for _ in range(5)]))
    for k in range(24 if q else 200):   # many coefficients
        r = c.sub_rng("b", k); w, h = r.choice(((16, 16), (40, 24), (33, 49))); g = vp8gen.Gen(r, w, h, pbytes=400, mbits=300)
        jobs.append(doubled(["new a %d %d" % (w, h)] + ["dec a " + g.frame().hex() for _ in range(4)]))
    # coefficients around the bounds of the categories
    cats = ((2, 1, 1, 1, 1, 1, 1, 1, 128, 128, 128), (2, 1, 1, 1, 1, 1, 255, 128, 1, 1, 1), (2, 1, 1, 128, 128, 128, 128, 128, 128, 128, 128), (2, 1, 1, 1, 1, 1, 1, 1, 128, 128, 255), (2, 1, 1, 1, 1, 1, 1, 1, 1, 255, 255))
    for k in range(15 if q else 150):
        r = c.sub_rng("cat", k); w, h = r.choice(((16, 16), (32, 16), (31, 32))); g = vp8gen.Gen(r, w, h)
        jobs.append(doubled(["new a %d %d" % (w, h)] + ["dec a " + g.frame(key=i == 0, h=dict(yq=0, level=0, parts=0, pInter=r.choice((5, 250)), coef=coefs(*cats[(k + i) % 5])), pbytes=g.n * 450, nbytes=g.n * 60).hex() for i in range(2)]))
    # partitions, and a first partition, as long as their lengths can tell
    files = []
    def keep(b): files.append(os.path.join(c.work, "large-%d" % len(files))); open(files[-1], "wb").write(b); return files[-1]
    r = c.sub_rng("long"); long = coefs(1, 1, 1, 1, 1, 1, 1, 1, 1, 128, 128)
    jobs.append(["big 1472 1472 " + keep(large(r, 1472, 1472, True, 1, 2500000, 400000, dict(yq=4, level=0, coef=long)))])
    jobs.append(["big 3680 3680 " + keep(large(r, 3680, 3680, False, 0, 3000, 520000, dict(yq=4, level=0, skip=128, seg=dict(tree=[128] * 3), pInter=255, ym=[1] * 4)))])
    if not q:
        jobs.append(["big 3008 3008 " + " ".join(keep(large(r, 3008, 3008, k == 0, 1, 9000000, 500000, dict(yq=4, level=10, coef=long, pInter=30))) for k in range(2))])
        jobs.append(["big 1600 1200 " + " ".join(keep(large(r, 1600, 1200, k == 0, 3, 700000, 300000, dict(yq=4, level=10, coef=long, pInter=30))) for k in range(3))])
    for k in range(20 if q else 160):   # long vectors
        r = c.sub_rng("v", k); w, h = r.choice(((16, 16), (48, 32), (64, 64))); g = vp8gen.Gen(r, w, h)
        o = ["new a %d %d" % (w, h), "dec a " + g.frame().hex()]
        for _ in range(4):
            hd = g.random_header(False, "mv"); hd["pInter"] = 2; hd["mv"] = {i: r.choice((127, 100, 64, 5, 0)) for i in r.sample(range(38), 20)}
            o.append("dec a " + g.frame(key=False, h=hd).hex())
        jobs.append(doubled(o))
    for k in range(10 if q else 100):
        r = c.sub_rng("z", k); w, h = r.choice(vp8kit.SIZES); g = vp8gen.Gen(r, w, h, zero_probs=True, key=.3)
        jobs.append(doubled(["new a %d %d" % (w, h)] + ["dec a " + g.frame().hex() for _ in range(4)]))
    # every value of every field of the header
    vals = lambda lo, hi: list(range(lo, hi + 1))
    F = []
    def sweep(lo, hi, per, f):
        v = vals(lo, hi) + [None]; v += [0] * (-len(v) % per)
        for i in range(0, len(v), per): F.append(f(v[i:i + per]))
    base = dict(yq=20, level=20)
    for v in range(0, 128, 3 if q else 1): F.append(dict(base, yq=v))
    for v in range(0, 64, 2 if q else 1): F.append(dict(base, level=v, sharp=v % 8))
    sweep(-127, 127, 4, lambda x: dict(base, seg=dict(abs=0, q=x, lf=[0] * 4)))
    sweep(-63, 63, 4, lambda x: dict(base, seg=dict(abs=1, q=[30] * 4, lf=x)))
    sweep(0, 255, 3, lambda x: dict(base, seg=dict(tree=x)))
    sweep(-63, 63, 4, lambda x: dict(base, lfd=dict(ref=x, mode=[y and -y for y in x])))
    for k in range(24 if q else 150):
        r = c.sub_rng("coef", k); F.append(dict(base, coef={r.randrange(1056): r.randrange(256) for _ in range(60)}, skip=r.choice((None, 0, 1, 128, 255))))
    r = c.sub_rng("hdr")
    for i in range(0, len(F), 12):
        g = vp8gen.Gen(r, 16, 16); o = ["new a 16 16"]
        for h in F[i:i + 12]:
            hd = dict(h); key = not (len(o) > 1 and r.random() < .5)
            if not key: hd.update(pInter=r.randrange(256), pLast=r.randrange(256), pGold=r.randrange(256), mv={j: r.randrange(128) for j in r.sample(range(38), 3)}, ym=[r.randrange(1, 256) for _ in range(4)])
            o.append("dec a " + g.frame(key=key, h=hd, pbytes=12, nbytes=60).hex())
        jobs.append(doubled(o))
    # the largest dimensions there are
    for k, (w, h) in enumerate(((16, 8200), (16383, 16)) if q else ((16, 8200), (16383, 16), (16, 16383), (8193, 17), (4096, 16), (16, 4095), (33, 8191), (2049, 31))):
        r = c.sub_rng("large", k); g = vp8gen.Gen(r, w, h)
        jobs.append(doubled(["new a %d %d" % (w, h)] + ["dec a " + g.frame(key=key, h=dict(yq=20, level=0, skip=128), pbytes=200, nbytes=200).hex() for key in (True, False)]))
    enc = [doubled(j) for j in vp8kit.encoded(c, c.sub_rng("enc"), 16 if q else 120, 3 if q else 5)]
    jobs += enc
    traces = vp8kit.play_all(jobs)
    c.sample([x[:300] for x in jobs[0][:3]])
    # one changed coefficient, one changed byte must be noticed
    T = next(t for t in traces if len(t) > 3 and t[1].get("err") == "" and not t[1]["a"].get("err"))[:2]
    can = vp8kit.slim(copy.deepcopy(T)); can[1]["ser"][len(can[1]["ser"]) // 2] ^= 16
    can2 = vp8kit.slim(copy.deepcopy(T)); can2[1]["b"]["pic"] = 0
    if len(c.validate("Vp8Trace", [can, can2], constants=vp8kit.CFG % "FALSE")) != 2: raise vc.ModelError("a frame written differently was accepted")
    c.cov["traces_validated_against_impl"] -= 2
    bad = vp8kit.judge(c, traces, jobs, False, "written again", timeout=3000)
    tot = vp8kit.stats(c, into="frames_written_again")
    c.cov.update(encoder_histories=len(enc))
    c.log("frames: %s" % dict(tot))
    if not bad and min(tot[k] for k in ("key", "bpred", "split", "newmv", "gold", "alt", "seg", "lfd", "multi_partition", "skip", "hidden", "trail", "came_canonical")) == 0:
        raise vc.ModelError("a feature was not exercised: %s" % dict(tot))
    c.assume += ["frames with a block of nothing but zeros up to the 16th coefficient (which no coder writes) are not judged; of those with a block whose zeros reach the 16th coefficient the bytes are not compared, everything else is"]
