"""C09: decoded pictures."""
import copy
import vc, vbuild, vp8gen, vp8kit
def history(rng, n, **kw):
    w, h = rng.choice(vp8kit.SIZES)
    g = vp8gen.Gen(rng, w, h, **kw)
    # every kind of frame early and late, hidden ones too
    return ["new a %d %d" % (w, h)] + ["dec a " + g.frame().hex() for _ in range(n)] + ["check a"]
def run(c):
    vbuild.build("vp8", "framegen")
    q = c.quick
    jobs = []
    for k in range(46 if q else 420): jobs.append(history(c.sub_rng("a", k), 6))
    for k in range(16 if q else 160): jobs.append(history(c.sub_rng("b", k), 6, pbytes=400, mbits=300))
    for k in range(6 if q else 80): jobs.append(history(c.sub_rng("z", k), 6, zero_probs=True, key=.3))
    for k in range(6 if q else 60):   # mostly inter frames with vectors reaching far out of the picture
        r = c.sub_rng("v", k); w, h = r.choice(((16, 16), (48, 32), (33, 17))); g = vp8gen.Gen(r, w, h)
        o = ["new a %d %d" % (w, h), "dec a " + g.frame().hex()]
        for _ in range(5):
            hd = g.random_header(False, "mv"); hd["pInter"] = 2; hd["mv"] = {i: r.choice((127, 100, 5, 0)) for i in r.sample(range(38), 20)}
            o.append("dec a " + g.frame(key=False, h=hd).hex())
        jobs.append(o + ["check a"])
    for k, (w, h) in enumerate(((16, 2064), (2064, 16)) if q else ((16, 2064), (2064, 16), (16, 8200), (16383, 16), (16, 16383), (8200, 17))):   # long and narrow
        r = c.sub_rng("large", k); g = vp8gen.Gen(r, w, h)
        jobs.append(["new a %d %d" % (w, h)] + ["dec a " + g.frame(key=key, h=dict(yq=20, level=r.choice((0, 20)), skip=128), pbytes=300, nbytes=300).hex() for key in (True, False)])
    enc = vp8kit.encoded(c, c.sub_rng("enc"), 12 if q else 100, 3 if q else 5)
    jobs += enc
    if not q:
        for k in range(6):
            r = c.sub_rng("big", k); g = vp8gen.Gen(r, 176, 144, mbits=200, pbytes=100)
            jobs.append(["new a 176 144"] + ["dec a " + g.frame().hex() for _ in range(3)])
    traces = vp8kit.play_all(jobs)
    c.sample([x[:300] for x in jobs[0][:3]])
    # the judge is not blind: one sample changed in one picture must be noticed
    can = copy.deepcopy(next(t for t in traces if len(t) > 3 and t[2].get("new") and t[1].get("err") == ""))
    can = can[:3]; p = can[2]["new"][-1]; p["y"][len(p["y"]) // 2] ^= 1
    if not c.validate("Vp8Trace", [can], constants=vp8kit.CFG % "TRUE"): raise vc.ModelError("a picture with one wrong sample was accepted")
    c.cov["traces_validated_against_impl"] -= 1
    bad = vp8kit.judge(c, traces, jobs, True, "pictures", timeout=3000)
    tot = vp8kit.stats(c)
    c.cov["encoder_histories"] = len(enc)
    c.log("frames: %s" % dict(tot))
    if not bad and min(tot[k] for k in ("key", "bpred", "split", "gold", "alt", "seg", "lfd", "multi_partition", "filtered", "skip")) == 0:
        raise vc.ModelError("a feature was not exercised: %s" % dict(tot))
    c.assume += ["pictures of frames with blocks that end only by running into the 16th coefficient with nothing but zeros, or whose coefficients leave the range 16-bit arithmetic is specified for, are not compared",
                 "the constant tables of the specification are those of RFC 6386 as cross-checked with libvpx at development time"]
