"""C10: the decoder's memory."""
import json, re
import vc, vbuild, vp8gen, vp8kit
MC = "SPECIFICATION Spec\nCONSTANTS MaxFrames = %d\n EmitLen = %d\n DefaultProbs <- MCDefault\nINVARIANTS %s\n%s\nCHECK_DEADLOCK FALSE\n"
def probes():
    """segmentation or filter deltas disabled by a later frame and enabled again without their values: the values must
    still be there"""
    import random
    base = dict(yq=20, level=20); inter = dict(yq=20, level=20, pInter=60, pLast=200)
    seg = dict(q=[0, 20, -10, 30], lf=[0, 5, -5, 10], tree=[128, 128, 128]); dat = dict(q=seg["q"], lf=seg["lf"]); mp = dict(tree=seg["tree"])
    lf = dict(ref=[5, -5, 10, 2], mode=[3, 4, -9, 5])
    P = {"seg-off-on": ("seg", seg, [None, {}]), "seg-off-on-values": ("seg", seg, [None, dat]), "seg-off-on-map": ("seg", seg, [None, mp]),
         "lfd-off-on": ("lfd", lf, [None, {}]),
         # these must hold
         "seg-kept": ("seg", seg, [{}, {}]), "seg-off-on-both": ("seg", seg, [None, seg]), "lfd-kept": ("lfd", lf, [{}, {}]), "lfd-off-on-all": ("lfd", lf, [None, lf])}
    for name, (f, first, rest) in P.items():
        g = vp8gen.Gen(random.Random(3), 32, 32, pbytes=40, mbits=200)
        o = ["new a 32 32", "dec a " + g.frame(key=True, h=dict(base, **{f: first}), show=True).hex()]
        for x in rest: o.append("dec a " + g.frame(key=False, h=dict(inter, **({f: x} if x is not None else {})), show=True).hex())
        yield name, o
def run(c):
    vbuild.build("vp8")
    q = c.quick
    c.model_check("Vp8StateMC", MC % (2 if q else 3, 0, "KeyResets", "PROPERTIES Laws\nVIEW View"), workers=8, heap="12g", timeout=2500)
    # behaviours of the model, made into frames
    t = c.tlc("Vp8StateMC", MC % (8, 8, "Emit", ""), extra=["-simulate", "num=%d" % (200 if q else 3000), "-depth", "11", "-seed", str(c.seed)], count=False, timeout=600, heap="4g")
    sched = sorted(set(re.findall(r'<<"SCHED", "(.*)">>', t.out)))
    rng = c.sub_rng("s"); sched = rng.sample(sched, min(len(sched), 150 if q else 2000))
    jobs = []
    for s in sched:
        codes = json.loads(json.loads('"%s"' % s))
        w, h = rng.choice(((16, 16), (32, 16), (33, 40), (48, 48))); g = vp8gen.Gen(rng, w, h)
        o = ["new a %d %d" % (w, h)]
        if rng.random() < .5: o.append("dec a " + g.frame(key=True).hex())
        for x in codes: o.append("dec a " + g.frame(key=x["key"], h=vp8kit.from_code(g, x), pbytes=6, nbytes=g.n * 40).hex())
        jobs.append(o)
    nmodel = len(jobs)
    # every pair of reference updates
    acts = [(l, g_, a) for l in (0, 1) for g_ in range(4) for a in range(4)]
    hd = lambda x: dict(yq=20, level=0, pInter=40, refreshL=x[0], refreshG=int(x[1] == 3), copyG=x[1] % 3, refreshA=int(x[2] == 3), copyA=x[2] % 3)
    for x in acts:
        r = c.sub_rng("refs", x); g = vp8gen.Gen(r, 16, 16)
        o = ["new a 16 16", "dec a " + g.frame(key=True, pbytes=20).hex()]
        for y in acts: o += ["dec a " + g.frame(key=False, h=hd(x), pbytes=20).hex(), "dec a " + g.frame(key=False, h=hd(y), pbytes=20).hex()]
        jobs.append(o)
    for k in range(60 if q else 800):
        r = c.sub_rng("h", k); w, h = r.choice(vp8kit.SIZES); g = vp8gen.Gen(r, w, h, key=.15)
        o = ["new a %d %d" % (w, h)]
        for _ in range(12): o.append("dec a " + g.frame(pbytes=8).hex())
        jobs.append(o)
    traces = vp8kit.play_all(jobs)
    c.sample([x[:300] for x in jobs[0][:3]])
    c.cov.update(model_histories=nmodel, reference_pairs=len(acts) ** 2, frames=sum(1 for t in traces for e in t if e["e"] == "dec"), refused=sum(1 for t in traces for e in t if e.get("err")))
    c.log("%d histories, %d frames" % (len(jobs), c.cov["frames"]))
    bad = vp8kit.judge(c, traces, jobs, False, "state", timeout=3000)
    # a probability that is off by one must be noticed
    can = vp8kit.slim(traces[0][:3]); can[-1] = json.loads(json.dumps(can[-1])); can[-1]["st"]["coef"][7] ^= 1
    if not c.validate("Vp8Trace", [can], constants=vp8kit.CFG % "FALSE"): raise vc.ModelError("a wrong probability was accepted")
    c.cov["traces_validated_against_impl"] -= 1
    ps = list(probes()); tr = vp8kit.play_all([o for _, o in ps])
    for i, pos in c.validate("Vp8Trace", [vp8kit.slim(x) for x in tr], constants=vp8kit.CFG % "FALSE"):
        name = ps[i][0]
        if not c.known("probe=%s frame=%d" % (name, pos)):
            c.violation("probe %s: frame %d leaves a state the specification does not explain" % (name, pos), {"commands": ps[i][1][:pos + 1], "position": pos})
    c.cov["probes"] = [n for n, _ in ps]
