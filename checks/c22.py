"""C22: what the tools report about files."""
import concurrent.futures as cf, os, re, shutil, subprocess, tempfile
import vc, vbuild, vp8gen, vp8kit

MB = ["DC_PRED", "V_PRED", "H_PRED", "TM_PRED", "B_PRED", "NEARESTMV", "NEARMV", "ZEROMV", "NEWMV", "SPLITMV"]
BM = ["B_DC_PRED", "B_TM_PRED", "B_VE_PRED", "B_HE_PRED", "B_LD_PRED", "B_RD_PRED", "B_VR_PRED", "B_VL_PRED", "B_HD_PRED", "B_HU_PRED", "LEFT4X4", "ABOVE4X4", "ZERO4X4", "NEW4X4"]
REF = ["CURRENT_FRAME", "LAST_FRAME", "GOLDEN_FRAME", "ALTREF_FRAME"]
SAYS = [("different", "decoders are diff"), ("dims", "dimensions are diff"), ("state", "decoder states are diff"), ("probs", "probability tables are diff"), ("coef", "coefficient prob"),
        ("ym", "y-mode prob"), ("uvm", "uv-mode prob"), ("mv", "motion vector prob"), ("seg", "segmentations"), ("lfd", "filter adjustments"), ("refs", "references are diff"),
        ("last", "last ref"), ("golden", "golden ref"), ("alt", "alternative ref")]

class Odd(Exception): pass

def dissected(text, opt):
    """what xc-dissect printed, one record for each frame"""
    L = [x.rstrip() for x in text.split("\n")]; L = [x for x in L if x]; at = 0
    def peek(): return L[at] if at < len(L) else ""
    def take(rx):
        nonlocal at
        m = re.fullmatch(rx, peek())
        if not m: raise Odd("line %d: %r where %r was expected" % (at, peek(), rx))
        at += 1; return m
    def has(rx): return re.fullmatch(rx, peek()) is not None
    def num(key): return int(take(r"\s*%s:\s+(-?\d+)" % key)[1])
    def flag(key):
        v = num(key)
        if v not in (0, 1): raise Odd(key)
        return v == 1
    def nums(key, n, f=int):
        v = [f(x) for x in take(r"\s*%s:\s+(.*)" % key)[1].split()]
        if len(v) != n: raise Odd(key)
        return v
    def opt_(x): return [0, 0] if x == "X" else [1, int(x)]
    def blocks(plane, n, coef, modes):
        c, bm = [], []
        for i in range(n):
            w = 4 if n == 16 else 2
            m = take(r"%s Subblock \[ (\d+), (\d+) \]" % plane)
            if (int(m[1]), int(m[2])) != (i % w, i // w): raise Odd("order of blocks")
            if modes: bm.append(BM.index(take(r"Prediction Mode: (\w+)")[1]))
            if coef: c.append(coeffs())
        return c, bm
    def coeffs():
        m = take(r"ALL ZERO|DCT coeffs: \{ (.*) \}")
        v = [0] * 16 if m[1] is None else [int(x) for x in m[1].split(",")]
        if len(v) != 16: raise Odd("coefficients")
        return v
    out = []
    try:
        while at < len(L):
            m = take(r">> Frame #(\d+) \((KF|IF)\)"); key = m[2] == "KF"
            f = {"n": int(m[1]), "key": key, "size": int(take(r"\s*Size: (\d+) B")[1]), "probs": [], "mbs": []}
            if opt["p"]:
                take(r"\[Probability Tables\]")
                for t in range(96):
                    m = take(r"\[ (\d+), (\d+), (\d+) \] = \{ (.*)\}")
                    v = m[4].split()
                    if (int(m[1]), int(m[2]), int(m[3])) != (t // 24, t // 3 % 8, t % 3) or len(v) != 11: raise Odd("table")
                    f["probs"] += [[t * 11 + i + 1, int(x)] for i, x in enumerate(v) if x != "-"]
            f["hidden"] = has(r"\(hidden frame\)")
            if f["hidden"]: take(".*")
            take(r"\[Keyframe Header\]" if key else r"\[Interframe Header\]"); h = f["h"] = {}
            if key and (flag("color_space") or flag("clamping_type")): raise Odd("color space")
            h["refreshProbs"] = flag("refresh_entropy_probs"); h["seg"] = flag("update_segmentation")
            if flag("filter_type"): raise Odd("filter type")
            h["lfd"] = flag("mode_lf_adjustments"); h["upd"] = False; h["ref"] = []; h["mode"] = []
            if h["lfd"]:
                h["upd"] = flag("lf_delta_update")
                if h["upd"]: h["ref"] = nums("ref_update", 4, opt_); h["mode"] = nums("mode_update", 4, opt_)
            h["level"] = num("loop_filter_level"); h["sharp"] = num("sharpness_level"); h["skipOn"] = flag("mb_no_skip_coeff")
            h["skipProb"] = num("prob_skip_false") if h["skipOn"] else 0
            h.update(refreshL=True, refreshG=True, refreshA=True, pInter=0, pLast=0, pGold=0, ym=[], uvm=[], mv=[])
            if not key:
                h["refreshL"] = flag("refresh_last"); h["refreshG"] = flag("refresh_golden_frame"); h["refreshA"] = flag("refresh_alternate_frame")
                h["pInter"] = num("prob_inter"); h["pLast"] = num("prob_last"); h["pGold"] = num("prob_golden")
                if flag("16x16_prob_update"): h["ym"] = nums("16x16_prob", 4)
                if flag("chroma_prob_update"): h["uvm"] = nums("chroma_prob", 3)
                v = take(r"mv_prob_update:\s+(\S+)")[1].split("|")
                if len(v) != 38: raise Odd("mv_prob_update")
                h["mv"] = [0 if x == "-" else int(x) for x in v]
            take(r"\[Quantizer\]"); h["yq"] = int(take(r"y_ac_qi\s*= (\d+)")[1])
            h["qd"] = [int(take(r"%s\s*= (-?\d+)" % q)[1]) if has(r"%s\s*= (-?\d+)" % q) else 0 for q in ("y_dc", "y2_dc", "y2_ac", "uv_dc", "uv_ac")]
            if opt["m"]:
                take(r"\[Macroblocks\]"); cols = (opt["w"] + 15) // 16; k = 0; co = opt["c"]
                while has(r"Macroblock .*"):
                    m = take(r"Macroblock \[ (\d+), (\d+) \]")
                    if (int(m[1]), int(m[2])) != (k % cols, k // cols): raise Odd("order of macroblocks")
                    k += 1; take("<Y>"); ym = MB.index(take(r"Prediction Mode: (\w+)")[1]); mv, ref, uvm = [0, 0], 0, 0
                    if ym > 4:
                        m = take(r"Base Motion Vector: \( (-?\d+), (-?\d+) \)"); mv = [int(m[2]), int(m[1])]
                        ref = REF.index(take(r"Reference: (\w+)")[1])
                    y, bm = blocks("Y", 16, co, ym in (4, 9)); y2 = []
                    if co and ym not in (4, 9): take("<Y2>"); y2 = [coeffs()]
                    take("<U>"); uvs = []
                    if ym < 5: uvs.append(take(r"Prediction Mode: (\w+)")[1])
                    u, _ = blocks("U", 4, co, False); take("<V>")
                    if ym < 5: uvs.append(take(r"Prediction Mode: (\w+)")[1])
                    v, _ = blocks("V", 4, co, False)
                    if uvs:
                        if uvs[0] != uvs[1]: raise Odd("chroma modes")
                        uvm = MB.index(uvs[0])
                    f["mbs"].append({"m": {"ym": ym, "ref": ref, "mv": mv, "uvm": uvm, "bm": bm}, "c": y + u + v + y2})
            out.append(f)
        return out, ""
    except (Odd, ValueError, IndexError) as x: return out, str(x) or "odd"

def ivf(p, w, h, fs, x=0):
    b = b"DKIF" + bytes((0, 0, 32, 0)) + b"VP80" + w.to_bytes(2, "little") + h.to_bytes(2, "little") + (1).to_bytes(4, "little") * 2 + len(fs).to_bytes(4, "little") + x.to_bytes(4, "little")
    for i, f in enumerate(fs): b += len(f).to_bytes(4, "little") + i.to_bytes(8, "little") + f
    open(p, "wb").write(b)
def tool(name, args):
    try:
        r = subprocess.run([vbuild.exe(name)] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired: return -999, "", ""
def hash_of(line):
    ev, rc, err = vc.run_lines("tools", [line], timeout=60)
    return ev[0].get("hash", -1) if ev else -1

SZ = ((16, 16), (32, 16), (33, 20), (48, 32), (1, 1), (17, 31))
def history(r, n, pbytes=None, key=.2, hide=.15, size=None):
    """frames generated bit by bit"""
    w, h = size or r.choice(SZ); g = vp8gen.Gen(r, w, h, key=key)
    return w, h, g, [g.frame(show=r.random() >= hide, pbytes=pbytes) for _ in range(n)]
def made(r, w, h, n):
    """frames made by the real encoder"""
    o = ["init %d %d" % (w, h)]; p = "i"
    for k in range(n): o.append("enc %s f%d %s %d %d" % (p, k, r.choice(("mild", "busy", "noise", "grad", "flat")), r.randrange(1000), r.choice((4, 20, 40, 70, 110)))); p = "f%d" % k
    ev, rc, err = vc.run_lines("framegen", o, timeout=100)
    return [bytes.fromhex(e["h"]) for e in ev if "h" in e]
def raw(r, w, h, base=None):
    n = w * h + 2 * ((w + 1) // 2) * ((h + 1) // 2)
    if base is None:
        k = r.randrange(3)
        return r.randbytes(n) if k == 0 else bytes([r.randrange(256)]) * n if k == 1 else bytes((i * i // 7 + (i >> 3)) & 255 for i in range(n))
    amp = r.choice((0, 1, 4, 20, 90)); return bytes(min(255, max(0, b + r.randint(-amp, amp))) for b in base)

def dissect(d, r, opt, w, h, before, fs):
    """one run of xc-dissect"""
    P = lambda s: os.path.join(d, s); args = ["-" + o for o in "pmc" if opt[o]]; hs, x = hash_of("fresh %d %d" % (w, h)), 0
    e = {"e": "dissect", "w": w, "h": h, "before": [list(f) for f in before], "fs": [list(f) for f in fs], "only": -1, "p": opt["p"], "m": opt["m"], "c": opt["c"], "x": "", "hash": "", "odd": False, "why": ""}
    if before:
        ivf(P("b.ivf"), w, h, before)
        if tool("xc-dump", [P("b.ivf"), P("st")])[0] != 0: return None
        args += ["-s", P("st")]; hs = hash_of("load " + P("st"))
    if r.random() < .6: x = hs if r.random() < .5 else r.choice((1, hs ^ 1, 2 ** 32 - 1))
    if opt["f"]: e["only"] = r.randrange(len(fs) + 1); args += ["-f", str(e["only"])]
    ivf(P("a.ivf"), w, h, fs, x); e["x"] = "%d" % x if x else ""; e["hash"] = "%d" % hs
    rc, out, err = tool("xc-dissect", args + [P("a.ivf")])
    e["rc"] = rc; e["warned"] = "WARNING" in err
    e["out"], e["why"] = dissected(out, dict(opt, w=w)); e["odd"] = e["why"] != ""
    return e

def in_dir(f):
    def g(a):
        d = tempfile.mkdtemp(prefix="c22-")
        try: return f(d, *a)
        finally: shutil.rmtree(d)
    return g

@in_dir
def job_dissect(d, r, k):
    opt = {"p": r.random() < .4, "m": r.random() < .7, "c": r.random() < .6, "f": r.random() < .15}
    if k % 4 == 0: w, h = r.choice(SZ[:4]); fs = made(r, w, h, 5)
    else: w, h, g, fs = history(r, r.choice((2, 4, 6)), pbytes=r.choice((4, 30)))
    n = r.randrange(1, len(fs)) if r.random() < .3 else 0
    # (a state is saved after a shown frame)
    while n and not fs[n - 1][0] & 16: n -= 1
    e = dissect(d, r, opt, w, h, fs[:n], fs[n:])
    return [e] if e else []

@in_dir
def job_ssim(d, r, k):
    w, h = r.choice(SZ[:4] + ((17, 31),)); P = lambda s: os.path.join(d, s); vs, args = [], []
    A = [raw(r, w, h) for _ in range(r.choice((1, 2, 3, 4)))]
    n = w * h; q = (n + len(A[0])) // 2
    for j in range(1, len(A)):   # planes that stay as they were in the picture before
        if r.random() < .6:
            o, x = A[j - 1], A[j]; keep = r.choice(((1, 0, 0), (1, 0, 1), (0, 1, 1), (0, 1, 0), (1, 1, 0)))
            A[j] = b"".join((o if c else x)[a:b] for c, a, b in zip(keep, (0, n, q), (n, q, len(o))))
    for i in range(2):
        if r.random() < .45:
            g = vp8gen.Gen(r, w, h, key=.3)
            fs = made(r, w, h, r.choice((1, 2, 3))) if r.random() < .6 else [g.frame(pbytes=2, show=(j == 2 or r.random() < .7)) for j in range(3)]
            ivf(P("v%d" % i), w, h, fs); args += ["-%d" % (i + 1), "ivf"] if r.random() < .6 else []
        else:
            fs = A if i == 0 else [raw(r, w, h, x) for x in A] + [raw(r, w, h)] * r.choice((0, 1))
            open(P("v%d" % i), "wb").write(b"YUV4MPEG2 W%d H%d F25:1 C420\n" % (w, h) + b"".join(b"FRAME\n" + x for x in fs)); args += ["-%d" % (i + 1), "y4m"]
        vs.append({"raw": args[-1:] == ["y4m"] and len(args) >= 2 and args[-2] == "-%d" % (i + 1), "fs": [list(x) for x in fs]})
    all_ = r.random() < .7
    rc, out, err = tool("xc-ssim", args + (["-a"] if all_ else []) + [P("v0"), P("v1")])
    e = {"e": "ssim", "w": w, "h": h, "a": vs[0], "b": vs[1], "all": all_, "rc": rc, "odd": False}
    try:
        e["out"] = [[round(float(x) * 1e6) for x in l.split("\t")] for l in out.splitlines()]
        if any(abs(x) > 2 * 10**6 for l in e["out"] for x in l): raise ValueError
    except (ValueError, OverflowError): e["out"] = []; e["odd"] = True
    return [e]

def variants(r, g, base):
    """frames that leave different things behind: (name, header)"""
    b = dict(base)
    yield "same", b
    yield "coef", dict(b, coef={r.randrange(1056): r.randrange(1, 256)}, refreshProbs=1)
    yield "coef-not-kept", dict(b, coef={r.randrange(1056): r.randrange(1, 256)}, refreshProbs=0)
    yield "ym", dict(b, ym=[r.randrange(1, 256) for _ in range(4)], refreshProbs=1)
    yield "uvm", dict(b, uvm=[r.randrange(1, 256) for _ in range(3)], refreshProbs=1)
    yield "mv", dict(b, mv={r.randrange(38): r.randrange(128)}, refreshProbs=1)
    yield "seg", dict(b, seg=dict(q=[1, 2, 3, r.randrange(60)], lf=[0, 0, 0, 0]))
    yield "segmap", dict(b, seg=dict(tree=[128, 128, 128], q=[1, 2, 3, 4], lf=[0, 0, 0, 0]))
    yield "lfd", dict(b, lfd=dict(ref=[1, 2, 3, 4], mode=[0, r.randrange(20), 0, 0]))
    yield "lfd0", dict(b, lfd=dict(ref=[0, 0, 0, 0], mode=[0, 0, 0, 0]))
    yield "all", dict(b, coef={5: 77}, mv={3: 99}, ym=[9, 9, 9, 9], uvm=[8, 8, 8], refreshProbs=1, seg=dict(q=[9, 0, 0, 0], lf=[0, 5, 0, 0]), lfd=dict(ref=[5, 5, 5, 5], mode=[1, 1, 1, 1]))

@in_dir
def job_states(d, r, k):
    """two saved states, told apart both ways"""
    w, h = r.choice(((16, 16), (32, 16), (20, 30))); P = lambda s: os.path.join(d, s)
    seed = r.randrange(10**9)
    import random
    g = vp8gen.Gen(random.Random(seed), w, h, key=.2)
    common = made(r, w, h, 2) if k % 3 == 0 else [g.frame(key=True, show=True, pbytes=2)]
    base = dict(yq=20, level=r.choice((0, 10)), pInter=r.choice((250, 2)), pLast=255, refreshL=int(r.random() < .6), skip=1)
    vs = list(variants(r, g, base)); hs = []
    for i in range(2):
        x = vs[0] if r.random() < .25 else r.choice(vs)
        gg = vp8gen.Gen(random.Random(seed + (0 if r.random() < .6 else 1)), w, h); gg.first = False
        hs.append([list(f) for f in common + [gg.frame(key=False, h=x[1], show=True, pbytes=2, nbytes=400)]])
        ivf(P("%d.ivf" % i), w, h, [bytes(f) for f in hs[i]])
        if tool("xc-dump", [P("%d.ivf" % i), P("st%d" % i)])[0] != 0: return []
    ev = []
    for x, y in ((0, 1), (1, 0)):
        rc, out, err = tool("xc-diff", [P("st%d" % x), P("st%d" % y)])
        said = []; odd = False
        for l in out.splitlines():
            m = [a for a, t in SAYS if l.strip().lower().startswith(t)]
            if len(m) == 1: said += m
            else: odd = True
        ev.append({"e": "diff", "w": w, "h": h, "a": hs[x], "b": hs[y], "out": said, "odd": odd, "rc": rc})
    rc, out, err = tool("comp-states", [P("st0"), P("st1")])
    e = {"e": "comp", "w": w, "h": h, "a": hs[0], "b": hs[1], "ba": list(open(P("st0"), "rb").read()), "bb": list(open(P("st1"), "rb").read()), "rc": rc, "odd": False, "bits": -1, "more": False, "share": 0, "mean": 0, "nan": False}
    m = re.fullmatch(r"(\d+)(?: (\S+) (\S+))?\s*", out)
    try:
        e["bits"] = int(m[1]); e["more"] = m[2] is not None
        if m[2]:
            e["share"] = round(float(m[2]) * 1e5); e["nan"] = "nan" in m[3].lower()
            if not e["nan"]: e["mean"] = round(float(m[3]) * 1000)
    except (TypeError, ValueError, OverflowError): e["odd"] = True
    return ev + [e]

def run(c):
    vbuild.build("xc-dissect", "xc-ssim", "xc-diff", "comp-states", "xc-dump", "tools", "framegen")
    q = c.quick
    c.model_check("ReportMC", "SPECIFICATION Spec\nCONSTANT MaxSteps = %d\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n" % (4 if q else 6), workers=8, heap="6g", timeout=2000)
    jobs = [(f, n, k) for f, n in ((job_dissect, 240 if q else 1500), (job_ssim, 120 if q else 600), (job_states, 90 if q else 900)) for k in range(n)]
    do = lambda j: j[0]((c.sub_rng(*[j[0] is f for f in (job_dissect, job_ssim, job_states)], j[2]), j[2]))
    with cf.ThreadPoolExecutor(8) as ex: traces = list(ex.map(do, jobs))
    jobs, traces = zip(*[(j, t) for j, t in zip(jobs, traces) if t])
    ev = [e for t in traces for e in t]
    c.cov.update(frames_taken_apart=sum(len(e["out"]) for e in ev if e["e"] == "dissect"), macroblocks=sum(len(f["mbs"]) for e in ev if e["e"] == "dissect" for f in e["out"]),
                 pairs_of_pictures=sum(len(e["out"]) for e in ev if e["e"] == "ssim"), pairs_of_states=sum(e["e"] == "comp" for e in ev),
                 states_told_apart=sum(e["e"] == "diff" and e["out"] != [] for e in ev))
    c.log(str({k: v for k, v in c.cov.items() if k in ("frames_taken_apart", "macroblocks", "pairs_of_pictures", "pairs_of_states", "states_told_apart")}))
    c.sample([{a: b for a, b in e.items() if a in ("e", "w", "h", "only", "x")} for e in ev[:3]])
    # canaries: one value of a report changed
    import json
    def canary(kind, change):
        e = json.loads(json.dumps(next(e for e in ev if e["e"] == kind[0] and kind[1](e)))); change(e)
        if not c.validate("ReportTrace", [[e]]): raise vc.ModelError("a wrong %s report was accepted" % kind[0])
        c.cov["traces_validated_against_impl"] -= 1
    rej = c.validate("ReportTrace", list(traces), timeout=800)
    if not rej:
        def bump(e): e["out"][0]["h"]["sharp"] ^= 1
        canary(("dissect", lambda e: e["out"] and e["rc"] == 0), bump)
        def drop(e): e["out"] = e["out"][:-1]
        canary(("diff", lambda e: "coef" in e["out"]), drop)
    for i, pos in rej[:3]:
        again = do(jobs[i])
        if not c.validate("ReportTrace", [again]): continue
        e = {a: b for a, b in traces[i][pos].items() if a not in ("ba", "bb")} if pos < len(traces[i]) else None
        c.violation("the report of a tool (%s) is not what the files contain (%s)" % (e and e["e"], (e or {}).get("why") or vp8kit.diffs_in(c, "ReportTrace")), {"event": e, "position": pos})
    c.assume += ["reports are read from the tools' text; figures to the precision printed (likeness to 0.0025)"]
