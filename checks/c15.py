"""C15: a saved decoder state restores to the same state, and damaged files are refused."""
import json, random
import concurrent.futures as cf
import vc, vbuild, vp8gen
REAL = "CONSTANTS CoefN = 1056\n YmN = 4\n UvN = 3\n MvN = 38\n SegN = 4\n AdjN = 4\n Mb = 16\n"
MC = "SPECIFICATION Spec\nCONSTANTS CoefN = %d\n YmN = 1\n UvN = 1\n MvN = 1\n SegN = %d\n AdjN = 1\n Mb = 2\n Sizes = {%s}\n Vals = {0, 200}\n Bytes = {%s}\nINVARIANTS RoundTrip CutRefused LongRefused ChangeSeen\nCHECK_DEADLOCK FALSE\n"
SIZES = ((16, 16), (24, 40), (33, 17), (48, 32), (15, 15), (1, 1), (17, 3), (64, 16))
HOTS = ("plain", "q", "lf", "probs", "mv", "refs", "intra", "seg", "seg", "all", "all")
HOWS = ("path", "string", "file", "build")

def past(rng, g, o, n, base, d="d"):
    """frames of all kinds, each keeping more or less of the state"""
    o.append("dnew %s %d %d" % (d, g.w, g.h))
    for k in range(n):
        o.append("frame %d %s" % (base + k, g.frame(key=(k == 0) or None, hot=rng.choice(HOTS), pbytes=8).hex())); o.append("feed %s %d" % (d, base + k))

def history(rng, tiny=False):
    w, h = rng.choice(SIZES[:1] + SIZES[4:6]) if tiny else rng.choice(SIZES)
    g = vp8gen.Gen(rng, w, h); o = []
    past(rng, g, o, rng.randint(1, 5), 1)
    if rng.random() < .6:   # one interframe that refreshes everything
        hd = g.random_header(False, rng.choice(HOTS)); hd.update(refreshL=1, refreshG=1, refreshA=1)
        o.append("frame 50 %s" % g.frame(key=False, h=hd, pbytes=8).hex()); o.append("feed d 50")
    elif rng.random() < .8: o.append("same d")
    later = []
    for k in range(3):
        o.append("frame %d %s" % (60 + k, g.frame(key=False, hot=rng.choice(HOTS), pbytes=8).hex())); later.append(str(60 + k))
    o.append("save d f " + rng.choice(("path", "string", "file")))
    o.append("load f d " + rng.choice(HOWS))
    if rng.random() < .5: o.append("part d " + rng.choice(("state", "probs", "refs", "seg", "lfd")))
    if tiny:
        o.append("cuts f"); o.append("long f " + rng.choice(("00", "0b", "0b00000000", "05", "06")))
        n, step = 1 + rng.randrange(3), rng.choice((1, 1, 3))
        o.append("sweep f 0 1 %d" % rng.choice((1, 2, 4, 8, 128, 255, rng.randint(1, 255))))
    else:
        o.append("sweep f 0 %d %d" % (rng.choice((7, 11, 13)), rng.randint(1, 255)))
    o.append("both d f " + " ".join(later))
    if rng.random() < .5:   # saved once more, from what was restored
        o += ["same f", "save f g " + rng.choice(("path", "string", "file")), "load g f " + rng.choice(HOWS), "both f g 1 " + later[0]]
    return o

def headers(rng):
    """every byte of the structure (tags, lengths, sizes) changed in many ways"""
    w, h = 16, 16; g = vp8gen.Gen(rng, w, h); o = ["dnew d %d %d" % (w, h)]
    seg = dict(q=[3, -5, 10, 20], lf=[1, 2, -3, 4], tree=[100, 128, 60]); lfd = dict(ref=[5, -5, 10, 2], mode=[3, 4, -9, 5])
    sg, lf = rng.random() < .7, rng.random() < .7
    hd = dict(yq=20, level=9); hd.update({"seg": seg} if sg else {}); hd.update({"lfd": lfd} if lf else {})
    o += ["frame 1 " + g.frame(key=True, h=hd, pbytes=8).hex(), "feed d 1", "save d f path", "load f d build"]
    at = 5 + 9 + 5 + 1101
    struct = set(range(0, 19)) | {at, at + 1} | set(range(at, at + 40)) | set(range(at + 16 + 256 if sg else at, at + (60 + 16 + 256 if sg else 60)))
    for p in sorted(struct):
        for x in rng.sample(range(1, 256), 2) + [rng.choice((1, 2, 3, 4, 7, 8, 12, 15))]: o.append("sweep f %d 100000 %d" % (p, x))
    return o

def play(lines):
    ev, rc, err = vc.run_asan("saved", lines, timeout=250)
    if rc != 0: ev.append({"e": "died", "rc": rc, "err": err[-700:]})
    return ev

def run(c):
    vbuild.build("saved", "saved-asan")
    q = c.quick
    c.model_check("SavedStateMC", MC % (1, 1, "1, 2", "0, 2, 3, 255" if q else "0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 255"), workers=8, heap="8g", timeout=3000)
    if not q: c.model_check("SavedStateMC", MC % (2, 2, "1, 3", "2, 5, 6"), workers=8, heap="16g", timeout=6000)
    jobs = [history(c.sub_rng("h", k)) for k in range(90 if q else 900)] + [history(c.sub_rng("t", k), True) for k in range(24 if q else 160)] + \
           [headers(c.sub_rng("x", k)) for k in range(12 if q else 80)]
    with cf.ThreadPoolExecutor(8) as ex: traces = list(ex.map(play, jobs))
    n = {}
    for t in traces:
        for e in t:
            n[e["e"]] = n.get(e["e"], 0) + 1
            if e["e"] == "sweep": n["bytes_changed"] = n.get("bytes_changed", 0) + len(e["outs"])
            if e["e"] == "load": n["segmented"] = n.get("segmented", 0) + (e["err"] == "" and e["st"]["seg"]["on"]); n["adjusted"] = n.get("adjusted", 0) + (e["err"] == "" and e["st"]["lfd"]["on"])
    c.cov.update(commands=n); c.log("%d histories %s" % (len(jobs), n)); c.sample([l[:120] for l in jobs[0] if not l.startswith("frame")])
    rej = c.validate("SavedTrace", traces, timeout=700 if q else 4000, constants=REAL, heap="3g")
    if rej:
        some = rej[:24]
        again = [play(jobs[i]) for i, _ in some]
        bad = c.validate("SavedTrace", again, timeout=700, constants=REAL)
        for k, pos in bad[:3]:
            ev = again[k][pos] if pos < len(again[k]) else None
            c.violation("history %d: event %d (%s) is not what the saved bytes say" % (some[k][0], pos, ev and {a: b for a, b in ev.items() if a in ("e", "d", "f", "err", "k", "rc", "eq", "str", "mini", "again")}), {"commands": jobs[some[k][0]], "position": pos})
        if not bad: raise vc.ModelError("a rejected history was accepted the second time")
    # altered recordings must be noticed
    cans = []
    def alter(i, kind, f):
        t = json.loads(json.dumps(traces[i]))
        for e in t:
            if e["e"] == kind and f(e): cans.append(t); return
    def byte(e): e["by"][700] ^= 1; return True
    def cuts(e): e["ok"] = [5]; return True
    def sw(e): e["outs"][0][1] ^= 1; return True
    def ref(e): e["L"] = e["L"] % len(e["new"] or [0, 0]) + 2; return False
    def mini(e): e["mini"] = False; return e["G"] == e["L"]
    def both(e): e["b"][0]["str"] += "x"; return True
    same = next(i for i, t in enumerate(traces) if any(e["e"] == "save" and e["L"] == e["G"] == e["A"] for e in t) and t[-1]["e"] == "both")
    t0 = 90 if q else 900
    alter(same, "save", byte); alter(t0, "cuts", cuts); alter(t0, "sweep", sw); alter(same, "both", both); alter(len(jobs) - 1, "load", mini)
    k = len(c.validate("SavedTrace", cans, constants=REAL)); c.cov["traces_validated_against_impl"] -= len(cans)
    c.cov["canaries"] = "%d of %d noticed" % (k, len(cans))
    if k != len(cans): raise vc.ModelError("an altered recording was accepted")
    c.assume += ["the harness's reading of the state (probabilities, map, adjustments, planes) is trusted",
                 "restoring with mismatched sizes, segment numbers above 3 or wrong inner lengths may either be refused or give what is in the file"]
