"""Histories of VP8 frames for the checks about the decoder: generation, playing, statistics."""
import collections, copy, glob, json, os, re
import concurrent.futures as cf
import vc, vp8gen

SIZES = ((16, 16), (40, 24), (33, 49), (64, 64), (17, 80), (1, 1), (15, 31), (80, 17), (16, 112), (31, 32))
CFG = "CONSTANTS Stats = TRUE\n Pictures = %s\n"

def play(lines, timeout=120):
    ev, rc, err = vc.run_lines("vp8", lines, timeout=timeout)
    if rc != 0: ev.append({"e": "died", "rc": rc, "err": err[-500:]})
    return ev

def play_all(jobs, player=None):
    with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(player or play, jobs))

def slim(trace):
    """the trace without the samples (for judging states only)"""
    return [{k: v for k, v in e.items() if k != "new"} for e in trace]

def from_code(g, c):
    """a real header for a header code of Vp8StateMC; g: vp8gen.Gen (its notes keep the values complete where
    the known finding about disabled-and-enabled-again features would show)"""
    r = g.rng; key = c["key"]
    h = g.random_header(key, r.choice(("plain", "q", "lf")))
    h.pop("seg", None); h.pop("lfd", None)
    full = not key
    val = lambda lo, hi: r.randint(lo, hi)
    if c["seg"] != "off":
        again = full and not g.seg and g.everseg
        sg = {}
        if c["seg"] in ("data", "both") or again:
            sg["abs"] = r.randrange(2); lo = 0 if sg["abs"] else -60
            sg["q"] = [vp8gen.opt(r, .8, lambda: val(lo, 100)) for _ in range(4)]
            sg["lf"] = [vp8gen.opt(r, .8, lambda: val(lo and -30, 60)) for _ in range(4)]
        if c["seg"] in ("map", "both") or again: sg["tree"] = [vp8gen.opt(r, .8, lambda: r.randrange(1, 256)) for _ in range(3)]
        h["seg"] = sg
    if c["lfd"] != "off":
        lf = {}
        if c["lfd"] == "upd" or (full and not g.lfd and g.everlfd):
            lf["ref"] = [vp8gen.opt(r, .9, lambda: val(-40, 40)) for _ in range(4)]
            lf["mode"] = [vp8gen.opt(r, .9, lambda: val(-40, 40)) for _ in range(4)]
        h["lfd"] = lf
    h["refreshProbs"] = int(c["save"])
    if not key:
        h["coef"] = {}; h["mv"] = {}; h.pop("ym", None); h.pop("uvm", None)
        if c["upd"]:
            which = r.sample(("coef", "mv", "ym", "uvm"), r.randint(1, 4))
            if "coef" in which: h["coef"] = {r.randrange(1056): r.randrange(1, 256) for _ in range(r.choice((1, 6)))}
            if "mv" in which: h["mv"] = {r.randrange(38): r.randrange(128) for _ in range(r.choice((1, 6)))}
            if "ym" in which: h["ym"] = [r.randrange(1, 256) for _ in range(4)]
            if "uvm" in which: h["uvm"] = [r.randrange(1, 256) for _ in range(3)]
        h["refreshL"] = int(c["rl"])
        h["refreshG"] = int(c["g"] == 3); h["copyG"] = c["g"] % 3
        h["refreshA"] = int(c["a"] == 3); h["copyA"] = c["a"] % 3
    return h

def stats(c, into="frames_decoded"):
    """what the frames validated last exercised, summed over the STAT lines TLC printed"""
    tot = collections.Counter()
    for f in glob.glob(os.path.join(c.work, "tlc-Vp8*", "out.txt")):
        for l in re.findall(r"\"STAT\",\s*\[(.*?)\]", open(f).read(), re.S):
            tot["frames"] += 1
            for k, v in re.findall(r"(\w+) \|-> (\w+)", l):
                if k == "level": tot["filtered"] += v != "0"
                elif k == "parts": tot["multi_partition"] += v != "1"
                else: tot[k] += 1 if v == "TRUE" else 0 if v == "FALSE" else int(v)
    c.cov[into] = dict(tot)
    return tot

def diffs(c): return diffs_in(c, "Vp8")
def diffs_in(c, module):
    """where validation parted"""
    o = collections.Counter()
    for f in glob.glob(os.path.join(c.work, "tlc-%s*" % module, "out.txt")):
        for w in re.findall(r'"DIFF",\s*"(\w+)"', open(f).read()): o[w] += 1
    return dict(o)

def judge(c, traces, jobs, pictures, what, timeout=700, module="Vp8Trace", player=None):
    """validate; report traces that are rejected again when played once more. Returns the rejected indexes."""
    cfg = CFG % ("TRUE" if pictures else "FALSE")
    f = (lambda t: t) if pictures else slim
    rej = c.validate(module, [f(t) for t in traces], constants=cfg, timeout=timeout)
    if rej:
        again = play_all([jobs[i] for i, _ in rej[:24]], player)   # the player that made the traces
        rej2 = c.validate(module, [f(t) for t in again], constants=cfg, timeout=timeout)
        c.log("%d rejected, %d of the first %d again" % (len(rej), len(rej2), len(again)))
        for k, pos in rej2[:2]:
            e = {a: b for a, b in again[k][pos].items() if a not in ("new", "st")} if pos < len(again[k]) else None
            c.violation("%s: frame %d of a history is not decoded as the specification says (%s)" % (what, pos, diffs(c)),
                        {"commands": jobs[rej[k][0]][:pos + 1], "event": e, "position": pos})
    return [i for i, _ in rej]

def encoded(c, rng, n, frames=3):
    """histories of frames made by the real encoder"""
    import vbuild
    jobs = []
    for _ in range(n):
        w, h = rng.choice(((16, 16), (32, 48), (64, 64), (48, 33), (80, 48)))
        o = ["init %d %d" % (w, h)]; p = "i"
        for k in range(frames):
            o.append("enc %s %s %s %d %d" % (p, "f%d" % k, rng.choice(("mild", "busy", "noise", "grad", "flat")), rng.randrange(1000), rng.choice((4, 20, 40, 70, 110))))
            p = "f%d" % k
        jobs.append((w, h, o))
    def one(j):
        ev, rc, err = vc.run_lines("framegen", j[2], timeout=100)
        return ["new a %d %d" % (j[0], j[1])] + ["dec a " + e["h"] for e in ev if "h" in e] + ["check a"]
    with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(one, jobs))
