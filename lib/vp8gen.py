"""Generates VP8 frames: a boolean coder, a header writer, and histories of random frames.

The rest of the first partition and the coefficient partitions are random bits: decoded, they give modes, vectors
and coefficients distributed as the probabilities in force say, and those the header chooses."""
import os, re

T = {}
def _tables():
    if T: return
    s = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Vp8Tables.tla")).read()
    for m in re.finditer(r"^(\w+) == <<([-0-9,\s]*)>>", s, re.M):
        T[m.group(1)] = [int(x) for x in m.group(2).split(",")]

class BoolEnc:
    def __init__(self):
        self.out = bytearray(); self.rng = 255; self.bottom = 0; self.bits = 24
    def _carry(self):
        i = len(self.out) - 1
        while i >= 0 and self.out[i] == 255:
            self.out[i] = 0; i -= 1
        self.out[i] += 1
    def put(self, b, p=128):
        split = 1 + (((self.rng - 1) * p) >> 8)
        if b: self.bottom += split; self.rng -= split
        else: self.rng = split
        while self.rng < 128:
            self.rng <<= 1
            if self.bottom & (1 << 31): self._carry()
            self.bottom = (self.bottom << 1) & 0xffffffff
            self.bits -= 1
            if self.bits == 0:
                self.out.append(self.bottom >> 24); self.bottom &= 0xffffff; self.bits = 8
    def lit(self, v, n):
        for i in range(n - 1, -1, -1): self.put((v >> i) & 1)
    def flag(self, b): self.put(1 if b else 0)
    def slit(self, v, n): self.lit(abs(v), n); self.flag(v < 0)
    def tree(self, tree, probs, v, i=0):
        """probs: one per node pair"""
        def find(i):
            for b in (0, 1):
                t = tree[i + b]
                if t < 0:
                    if -1 - t == v: return [(i, b)]
                else:
                    r = find(t)
                    if r: return [(i, b)] + r
        for (n, b) in find(i): self.put(b, probs[n // 2])
    def finish(self):
        c, v = self.bits, self.bottom
        if v & (1 << (32 - c)): self._carry()
        v = (v << (c & 7)) & 0xffffffff
        c >>= 3
        while c > 0:
            v = (v << 8) & 0xffffffff; c -= 1
        for _ in range(4):
            self.out.append(v >> 24); v = (v << 8) & 0xffffffff
        return bytes(self.out)

def header(e, h, key):
    """h: dict; missing entries are the quiet defaults"""
    _tables()
    g = h.get
    if key: e.flag(g("colorspace", 0)); e.flag(g("noclamp", 0))
    sg = g("seg")
    e.flag(sg is not None)
    if sg is not None:
        e.flag(sg.get("tree") is not None); e.flag(sg.get("q") is not None)
        if sg.get("q") is not None:
            e.flag(sg.get("abs", 0))
            for v in sg["q"]:
                e.flag(v is not None)
                if v is not None: e.slit(v, 7)
            for v in sg["lf"]:
                e.flag(v is not None)
                if v is not None: e.slit(v, 6)
        if sg.get("tree") is not None:
            for v in sg["tree"]:
                e.flag(v is not None)
                if v is not None: e.lit(v, 8)
    e.flag(g("simple", 0)); e.lit(g("level", 0), 6); e.lit(g("sharp", 0), 3)
    lf = g("lfd")
    e.flag(lf is not None)
    if lf is not None:
        e.flag(lf.get("ref") is not None)
        if lf.get("ref") is not None:
            for v in lf["ref"] + lf["mode"]:
                e.flag(v is not None)
                if v is not None: e.slit(v, 6)
    e.lit(g("parts", 0), 2)
    e.lit(g("yq", 10), 7)
    for v in g("qd", (None,) * 5):
        e.flag(v is not None)
        if v is not None: e.slit(v, 4)
    if not key:
        e.flag(g("refreshG", 0)); e.flag(g("refreshA", 0))
        if not g("refreshG", 0): e.lit(g("copyG", 0), 2)
        if not g("refreshA", 0): e.lit(g("copyA", 0), 2)
        e.flag(g("biasG", 0)); e.flag(g("biasA", 0))
    e.flag(g("refreshProbs", 1))
    if not key: e.flag(g("refreshL", 1))
    cu = g("coef", {})
    for i in range(1056):
        e.put(1 if i in cu else 0, T["CoefUpdateProb"][i])
        if i in cu: e.lit(cu[i], 8)
    e.flag(g("skip") is not None)
    if g("skip") is not None: e.lit(g("skip"), 8)
    if not key:
        e.lit(g("pInter", 128), 8); e.lit(g("pLast", 128), 8); e.lit(g("pGold", 128), 8)
        e.flag(g("ym") is not None)
        for v in g("ym") or (): e.lit(v, 8)
        e.flag(g("uvm") is not None)
        for v in g("uvm") or (): e.lit(v, 8)
        mu = g("mv", {})
        for i in range(38):
            e.put(1 if i in mu else 0, T["MvUpdateProb"][i])
            if i in mu: e.lit(mu[i], 7)

def tag(key, show, plen, version=0):
    v = (0 if key else 1) | (version << 1) | ((1 if show else 0) << 4) | (plen << 5)
    return bytes((v & 255, (v >> 8) & 255, v >> 16))

def assemble(key, show, first, parts, w, h, version=0, start=b"\x9d\x01\x2a", scale=0, plen=None):
    b = tag(key, show, len(first) if plen is None else plen, version)
    if key: b += start + (w | (scale << 14)).to_bytes(2, "little") + (h | (scale << 14)).to_bytes(2, "little")
    b += first
    for p in parts[:-1]: b += len(p).to_bytes(3, "little")
    for p in parts: b += p
    return b

def rbytes(rng, n): return bytes([rng.randrange(255)]) + bytes(rng.randrange(256) for _ in range(n - 1))

def opt(rng, p, f): return f() if rng.random() < p else None

class Gen:
    """Random histories for one decoder of w x h pictures."""
    def __init__(self, rng, w, h, **kw):
        self.rng, self.w, self.h = rng, w, h
        self.n = ((w + 15) // 16) * ((h + 15) // 16)
        self.seg = self.lfd = False      # enabled now
        self.segknown = self.lfdknown = False   # enabled continuously since the last data
        self.first = True
        self.kw = kw

    def random_header(self, key, hot=None):
        r = self.rng; h = {}
        hot = hot or r.choice(("plain", "q", "lf", "seg", "probs", "mv", "all", "refs", "intra"))
        A = hot == "all"
        h["yq"] = r.choice((0, 1, 4, r.randrange(128), r.randrange(40), r.randrange(20), 60 if not A else 127))
        if A or hot == "q" or r.random() < .2: h["qd"] = [opt(r, .6, lambda: r.randint(-15, 15)) for _ in range(5)]
        h["level"] = 0 if r.random() < .15 else r.choice((r.randrange(64), r.randrange(20), 63, 14, 15, 16, 19, 20, 39, 40))
        h["sharp"] = r.choice((0, 0, r.randrange(8), 4, 5, 7))
        # segmentation
        if r.random() < (.85 if A or hot == "seg" else .25):
            fresh = key or not self.seg
            sg = {}
            if fresh or r.random() < .5:
                if r.random() < .5: sg["abs"] = 1
                mag = 127 if r.random() < .3 else 30
                lo = 0 if sg.get("abs") else -mag
                sg["q"] = [opt(r, .75, lambda: r.randint(lo, mag)) for _ in range(4)]
                m2 = 63 if r.random() < .4 else 20
                l2 = 0 if sg.get("abs") else -m2
                sg["lf"] = [opt(r, .75, lambda: r.randint(l2, m2)) for _ in range(4)]
            if (fresh and not key and self.everseg) or r.random() < .6:
                sg["tree"] = [opt(r, .8, lambda: r.randrange(256)) for _ in range(3)]
            h["seg"] = sg
        # loop filter deltas
        if r.random() < (.85 if A or hot == "lf" else .3):
            lf = {}
            if (not key and not self.lfd) or r.random() < .6:
                m = r.choice((63, 20, 6))
                lf["ref"] = [opt(r, self.kw.get("flagged", .8), lambda: r.randint(-m, m)) for _ in range(4)]
                lf["mode"] = [opt(r, self.kw.get("flagged", .8), lambda: r.randint(-m, m)) for _ in range(4)]
            h["lfd"] = lf
        h["parts"] = r.choice((0, 0, 1, 2, 3))
        h["refreshProbs"] = r.randrange(2)
        cu = {}
        if A or hot == "probs" or r.random() < .2:
            for _ in range(r.choice((1, 5, 40, 200))): cu[r.randrange(1056)] = r.choice((r.randrange(1, 256), 255, 1, 128))
        if self.kw.get("zero_probs") and r.random() < .3:
            for _ in range(3): cu[r.randrange(1056)] = 0
        h["coef"] = cu
        if r.random() < .6: h["skip"] = r.choice((r.randrange(1, 256), 128, 60, 250, 1))
        if not key:
            R = A or hot == "refs"
            h["refreshG"] = int(r.random() < (.3 if R else .15)); h["refreshA"] = int(r.random() < (.3 if R else .15))
            h["copyG"] = r.randrange(3) if R or r.random() < .3 else 0
            h["copyA"] = r.randrange(3) if R or r.random() < .3 else 0
            h["biasG"] = r.randrange(2) if R or r.random() < .4 else 0
            h["biasA"] = r.randrange(2) if R or r.random() < .4 else 0
            h["refreshL"] = int(r.random() < (.6 if R else .85))
            h["pInter"] = r.choice((20, 20, 60, 128, r.randrange(1, 256), 250 if hot == "intra" else 5))
            h["pLast"] = r.choice((128, 200, r.randrange(1, 256), 60)); h["pGold"] = r.choice((128, r.randrange(1, 256)))
            if hot in ("probs", "all", "intra") or r.random() < .15: h["ym"] = [r.randrange(1, 256) for _ in range(4)]
            if hot in ("probs", "all", "intra") or r.random() < .15: h["uvm"] = [r.randrange(1, 256) for _ in range(3)]
            mu = {}
            if hot in ("mv", "all") or r.random() < .3:
                for _ in range(r.choice((1, 4, 20))): mu[r.randrange(38)] = r.choice((r.randrange(128), 0, 127))
            h["mv"] = mu
        return h

    everseg = everlfd = False
    def note(self, key, h):
        if key: self.everseg = self.everlfd = False
        self.seg = "seg" in h; self.lfd = "lfd" in h
        if self.seg: self.everseg = True
        if self.lfd: self.everlfd = True

    def frame(self, key=None, h=None, show=None, nbytes=None, pbytes=None, hot=None):
        r = self.rng
        if key is None: key = self.first or r.random() < self.kw.get("key", .12)
        if h is None: h = self.random_header(key, hot)
        e = BoolEnc(); header(e, h, key)
        for _ in range(nbytes if nbytes is not None else self.n * self.kw.get("mbits", 60)): e.put(r.randrange(2))
        if show is None: show = r.random() < .85
        np = 1 << h.get("parts", 0)
        k = pbytes if pbytes is not None else self.kw.get("pbytes") or r.choice((6, 20, 60, 200))
        parts = [rbytes(r, (self.n * k if self.kw.get("pbytes") else r.randrange(1, max(2, (self.n * k) // np + 2)))) for _ in range(np)]
        self.note(key, h); self.first = False
        return assemble(key, show, e.finish(), parts, self.w, self.h)
