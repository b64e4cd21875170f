"""C19: chunks of video encoded, cut, joined and continued with the tools."""
import json, os, re, shutil, signal, subprocess, tempfile
import concurrent.futures as cf
import vc, vbuild, vp8gen

MC = """SPECIFICATION Spec
CONSTANTS MaxFiles = %d
 Lens <- %s
 EmitLen = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
CRASH = {-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL, -999}
SIZES = ((16, 16), (32, 16), (17, 33), (48, 32), (1, 1), (40, 24))

def planes(w, h): return w * h + 2 * ((w + 1) // 2) * ((h + 1) // 2)

class Died(Exception): pass

class World:
    """a scratch directory with files in it, the tools run there, and the recording of both"""
    def __init__(self, rng):
        self.rng = rng
        self.dir = tempfile.mkdtemp(prefix="c19-")
        self.look = subprocess.Popen([vbuild.exe("tools")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.files, self.events, self.cmds, self.asked = [], [], [], []
        self.T, self.st, self.fr, self.by, self.disp, self.fresh_, self.pxs, self.ys, self.loaded = {}, {}, {}, {}, {}, {}, {}, {}, {}
        self.k = 0
    def close(self):
        try: self.look.stdin.close()
        except BrokenPipeError: pass
        self.look.wait(); shutil.rmtree(self.dir)
    def ask(self, line):
        self.asked.append(line)
        try: self.look.stdin.write(line + "\n"); self.look.stdin.flush(); l = self.look.stdout.readline()
        except BrokenPipeError: l = ""
        if not l: raise Died(line[:200])
        return json.loads(l)
    def path(self, ext):
        self.k += 1; return os.path.join(self.dir, "f%d.%s" % (self.k, ext))
    # --- what decoding gives
    def note(self, e):
        s = "s%d" % e["s"]
        self.st[s] = {"h": "h%d" % e["hash"], "w": e["w"], "h2": e["h"], "L": "p%s" % e["L"], "G": "p%s" % e["G"], "A": "p%s" % e["A"], "B": "b%s" % e["B"]}
        return s
    def fresh(self, w, h):
        if (w, h) not in self.fresh_: self.fresh_[w, h] = self.note(self.ask("fresh %d %d" % (w, h)))
        return self.fresh_[w, h]
    def frame(self, b):
        if b not in self.by:
            f = self.by[b] = "f%d" % (len(self.by) + 1)
            self.fr[f] = {"key": bool(b) and not b[0] & 1, "by": list(b), "n": len(b), "yq": 0, "seg": False}
        return self.by[b]
    def step(self, s, f):
        t = self.T.setdefault(s, {})
        if f not in t:
            e = self.ask("step %s %s" % (s[1:], bytes(self.fr[f]["by"]).hex() or "-"))
            if e["err"]: t[f] = {"ok": False, "shown": False, "pic": "", "to": s}
            else:
                self.fr[f]["yq"] = e["yq"]; self.fr[f]["seg"] = e["seg"]
                pic = "p%s" % e["pic"]; self.disp[pic] = self.px(bytes.fromhex(e["px"]))
                t[f] = {"ok": True, "shown": e["shown"], "pic": pic, "to": self.note(e)}
        return t[f]
    def px(self, b): return self.pxs.setdefault(b, "d%d" % (len(self.pxs) + 1))
    def play(self, s, fs):
        for f in fs:
            r = self.step(s, f)
            if not r["ok"]: break
            s = r["to"]
        return s
    # --- files
    def read(self, p):
        """the content of a file"""
        b = open(p, "rb").read() if os.path.exists(p) else b""
        if p.endswith(".ivf"):
            try:
                assert b[:4] == b"DKIF" and b[4:8] == bytes((0, 0, 32, 0)) and len(b) >= 32
                le = lambda i, n: int.from_bytes(b[i:i + n], "little")
                o, f = 32, []
                for _ in range(le(24, 4)):
                    assert o + 12 <= len(b); n = le(o, 4); assert o + 12 + n <= len(b)
                    f.append(self.frame(b[o + 12:o + 12 + n])); o += 12 + n
                return {"k": "ivf", "w": le(12, 2), "h": le(14, 2), "x": "h%d" % le(28, 4) if le(28, 4) else "", "f": f, "n": len(b)}
            except AssertionError: return {"k": "bad"}
        if p.endswith(".st"):
            if b not in self.loaded:
                e = self.ask("load " + p)
                self.loaded[b] = {"k": "bad"} if e["err"] else {"k": "st", "s": self.note(e)}
            return self.loaded[b]
        return {"k": "bad"}
    def video(self, b, pics):
        """the displayed pictures of raw video, or None"""
        m = re.match(rb"YUV4MPEG2 W(\d+) H(\d+) [^\n]*\n", b)
        if not m: return [] if not b else None
        n = planes(int(m[1]), int(m[2])); o = m.end(); out = []
        while o < len(b):
            if b[o:o + 6] != b"FRAME\n" or o + 6 + n > len(b): return None
            out.append(self.px(b[o + 6:o + 6 + n])); o += 6 + n
        return out
    def add(self, p, c):
        self.files.append((p, c)); self.cmds.append("file %d: %s" % (len(self.files), json.dumps(c)))
        self.events.append({"e": "file", "c": c}); return len(self.files)
    def ivf(self, w, h, frames, x=0, cut=None):
        p = self.path("ivf")
        b = b"DKIF" + bytes((0, 0, 32, 0)) + b"VP80" + w.to_bytes(2, "little") + h.to_bytes(2, "little") + (1).to_bytes(4, "little") * 2 + len(frames).to_bytes(4, "little") + x.to_bytes(4, "little")
        for i, f in enumerate(frames): b += len(f).to_bytes(4, "little") + i.to_bytes(8, "little") + f
        open(p, "wb").write(b if cut is None else b[:cut])
        return self.add(p, self.read(p))
    def y4m(self, w, h, pics):
        p = self.path("y4m")
        open(p, "wb").write(b"YUV4MPEG2 W%d H%d F25:1 Ip A0:0 C420\n" % (w, h) + b"".join(b"FRAME\n" + x for x in pics))
        return self.add(p, {"k": "y4m", "w": w, "h": h, "p": [self.px(x) for x in pics]})
    def state(self, cut=None, of=None):
        p = self.path("st"); b = open(self.files[of - 1][0], "rb").read()
        open(p, "wb").write(b[:cut]); return self.add(p, self.read(p))
    def raw(self, n): return self.files[n - 1]
    # --- the table
    def measure(self):
        """everything the specification may ask: each chunk from the start and from each state of its size"""
        ivfs = [c for _, c in self.files if c["k"] == "ivf"]; sts = [c["s"] for _, c in self.files if c["k"] == "st"]
        for c in ivfs:
            s0 = self.fresh(c["w"], c["h"])
            key = next((i for i, f in enumerate(c["f"]) if self.fr[f]["key"]), None)
            for f in c["f"][:key]: self.step(s0, f)
            if key is not None: self.play(s0, c["f"][key:])
            for s in [s0] + sts:
                if (self.st[s]["w"], self.st[s]["h2"]) == (c["w"], c["h"]): self.play(s, c["f"])
        for e in self.events:
            if e.get("t") == "bundle":
                cs = [self.raw(i)[1] for i in e["cs"]]
                if not cs or cs[0]["k"] != "ivf": continue
                s = self.raw(e["st"])[1].get("s") if e["st"] else self.fresh(cs[0]["w"], cs[0]["h"])
                for c in cs:
                    if s is None or c["k"] != "ivf" or (self.st[s]["w"], self.st[s]["h2"]) != (c["w"], c["h"]): break
                    s = self.play(s, c["f"])
    def trace(self):
        self.measure()
        for s in self.st: self.T.setdefault(s, {"-": 0})   # (an empty record would be read as a sequence)
        return [{"e": "table", "T": self.T, "st": self.st, "fr": self.fr, "fresh": [[w, h, s] for (w, h), s in self.fresh_.items()], "disp": self.disp or {"-": ""}}] + self.events
    # --- running a tool
    def tool(self, name, args, stdin=None):
        try:
            r = subprocess.run([vbuild.exe(name)] + args, cwd=self.dir, input=stdin, stdin=subprocess.DEVNULL if stdin is None else None, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120 if vc.PACE["hung"] < 2 else 20)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired: vc.PACE["hung"] += 1; return -999, b""
    def run(self, t, a=0, b=0, cs=(), st=0, ps=0, n=-1, extra=False, mode="", val=0):
        F = lambda i: self.files[i - 1][0]
        e = {"e": "run", "t": t, "a": a, "b": b, "cs": list(cs), "st": st, "ps": ps, "n": n, "extra": extra, "mode": mode, "val": val,
             "ok": False, "died": False, "out": [], "pics": [], "lens": [], "total": 0}
        outs, stdin = [], None
        if t == "dump": outs = [self.path("st")]; cmd = ["xc-dump"] + (["-S", F(st)] if st else []) + (["-f", str(n)] if n >= 0 else []) + [F(a), outs[0]]
        elif t == "merge": outs = [self.path("ivf")]; cmd = ["xc-merge", F(a), F(b), outs[0]]
        elif t == "term":
            outs = [self.path("ivf")] + ([self.path("st")] if n != 0 else [])
            cmd = ["xc-terminate-chunk", F(a)] + outs
        elif t == "zero": outs = [self.path("ivf")]; cmd = ["xc-zero-out-residues", F(a), outs[0]]
        elif t == "enc":
            outs = [self.path("ivf")]; arg = str(val)
            if mode == "F":
                arg = os.path.join(self.dir, "sizes"); open(arg, "w").write("%d\n%d\n" % (val, val // 2 + 40))
            if mode == "s": arg = str(val / 1000)
            cmd = ["xc-enc", "-i", F(a).rsplit(".", 1)[1], "-" + mode, arg] + (["-q", "rt"] if extra else []) + (["-I", F(st)] if st else []) + ["-o", outs[0], F(a)]
        elif t == "reenc":
            outs = [self.path("ivf"), self.path("st")]
            cmd = ["xc-enc", "-r", "-W", "-i", "y4m", "-p", F(b)] + (["-S", F(ps)] if ps else []) + ["-I", F(st)] + (["-e"] if extra else []) + \
                  (["-w", str(val / 100)] if mode == "w" else []) + ["-O", outs[1], "-o", outs[0], F(a)]
        elif t == "bundle": cmd = ["xc-decode-bundle"] + ([F(st)] if st else []); stdin = "".join(F(i) + "\n" for i in cs).encode()
        elif t == "decode": outs = []; o = self.path("y4m"); cmd = ["vp8decode"] + (["-s", F(st)] if st else []) + ["-o", o, F(a)]
        elif t == "diff": cmd = ["xc-diff", F(a), F(b)]
        elif t == "comp": cmd = ["comp-states", F(a), F(b)]
        elif t == "size": cmd = ["xc-framesize", F(a)]
        rc, so = self.tool(cmd[0], cmd[1:], stdin)
        e["ok"] = rc == 0; e["died"] = rc in CRASH
        self.cmds.append(" ".join(os.path.basename(x) for x in cmd) + (" < " + " ".join(map(str, cs)) if cs else "") + " -> %d" % rc)
        if t in ("bundle", "decode"):
            v = self.video(so if t == "bundle" else open(o, "rb").read() if os.path.exists(o) else b"", [])
            e["pics"] = v if v is not None else ["unreadable"]
        if t == "size" and rc == 0:
            ls = so.decode().split("\n"); e["lens"] = [int(l.split()[1]) for l in ls[:-2]]; e["total"] = int(ls[-2].split()[1])
        if rc == 0 and outs:
            e["out"] = [self.read(p) for p in outs]
            for p, c in zip(outs, e["out"]): self.files.append((p, c))
        self.events.append(e); return e

def pictures(rng, w, h, n):
    """a short video: a drifting pattern with noise"""
    a, b, d, amp = rng.randrange(1, 9), rng.randrange(1, 9), rng.randrange(4), rng.choice((0, 3, 40))
    out = []
    for k in range(n):
        Y = bytes(((x + d * k) * a + y * b + (rng.randrange(amp) if amp else 0)) % 256 for y in range(h) for x in range(w))
        C = bytes((x * b + y + 5 * k) % 256 for y in range((h + 1) // 2) for x in range((w + 1) // 2))
        out.append(Y + C + C[::-1])
    return out

def quant(rng): return rng.choice((("y", rng.choice((4, 10, 20, 40, 60, 90))),) * 3 + (("s", rng.choice((700, 900, 970))), ("F", rng.choice((60, 150, 400)))))

def scheduled(w, rng, sched, lens):
    """a history of the model's, on real files"""
    W, H = rng.choice(SIZES)
    real = {}     # the model's files -> ours
    for i, n in enumerate(lens): real[i + 1] = w.y4m(W, H, pictures(rng, W, H, n))
    nf = len(lens)
    for c in sched:
        R = lambda i: 0 if i == 0 else real.get(i)
        args = {"a": c.get("v", c.get("c", c.get("a", 0))), "b": c.get("p", c.get("b", 0)), "st": c.get("st", 0), "ps": c.get("ps", 0)}
        ids = [R(i) for i in args.values()] + [R(i) for i in c.get("cs", ())]
        made = []
        if None not in ids:
            a = {k: R(v) for k, v in args.items()}; t = c["t"]
            if t == "enc": m, v = quant(rng); a.update(mode=m, val=v)
            if t == "dump": a["n"] = c["n"]
            if t == "reenc":
                a["extra"] = c["e"]
                if rng.random() < .5: a.update(mode="w", val=rng.choice((0, 50, 75, 100)))
            if t == "bundle": a["cs"] = [R(i) for i in c["cs"]]
            k = len(w.files); e = w.run(t, **a); made = list(range(k + 1, len(w.files) + 1))
        for j in range(c["n_made"]): real[nf + j + 1] = made[j] if j < len(made) else None
        nf += c["n_made"]
    return W, H

def foreign(w, rng, W, H):
    """chunks of frames no encoder here makes: hidden frames, several partitions, segments, broken frames"""
    g = vp8gen.Gen(rng, W, H, key=.2, mbits=40)
    for _ in range(rng.choice((1, 2))):
        fs = [g.frame(key=True if i == 0 and rng.random() < .85 else None, pbytes=6) for i in range(rng.choice((1, 2, 3)))]
        if rng.random() < .15: k = rng.randrange(len(fs)); fs[k] = fs[k][:rng.randrange(3, max(4, len(fs[k]) // 3))]
        w.ivf(W, H, fs)
    if rng.random() < .3: w.ivf(W, H, [])

def pick(rng, w, *kinds):
    l = [i + 1 for i, (p, c) in enumerate(w.files) if c["k"] in kinds]
    return rng.choice(l) if l else None

def anything(w, rng, n, W, H):
    """further runs on whatever is there"""
    for _ in range(n):
        ivf, ivf2, y4m, st, st2 = (pick(rng, w, k) for k in ("ivf", "ivf", "y4m", "st", "st"))
        bad = pick(rng, w, "bad")
        t = rng.choice(("dump", "dump", "merge", "merge", "term", "zero", "enc", "reenc", "bundle", "bundle", "decode", "decode", "diff", "comp", "size"))
        o = lambda x, p: x if x and rng.random() < p else 0
        sick = bad if bad and rng.random() < .12 else None
        isv = lambda i: i and w.files[i - 1][0].endswith(".ivf")
        if t == "comp" or t == "diff":
            if st and st2:
                if sick and not isv(sick) and t == "diff": st2 = sick
                w.run(t, a=st, b=st2)
        elif not ivf: continue
        elif sick and isv(sick) and t in ("dump", "merge", "term", "zero", "size", "decode"): w.run(t, a=sick, b=ivf) if rng.random() < .5 or t != "merge" else w.run(t, a=ivf, b=sick)
        elif sick and isv(sick) and t == "bundle": w.run(t, cs=[ivf, sick, ivf2][:rng.choice((2, 3))])
        elif sick and not isv(sick) and t in ("dump", "decode"): w.run(t, a=ivf, st=sick)
        elif t == "dump": w.run(t, a=ivf, st=o(st, .6), n=rng.choice((-1, 0, 0, 1, 2, 7)))
        elif t == "merge": w.run(t, a=ivf, b=ivf2)
        elif t == "term": w.run(t, a=ivf, n=rng.choice((-1, 0)))
        elif t == "zero": w.run(t, a=ivf)
        elif t == "enc":
            m, v = quant(rng); src = y4m if y4m and rng.random() < .6 else ivf
            c = w.files[src - 1][1]; w.run(t, a=src, st=o(st, .6), mode=m, val=v, extra=rng.random() < .2)
        elif t == "reenc" and y4m and st:
            # one with as many frames as there are pictures, if there is
            n = len(w.files[y4m - 1][1]["p"]); same = [i + 1 for i, (p, c) in enumerate(w.files) if c["k"] == "ivf" and len(c["f"]) == n]
            p = rng.choice(same) if same and rng.random() < .85 else ivf
            if len(w.files[p - 1][1]["f"]) > 1 or True: w.run(t, a=y4m, b=p, ps=o(st2, .4), st=st, extra=n > 1 and rng.random() < .5)
        elif t == "bundle": w.run(t, cs=[pick(rng, w, "ivf") for _ in range(rng.choice((1, 2, 2, 3)))], st=o(st, .4))
        elif t == "decode": w.run(t, a=ivf, st=o(st, .5))
        elif t == "size": w.run(t, a=ivf)

def pipeline(w, rng):
    """the intended use: chunks coded apart, then joined by coding each chunk's start again"""
    W, H = rng.choice(SIZES); n = rng.choice((2, 2, 3)); nch = rng.choice((2, 2, 3))
    pics = pictures(rng, W, H, n * nch + 1); vids = [w.y4m(W, H, pics[i * n:i * n + n + (i > 0)] if i else pics[:n]) for i in range(nch)]
    extra = rng.random() < .5
    if extra: vids = [w.y4m(W, H, pics[max(0, i * n - 1):i * n + n]) for i in range(nch)]   # each with the last picture of the one before
    elif True: vids = [w.y4m(W, H, pics[i * n:i * n + n]) for i in range(nch)]
    apart = []
    for v in vids: m, q = quant(rng); e = w.run("enc", a=v, mode=m, val=q); apart.append(len(w.files) if e["ok"] else None)
    if None in apart: return
    t = w.run("term", a=apart[0])
    if not t["ok"]: return
    chain = [len(w.files) - 1]; st = len(w.files)
    for k in range(1, nch):
        e = w.run("reenc", a=vids[k], b=apart[k], st=st, extra=extra, **({"mode": "w", "val": 75} if rng.random() < .5 else {}))
        if not e["ok"]: return
        chain.append(len(w.files) - 1); st = len(w.files)
    w.run("bundle", cs=chain)
    w.run("bundle", cs=[chain[0]] + chain[2:] + [chain[1]])
    m = chain[0]
    for x in chain[1:]:
        if not w.run("merge", a=m, b=x)["ok"]: return
        m = len(w.files)
    w.run("decode", a=m); w.run("bundle", cs=[m]); w.run("dump", a=m)
    w.run("diff", a=len(w.files), b=st); w.run("comp", a=len(w.files), b=st)
    # the middle, joined, still continues from where it did
    if nch > 2:
        if w.run("merge", a=chain[1], b=chain[2])["ok"]:
            j = len(w.files); w.run("bundle", cs=[chain[0], j]); w.run("bundle", cs=[j]); w.run("dump", a=j)
    w.run("dump", a=chain[1]); w.run("decode", a=chain[1]); w.run("size", a=m)

def history(c, kind, k, sched=None, lens=None):
    rng = c.sub_rng(kind, k); w = World(rng)
    try:
        if kind == "pipe": pipeline(w, rng); W, H = w.files[0][1]["w"], w.files[0][1]["h"]
        elif kind == "sched": W, H = scheduled(w, rng, sched, lens)
        else: W, H = rng.choice(SIZES); w.y4m(W, H, pictures(rng, W, H, rng.choice((1, 2, 3))))
        if kind != "pipe" or k % 3 == 0:
            if kind == "any" or rng.random() < .4: foreign(w, rng, W, H)
            if kind == "any":
                i = pick(rng, w, "ivf"); w.run("enc", a=1, mode="y", val=30); w.run("dump", a=len(w.files)); w.run("dump", a=i, n=0)
            s = pick(rng, w, "st")
            if s and rng.random() < .5: w.state(cut=rng.randrange(1, 800), of=s)
            v = pick(rng, w, "ivf")
            if v and rng.random() < .5:
                p = w.files[v - 1][0]; q = w.path("ivf"); b = open(p, "rb").read()
                b = rng.choice((b[:rng.randrange(1, 44)], b[:24] + (99).to_bytes(4, "little") + b[28:], b"DKIG" + b[4:], b[:4] + b"\1\0" + b[6:]))
                open(q, "wb").write(b); w.add(q, w.read(q))
            if rng.random() < .35:   # chunks and states of another size
                W2, H2 = rng.choice([s for s in SIZES if s != (W, H)]); v = w.y4m(W2, H2, pictures(rng, W2, H2, 1))
                if w.run("enc", a=v, mode="y", val=20)["ok"]:
                    z = len(w.files); own = pick(rng, w, "ivf")
                    same = [i + 1 for i, (p, x) in enumerate(w.files) if x["k"] == "ivf" and (x["w"], x["h"]) == (W, H)]
                    st = [i + 1 for i, (p, x) in enumerate(w.files) if x["k"] == "st"]
                    if same: w.run("merge", a=rng.choice(same), b=z); w.run("merge", a=z, b=rng.choice(same))
                    if st: w.run("decode", a=z, st=rng.choice(st))
                    w.files[z - 1] = (w.files[z - 1][0], dict(w.files[z - 1][1], k="other")); w.files[v - 1] = (w.files[v - 1][0], dict(w.files[v - 1][1], k="other"))
                    w.aside = (z, v)
            anything(w, rng, 9 if kind == "any" else 4, W, H)
            for i in getattr(w, "aside", ()):
                p, x = w.files[i - 1]; w.files[i - 1] = (p, dict(x, k="ivf" if p.endswith("ivf") else "y4m"))
        return w.trace(), w.cmds
    except Died: return None, w.asked
    finally: w.close()

def run(c):
    vbuild.build(*vbuild.TOOLS, "tools")
    q = c.quick
    inv = "OneVideo Alone Continues"
    c.model_check("ToolsMC", (MC % (6 if q else 7, "MCLens", 0, inv)) + "VIEW View\n", workers=8, timeout=3000, heap="6g")
    if not q: c.model_check("ToolsMC", (MC % (7, "MCLens2", 0, inv)) + "VIEW View\n", workers=8, timeout=3000, heap="8g")
    scheds = []
    for lens, name in (((2,), "MCLens"), ((2, 3), "MCLens2")):
        t = c.tlc("ToolsMC", MC % (30, name, 9, "Emit"), extra=["-simulate", "num=%d" % (40 if q else 500), "-seed", str(c.seed), "-depth", "40"], timeout=900)
        for m in re.findall(r'<<"SCHED", "(.*?)">>', t.out.replace("\n", "")):
            s = json.loads(m.replace('\\"', '"'))
            scheds.append((lens, [dict(x, n_made=x["made"]) for x in s]))
    c.log("%d schedules" % len(scheds))
    todo = [("sched", k, s, l) for k, (l, s) in enumerate(scheds)] + [("pipe", k, None, None) for k in range(24 if q else 300)] + [("any", k, None, None) for k in range(50 if q else 600)]
    with cf.ThreadPoolExecutor(8) as ex: got = list(ex.map(lambda a: history(c, *a), todo))
    for k, (t, asked) in enumerate(got):
        if t is None:   # what a tool wrote ends the decoder
            ev, rc, err = vc.run_lines("tools", asked)
            if rc == 0: raise vc.ModelError("the harness died on: " + asked[-1][:200])
            if c.nviol < 3: c.violation("the decoder ends abnormally on what the tools wrote: %s" % asked[-1][:100], {"commands": asked})
    todo = [x for x, g in zip(todo, got) if g[0] is not None]; got = [g for g in got if g[0] is not None]
    traces = [g[0] for g in got]
    runs = [e for t in traces for e in t if e["e"] == "run"]
    n = {}
    for e in runs: n.setdefault(e["t"], [0, 0])[0 if e["ok"] else 1] += 1
    c.cov["runs"] = {t: {"accepted": a, "refused": b} for t, (a, b) in sorted(n.items())}
    c.log("%d histories, %d runs: %s" % (len(traces), len(runs), n)); c.sample(got[0][1])
    rej = c.validate("ToolsTrace", traces, timeout=2000, heap="4g")
    if rej:
        again = [history(c, *todo[i]) for i, _ in rej[:4]]
        for k, pos in c.validate("ToolsTrace", [g[0] for g in again], timeout=2000, heap="4g")[:2]:
            e = again[k][0][pos] if pos < len(again[k][0]) else None
            if not e or (e["e"] != "run" and pos): raise vc.ModelError("trace not understood")
            if not pos: e = {"t": "some tool"}
            c.violation("%s does not do what the specification says" % e["t"], {"history": again[k][1], "event": e})
    # a state that is not the one after the frame, and a picture missing, must be noticed
    k = next(i for i, t in enumerate(traces) if i not in [r for r, _ in rej] and any(e.get("t") == "bundle" and e["pics"] for e in t)) if not rej else None
    if k is not None:
        can = json.loads(json.dumps(traces[k])); e = next(e for e in can if e.get("t") == "bundle" and e["pics"]); e["pics"].pop()
        if not c.validate("ToolsTrace", [can]): raise vc.ModelError("a wrong answer was accepted")
        c.cov["traces_validated_against_impl"] -= 1
    c.assume += ["what decoding a frame in a state gives is taken from the real decoder, which C09, C10 and C17 judge",
                 "not judged: vp8decode's exit code when a file ends in hidden frames, encoding from a state of another size, and re-encoding after a segmented model"]
