"""C17: damaged frames."""
import json, os
import concurrent.futures as cf
import vc, vbuild, vp8gen, vp8kit
MC = "SPECIFICATION Spec\nINVARIANTS Laws\nCHECK_DEADLOCK FALSE\n"
SIZES = ((16, 16), (32, 16), (33, 40), (48, 48), (17, 31), (1, 1))
QUIET = ("plain", "q", "refs", "mv", "probs", "intra")

def hd(g, key, rich):
    """a header; without segmentation and filter deltas unless rich (a concealed frame may switch them off, and what
    follows from switching them on again is C10's known finding)"""
    h = g.random_header(key, g.rng.choice(QUIET) if not rich else None)
    if not rich: h.pop("seg", None); h.pop("lfd", None)
    return h

def play(lines):
    ev, rc, err = vc.run_asan("vp8", lines, timeout=200)
    if rc != 0: ev.append({"e": "died", "rc": rc, "err": err[-800:]})
    return ev

def ends(b):
    """offsets that matter in a frame: header, first partition, partition table"""
    o = 10 if not b[0] & 1 else 3
    plen = (b[0] | b[1] << 8 | b[2] << 16) >> 5
    return o, o + plen

def cuts(rng, b, n):
    o, f = ends(b)
    c = {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, o, o + 1, o + 2, f - 2, f - 1, f, f + 1, f + 2, f + 3, f + 6, f + 9, f + 21, len(b) - 1}
    c |= {rng.randrange(len(b)) for _ in range(n)} | {rng.randrange(o, f) for _ in range(n)}
    return sorted(x for x in c if 0 <= x < len(b))

def starts(b):
    """where a partition may start, for each possible number of partitions"""
    if len(b) < 3: return []
    o, f = ends(b); out = [o]
    for n in (1, 2, 4, 8):
        p = f + 3 * (n - 1); out.append(p)
        for k in range(n - 1):
            t = b[f + 3 * k:f + 3 * k + 3]
            if len(t) == 3: p += int.from_bytes(t, "little"); out.append(p)
    return out

def coded(b):
    """no arithmetic code starts with 255 (the decoder's value would not be below its range, and what is then decoded
    depends on how many bits it keeps): the same frame without"""
    b = bytearray(b)
    for _ in range(40):
        bad = [p for p in starts(b) if p < len(b) and b[p] == 255]
        if not bad: break
        b[bad[0]] = 254
    return bytes(b)

def damage(rng, b): return coded(damaged(rng, b))
def damaged(rng, b):
    """a frame with something wrong"""
    if len(b) < 16: return bytes(rng.randrange(256) for _ in range(rng.randrange(20)))
    b = bytearray(b); o, f = ends(b); k = rng.randrange(9)
    if k == 0: b[0] = (b[0] & ~14) | rng.randrange(1, 8) << 1
    elif k == 1 and o == 10: b[rng.choice((3, 4, 5))] ^= 1 << rng.randrange(8)
    elif k == 2 and o == 10: b[rng.choice((6, 7, 8, 9))] ^= 1 << rng.randrange(8)
    elif k == 3:   # another first partition length
        p = rng.choice((0, 1, f - o + 1, len(b) - o, len(b) - o + 1, len(b) - o - 1, (1 << 19) - 1, rng.randrange(1 << 19), rng.randrange(len(b))))
        v = ((b[0] | b[1] << 8 | b[2] << 16) & 31) | (p % (1 << 19)) << 5
        b[0:3] = bytes((v & 255, v >> 8 & 255, v >> 16))
    elif k == 4:   # the partition table
        for j in range(f, min(f + 21, len(b))):
            if rng.random() < .3: b[j] = rng.choice((0, 255, rng.randrange(256)))
    elif k == 5: b = bytearray(rng.randrange(256) for _ in range(rng.randrange(1, 80)))
    elif k == 6: b[0] ^= 1   # key frame and interframe exchanged
    elif k == 7: b = b[:rng.randrange(len(b))] + bytes(rng.randrange(256) for _ in range(rng.randrange(20)))
    else:
        for _ in range(rng.choice((1, 3, 10))): b[rng.randrange(o, len(b))] ^= 1 << rng.randrange(8)
    return bytes(b)

def model_frames(c, n):
    out = []
    for k in range(n):
        r = c.sub_rng("mc", k); w, h = r.choice(((16, 16), (32, 16), (33, 40), (48, 16))); g = vp8gen.Gen(r, w, h)
        fs = [g.frame(key=True, h=dict(hd(g, True, True), parts=k % 4), pbytes=5, nbytes=g.n * 24)]
        for j in range(2): fs.append(g.frame(key=False, h=dict(hd(g, False, True), parts=(k + j + 1) % 4), pbytes=5, nbytes=g.n * 24))
        # the real frames carry much more first partition than they need; keep the part that is read, and little more
        out.append({"w": w, "h": h, "frames": [list(f) for f in fs]})
    return out

def histories(c, q):
    jobs = []
    # every cut of a few frames; both settings; the decoder as it was before each time
    for k in range(6 if q else 60):
        r = c.sub_rng("cut", k); w, h = r.choice(SIZES); g = vp8gen.Gen(r, w, h); conceal = k % 2
        o = ["new a %d %d" % (w, h), "conceal a %d" % conceal, "dec a " + g.frame(key=True, h=hd(g, True, True), pbytes=6).hex()]
        for j in range(2 if q else 4):
            key = r.random() < .3; g2 = vp8gen.Gen(r, w, h); g2.__dict__.update(g.__dict__)
            b = g.frame(key=key, h=dict(hd(g, key, True), parts=r.choice((0, 1, 2, 3))), pbytes=6)
            cs = cuts(r, b, 8) if q else range(len(b))
            for x in cs: o += ["fork a b", "conceal b %d" % conceal, "dec b " + b[:x].hex()]
            o.append("dec a " + b.hex())
        jobs.append(o)
    # every bit of the uncompressed header, every version, and one first partition length after another
    for k in range(4 if q else 40):
        r = c.sub_rng("head", k); w, h = r.choice(((16, 16), (32, 16), (15, 9))); g = vp8gen.Gen(r, w, h); conceal = k % 2
        o = ["new a %d %d" % (w, h), "conceal a %d" % conceal, "dec a " + g.frame(key=True, h=hd(g, True, True), pbytes=4).hex()]
        key = k % 4 < 2
        b = g.frame(key=key, h=dict(hd(g, key, False), parts=r.choice((0, 1, 3))), pbytes=4)
        vs = [b[:i // 8] + bytes([b[i // 8] ^ 1 << i % 8]) + b[i // 8 + 1:] for i in range(80 if key else 24)]
        vs += [bytes([b[0] & ~14 | v << 1]) + b[1:] for v in range(8)] + [bytes([b[0] & ~15 | v << 1 | (not b[0] & 1)]) + b[1:] for v in range(8)]
        for n in (ends(b)[1] - ends(b)[0] + x for x in (-2, -1, 0, 1, 2, 3, 5, 9, 20)):
            if 0 <= n <= len(b): v = b[0] & 31 | n << 5; vs.append(bytes((v & 255, v >> 8 & 255, v >> 16)) + b[3:])
        if key: vs += [b[:6] + bytes((d & 255, d >> 8, e & 255, e >> 8)) + b[10:] for d, e in ((h, w), (w, 0), (0, h), (w + 1, h), (w, h - 1), (w + 256, h), (w, h + 8192), (w | 0x4000, h | 0x8000))]
        for v in map(coded, vs): o += ["fork a b", "conceal b %d" % conceal, "dec b " + v.hex()]
        jobs.append(o + ["dec a " + b.hex()])
    # histories that go on after the damage
    for k in range(40 if q else 600):
        r = c.sub_rng("h", k); w, h = r.choice(SIZES); g = vp8gen.Gen(r, w, h); rich = k % 3 == 0; conceal = int(k % 4 != 3)
        o = ["new a %d %d" % (w, h), "conceal a %d" % conceal]
        bad = False
        for j in range(12 if q else 20):
            key = j == 0 or r.random() < .12 or (rich and bad) or (bad and not conceal)
            b = g.frame(key=key, h=dict(hd(g, key, rich), parts=r.choice((0, 0, 1, 2, 3))), pbytes=8)
            bad = False
            if j and r.random() < .45: b = b[:r.choice(cuts(r, b, 6))]; bad = True
            elif j and r.random() < .3: b = damage(r, b); bad = True
            o.append("dec a " + b.hex())
            if bad and r.random() < .3: o.append("conceal a %d" % conceal)
            if r.random() < .08: o += ["conceal a %d" % (1 - conceal), "dec a " + damage(r, b).hex(), "conceal a %d" % conceal]; bad = True
            if bad and (rich or not conceal or r.random() < .15):
                g.first = True   # a key frame: as if nothing had happened
                o.append("dec a " + g.frame(key=True, h=dict(hd(g, True, rich)), pbytes=8).hex()); bad = False
        o.append("check a"); jobs.append(o)
    return jobs

def run(c):
    for p in ("vp8", "vp8-asan"): vbuild.build(p)
    q = c.quick
    fr = os.path.join(c.work, "frames.json")
    ms = model_frames(c, 5 if q else 60); json.dump(ms, open(fr, "w"))
    c.model_check("Vp8DamageMC", MC, env={"FRAMES": fr}, workers=8, heap="8g", timeout=3000)
    jobs = histories(c, q)
    with cf.ThreadPoolExecutor(8) as ex: traces = list(ex.map(play, jobs))
    ds = [e for t in traces for e in t if e["e"] == "dec"]
    c.cov.update(frames=len(ds), refused=sum(1 for e in ds if e["err"]), cut_frames_in_model=sum(len(f) + 1 for m in ms for f in m["frames"]))
    c.sample([e["err"] for e in ds if e["err"]][:12])
    c.log("%d histories, %d frames, %d refused" % (len(jobs), len(ds), c.cov["refused"]))
    vp8kit.judge(c, traces, jobs, True, "damage", timeout=3000, player=play)
    t = vp8kit.stats(c)
    # a frame concealed with the wrong picture, and one refused, must be noticed
    k = next(i for i, x in enumerate(traces) if x[1]["v"] == 1 and "fork" in [e["e"] for e in x]); j = next(n for n, e in enumerate(traces[k]) if e["e"] == "fork")
    can = json.loads(json.dumps(traces[k][:j + 3])); can[-1]["shown"] = not can[-1]["shown"]
    if not c.validate("Vp8Trace", [can], constants=vp8kit.CFG % "TRUE"): raise vc.ModelError("a wrong answer was accepted")
    c.cov["traces_validated_against_impl"] -= 1
