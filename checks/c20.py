"""C20: raw video."""
import concurrent.futures as cf, json
import vc, vbuild
def play(lines):
    ev, rc, err = vc.run_lines("y4m", lines, timeout=120)
    if rc != 0: ev.append({"e": "died", "rc": rc})
    return ev
def half(n): return (n + 1) // 2
def head(rng, w, h):
    t = ["W%d" % w, "H%d" % h]
    opt = ["F%d:%d" % (rng.choice([0, 1, 24, 30000]), rng.choice([1, 1001])), "I" + rng.choice("ptbm"), "A%d:%d" % (rng.choice([0, 1, 64]), rng.choice([0, 1, 45])),
           "C420" + rng.choice(["", "jpeg", "mpeg2", "paldv"]), "XYSCSS=420", "Xfoo"]
    t += rng.sample(opt, rng.randint(0, len(opt)))
    rng.shuffle(t)
    return ("YUV4MPEG2 " + " ".join(t)).encode() + b"\n"
def body(rng, w, h, n):
    return b"".join(b"FRAME\n" + bytes(rng.randrange(256) for _ in range(w * h + 2 * half(w) * half(h))) for _ in range(n))
def run(c):
    vbuild.build("y4m")
    c.model_check("Y4mMC", "SPECIFICATION Spec\nCONSTANTS MaxDim = %d\n MaxPics = %d\nINVARIANTS RoundTrip\nCHECK_DEADLOCK FALSE\n" % ((4, 2) if c.quick else (7, 3)),
                  workers=8, heap="6g", timeout=2500)
    rng = c.sub_rng("y")
    dims = [(1, 1), (1, 2), (2, 1), (3, 5), (16, 16), (17, 15), (15, 17), (18, 33), (33, 18), (2, 2), (31, 1), (1, 31), (16, 32), (5, 40), (47, 3)]
    for _ in range(5 if c.quick else 60): dims.append((rng.randint(1, 50), rng.randint(1, 50)))
    jobs = []
    R = lambda b: "read %d %s" % (rng.choice([0, 0, 1, 7, 64]), b.hex())
    for w, h in dims:
        o = []
        for n in (0, 1, 3): o.append(R(head(rng, w, h) + body(rng, w, h, n)))
        f = head(rng, w, h) + body(rng, w, h, 2)
        fl = 6 + w * h + 2 * half(w) * half(h)
        hl = len(f) - 2 * fl
        cuts = {hl - 1, hl, hl + 1, hl + 5, hl + 6, hl + 7, hl + fl - 1, hl + fl, hl + fl + 3, hl + fl + 6, len(f) - 1, hl + 6 + w * h, hl + 6 + w * h + half(w) * half(h)}
        cuts |= {rng.randrange(hl, len(f)) for _ in range(2)}
        for k in sorted(cuts): o.append(R(f[:k]))
        g = bytearray(f); g[hl + rng.randrange(6)] ^= 1; o.append(R(bytes(g)))
        g = bytearray(f); g[hl + fl + rng.randrange(6)] ^= 1; o.append(R(bytes(g)))
        o.append(R(f[:hl + fl] + b"\n" + f[hl + fl:]))
        o.append(R(head(rng, w, h) + body(rng, w, h, 1) + b"FRAMES\n" + bytes(fl)))
        for _ in range(3): o.append("write %d %d %d %d" % (w, h, rng.randrange(10**6), rng.choice([0, 1, 5, 100])))
        jobs.append(o)
    bad = [b"YUV4MPEG W4 H4\n", b"YUV4MPEG2 W4\n", b"YUV4MPEG2 H4\n", b"YUV4MPEG2\n", b"\n", b"YUV4MPEG2 W0 H4\n", b"YUV4MPEG2 W4 H0\n", b"YUV4MPEG2 W4 H4 C422\n",
           b"YUV4MPEG2 W4 H4 C444\n", b"YUV4MPEG2 W4 H4 C420p10\n", b"YUV4MPEG2 W4 H4 Cmono\n", b"YUV4MPEG2 W4 H4 Iq\n", b"YUV4MPEG2 W4 H4 I\n", b"YUV4MPEG2 W4 H4 F30\n",
           b"YUV4MPEG2 W4 H4 A:1\n", b"YUV4MPEG2 W4 H4 Q1\n", b"YUV4MPEG2 Wx H4\n", b"YUV4MPEG2 W H4\n", b"YUV4MPEG2 W65540 H4\n", b"YUV4MPEG2 W4 H65536\n", b"yUV4MPEG2 W4 H4\n", b"YUV4MPEG2x W4 H4\n",
           b"YUV4MPEG2 W4 H4 C411\n", b"W4 H4\n", b"YUV4MPEG2 W4 H4 C42\n", b"YUV4MPEG2 W65536 H4\n", b"YUV4MPEG2 W4 H131076\n"]
    jobs.append([R(b + body(rng, 4, 4, 1)) for b in bad] + [R(b"YUV4MPEG2 W4 H4" + e) for e in (b"", b" ", b" X", b" F1:1")]
                + [R(b"YUV4MPEG2 W9 H4 X W4\n" + body(rng, 4, 4, 1)), R(b"YUV4MPEG2  W4   H4 \n" + body(rng, 4, 4, 1)), R(b"YUV4MPEG2 H4 W4 Ip F25:1\n" + body(rng, 4, 4, 2))])
    with cf.ThreadPoolExecutor(8) as ex: traces = list(ex.map(play, jobs))
    c.sample([x[:200] for x in jobs[3][:4]])
    c.cov["files_read"] = sum(1 for t in traces for e in t if e["e"] == "read")
    c.cov["pictures_read"] = sum(1 for t in traces for e in t if e["e"] == "read" for r in e["res"] if r["k"] == "frame")
    c.cov["pictures_written"] = sum(1 for t in traces for e in t if e["e"] == "write")
    c.log("%d files, %d pictures read, %d written" % (c.cov["files_read"], c.cov["pictures_read"], c.cov["pictures_written"]))
    rej = c.validate("Y4mTrace", traces)
    if rej:
        again = [play(jobs[i]) for i, _ in rej[:24]]
        for k, pos in c.validate("Y4mTrace", again)[:2]:
            e = again[k][pos] if pos < len(again[k]) else None
            c.violation("raw video: step %d is not explained by the specification (%s)" % (pos, jobs[rej[k][0]][pos][:160] if pos < len(jobs[rej[k][0]]) else "died"),
                        {"commands": jobs[rej[k][0]][:pos + 1], "event": e, "position": pos})
