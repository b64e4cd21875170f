"""C16: IVF files at every crash point, and the reader on damaged files."""
import json, re
import vc, vbuild
MC = """SPECIFICATION Spec
CONSTANTS MaxFrames = %d
 Early = %s
 EmitLen = %d
INVARIANTS %s
%s
CHECK_DEADLOCK FALSE
"""
def play(lines):
    ev, rc, err = vc.run_lines("ivf", lines, timeout=120)
    if rc != 0: ev.append({"e": "died", "rc": rc})
    return ev
def le(v, n): return v.to_bytes(n, "little")
def mkfile(rng, n=None, ver=0, hl=32, magic=b"DKIF", count=None):
    fr = [bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 12, 13, 30]))) for _ in range(n if n is not None else rng.randint(0, 4))]
    b = magic + le(ver, 2) + le(hl, 2) + bytes(rng.choice(b"VP80AB9") for _ in range(4)) + le(rng.choice([0, 1, 16, 640, 65535]), 2) + le(rng.choice([1, 255, 256, 65535]), 2) \
        + le(rng.choice([1, 30, 2**31, 2**32 - 1]), 4) + le(rng.randrange(2**32), 4) + le(len(fr) if count is None else count, 4) + le(rng.randrange(2**32), 4)
    for f in fr: b += le(len(f), 4) + le(rng.randrange(2**64), 8) + f
    return b
def run(c):
    vbuild.build("ivf")
    c.model_check("IvfMC", MC % (2 if c.quick else 3, "FALSE", 0, "CrashSafe", "VIEW View"), workers=4, heap="6g", timeout=1500)
    t = c.tlc("IvfMC", MC % (2, "TRUE", 0, "CrashSafe", "VIEW View"), count=False)
    if "CrashSafe" not in t.violated: raise vc.ModelError("canary: the faulty write order was not noticed")
    n = 40 if c.quick else 400
    t = c.tlc("IvfMC", MC % (6, "FALSE", 7, "Emit", ""), extra=["-simulate", "num=%d" % (4 * n), "-depth", "40", "-seed", str(c.seed)], count=False)
    sch = sorted(set(re.findall(r'<<"SCHED", "(.*)">>', t.out)))
    rng = c.sub_rng("w")
    sch = rng.sample(sch, min(n, len(sch)))
    lines = []
    for s in sch:
        o = ["new %s %d %d %d %d" % (rng.choice(["56503830", "00ff5638"]), rng.choice([1, 16, 176, 65535]), rng.choice([1, 255, 256, 65535]),
                                     rng.choice([0, 1, 30, 2**32 - 1]), rng.choice([1, 2**31, 257]))]
        for op, k in re.findall(r'<<\W*(append|hash)\W*, (\d+)>>', s):
            if op == "hash": o.append("hash %d" % rng.choice([0, 1, 2**32 - 1, rng.randrange(2**32)]))
            else:
                if rng.random() < 0.5: o.append("short %d" % rng.choice([0, 1, 3, 5, 11]))
                k = int(k) if rng.random() < 0.4 else rng.choice([0, 1, 12, 32, 33, 100, 255, 256, 300])
                o.append("append %s" % (bytes(rng.randrange(256) for _ in range(k)).hex() or "-"))
        o.append("close")
        lines.append(o)
    lines.append(["new 5650 16 16 30 1", "new 5650383030 16 16 30 1"])
    # more frames than fit one byte of the count
    lines.append(["new 56503830 16 16 30 1"] + ["append %02x" % (i % 256) for i in range(260)] + ["close"] if not c.quick else
                 ["new 56503830 16 16 30 1", "append -", "append -", "append 00", "close"])
    lines.append(["big 65535,65536,3,70001", "big 300,131072,0,65537", "big 16777216,5,1", "big " + ",".join("%d" % (i % 3) for i in range(259))] + ([] if c.quick else ["big 16777215,16777217,40000000,65536", "big " + ",".join(str(rng.randrange(1 << rng.randrange(1, 22))) for _ in range(24))]))
    raw = []
    for i in range(150 if c.quick else 3000):
        b = bytearray(mkfile(rng))
        k = i % 6
        if k == 1: b = b[:rng.randrange(len(b) + 1)]
        elif k == 2: b[rng.randrange(0, 8)] ^= 1 << rng.randrange(8)
        elif k == 3: b[24 + rng.randrange(4)] = rng.choice([0, 1, 2, 3, 5, 255])
        elif k == 4 and len(b) > 44: b[32 + rng.randrange(4)] ^= 1 << rng.randrange(8)
        elif k == 5: b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        if len(b) >= 28 and (b[27] or b[26] > 15): b[26] = b[27] = 0     # counts in the billions only cost memory
        if len(b): raw.append("raw " + bytes(b).hex())
    whole = mkfile(rng, 3)
    raw += ["raw " + whole[:k].hex() for k in range(1, len(whole) + 1)]
    raw += ["raw " + mkfile(rng, 2, hl=x).hex() for x in (0, 31, 33, 288)] + ["raw " + mkfile(rng, 2, ver=x).hex() for x in (1, 256)]
    lines += [raw[i::8] for i in range(8)]
    traces = [play(o) for o in lines]
    c.sample(lines[0]); c.sample(traces[0][:6])
    c.cov["crash_points"] = sum(1 for t in traces for e in t if e["e"] == "snap")
    c.cov["files_opened"] = sum(1 for t in traces for e in t if e["e"] == "open")
    c.log("%d crash points, %d files" % (c.cov["crash_points"], c.cov["files_opened"]))
    if c.cov["crash_points"] < 200 and all(e["e"] != "died" for t in traces for e in t):
        raise vc.ModelError("too few crash points seen")
    rej = c.validate("IvfTrace", traces)
    if rej:
        again = [play(lines[i]) for i, _ in rej[:24]]
        for k, pos in c.validate("IvfTrace", again)[:2]:
            c.violation("IVF: step %d is not explained by the specification: %s" % (pos, json.dumps(again[k][pos] if pos < len(again[k]) else None)[:600]),
                        {"commands": lines[rej[k][0]], "trace": again[k], "position": pos})
