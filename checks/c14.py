"""C14: the arithmetic coder."""
import json, os
import vc, vbuild
MC = "SPECIFICATION Spec\nCONSTANTS N = %d\n Probs = {%s}\n Before <- MCBefore\nINVARIANTS Lossless Shape Same\nCHECK_DEADLOCK FALSE\n"
EXTREME = (0, 1, 2, 127, 128, 129, 200, 253, 254, 255)
def carry_run(rng, n, probs, cross=True, edge=None):
    """symbols that keep the interval around a byte boundary (the bytes read ..7F FF FF FF.. all the while), and then step over it (or not)"""
    def split(r, p): return 1 + (((r - 1) * p) >> 8)
    low, r, T, out = 0, 255, edge or rng.randrange(2, 250), []
    while len(out) < n:
        p = rng.choice(probs); s = split(r, p); d = T - low
        if d == s: p = 128; s = split(r, p)
        if d == s: p = 90; s = split(r, p)
        b = int(d > s)
        out.append([p, b])
        if b: low += s; r -= s
        else: r = s
        while r < 128: r *= 2; low *= 2; T *= 2
        if not low < T < low + r: break
    d = T - low
    if cross:
        for p in range(256):
            if split(r, p) >= d: out.append([p, 1]); break
    else: out.append([255, 0])
    return out
def run(c):
    vbuild.build("coder")
    q = c.quick; rng = c.sub_rng("s")
    f = os.path.join(c.work, "prefixes.json")
    def mc(n, probs, pre):
        json.dump(pre, open(f, "w")); c.model_check("Vp8CoderMC", MC % (n, ",".join(map(str, probs))), workers=8, heap="12g", timeout=3000, env={"PREFIXES": f})
    mc(6 if q else 7, (1, 128, 255), [[]])
    mc(3 if q else 4, EXTREME, [[]])
    mc(4 if q else 5, (1, 128, 254, 0), [carry_run(rng, 20 + k, (20, 128, 240), False, 128 + k)[:-1] for k in range(10 if q else 24)])
    lines = []
    syms = lambda s: ",".join("%d:%d" % tuple(x) for x in s)
    code = lambda s, extra=24: lines.append("code %d %s" % (extra, syms(s)))
    # every short sequence over a few probabilities
    import itertools
    P = [(p, b) for p in (0, 1, 128, 255) for b in (0, 1)]
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for s in itertools.product(P, repeat=n): code(s, 8)
    for p in range(256):
        for b in (0, 1): code([(p, b)] * 9, 8); code([(p, b), (p, 1 - b), (128, 1), (p, b)], 8)
    # runs of 255 bytes with and without the carry at their end
    for k in range(300 if q else 4000):
        r = c.sub_rng("c", k)
        s = carry_run(r, r.choice((6, 15, 16, 17, 24, 40, 80, 200) if k % 50 else (1200,)), r.choice(((128,), (20, 128, 240), (1, 128, 255), (5, 250), tuple(range(256)))), r.random() < .8)
        s += [(r.randrange(256), r.randrange(2)) for _ in range(r.choice((0, 0, 1, 5, 30)))]
        code(s)
    for k in range(250 if q else 5000):
        r = c.sub_rng("r", k)
        ps = r.choice((EXTREME, (128,), (1,), (255,), (0, 255), tuple(range(256)))); bias = r.choice((.02, .5, .98, None))
        one = lambda p: int(r.random() < bias) if bias is not None else int(r.random() >= p / 256)
        s = []
        for _ in range(r.choice((1, 7, 40, 300))): p = r.choice(ps); s.append((p, one(p)))
        code(s, r.choice((0, 8, 40)))
    # any bytes, read to well past their end
    for k in range(200 if q else 3000):
        r = c.sub_rng("b", k); n = r.choice((0, 1, 2, 3, 5, 20, 60))
        b = bytes([r.randrange(255)] + [r.choice((0, 255, r.randrange(256))) for _ in range(n - 1)]) if n else b""
        lines.append("read %s %s" % (b.hex() or "-", ",".join(str(r.choice(EXTREME) if k % 2 else r.randrange(256)) for _ in range(n * 9 + 60))))
    # trees
    for t in ("kfy", "y", "uv", "b", "seg", "smallmv", "split", "mvref", "submv"):
        for k in range(8 if q else 80):
            r = c.sub_rng(t, k); lines.append("tree %s %s" % (t, ",".join(str([128, 1, 255, 0][k] if k < 4 else r.randrange(256)) for _ in range(17))))
    # literals: every value of every width
    for n in (1, 2, 3, 4, 6, 7, 8):
        for s in (0, 1):
            if n == 8 and s: continue
            for k in range(40 if q else 300):
                r = c.sub_rng("l", n, s, k); lines.append("lit %s %d %d" % (bytes([r.randrange(255)] + [r.randrange(256) for _ in range(7)]).hex(), n, s))
    # motion vectors
    for k in range(60 if q else 800):
        r = c.sub_rng("m", k); ps = [r.choice((1, 128, 255, 3, 250, r.randrange(1, 256))) for _ in range(38)]
        if k % 2: ps[0] = ps[19] = r.choice((1, 2, 60))   # mostly long
        lines.append("mv %s %s 14" % (bytes([r.randrange(255)] + [r.randrange(256) for _ in range(40)]).hex(), ",".join(map(str, ps))))
    ev, rc, err = vc.run_lines("coder", lines, timeout=200)
    n = 0
    if rc != 0:
        done = sum(1 for e in ev if e["e"] != "tree")   # trees emit several events
        ev2, rc2, err2 = vc.run_lines("coder", lines, timeout=200)
        if rc2 == 0: raise vc.ModelError("the coder harness failed once: %s" % err)
        c.violation("the coder dies (%s) %s" % (rc, err2[-300:]), {"after_events": len(ev), "last": ev[-1:] })
        return
    c.cov.update(events=len(ev), longest=max(len(e.get("by", [])) for e in ev), longest_run_of_255=max(longest(e["by"]) for e in ev if e["e"] == "code"))
    c.sample(lines[:2] + lines[-1:])
    # the judge notices one bit
    can = [[dict(e)] for e in (next(e for e in ev if e["e"] == "code" and len(e["by"]) > 4), next(e for e in ev if e["e"] == "mv"))]
    can[0][0]["by"] = [x ^ (i == 1) for i, x in enumerate(can[0][0]["by"])]; can[1][0]["r"] = [x + 2 * (i == 9) for i, x in enumerate(can[1][0]["r"])]
    if len(c.validate("Vp8CoderTrace", can)) != 2: raise vc.ModelError("a wrong byte was accepted")
    c.cov["traces_validated_against_impl"] -= 2
    for i, pos in c.validate("Vp8CoderTrace", [[e] for e in ev], timeout=3000)[:3]:
        c.violation("the arithmetic coder departs from its definition: %s" % ev[i]["e"], ev[i])
    mags = {abs(x) // 2 for e in ev if e["e"] == "mv" for x in e["r"]}
    c.cov["vector_magnitudes_seen"] = len(mags)
    c.log("%d events, longest run of 255: %d, %d vector magnitudes" % (len(ev), c.cov["longest_run_of_255"], len(mags)))
    c.assume += ["data whose first byte is 255 (no coder writes it) is not read"]
def longest(by):
    m = k = 0
    for x in by: k = k + 1 if x == 255 else 0; m = max(m, k)
    return m
