"""C25: parts of byte strings; values that may be missing."""
import concurrent.futures as cf
import vc, vbuild
MC = """SPECIFICATION Spec
CONSTANTS Slots = {1, 2, 3}
 Early = %s
 Blind = %s
 Ops = %d
INVARIANT Once
CHECK_DEADLOCK FALSE
"""
def parts(rng, n):
    size = rng.choice((0, 1, 2, 3, 7, 8, 9, 20, 60)); o = ["bytes " + (rng.randbytes(size).hex() if rng.random() < .8 else "ff" * size or "-") if size else "bytes -"]; have = {0: size}
    def num(m): return rng.choice((0, 1, m, m, max(0, m - 1), m + 1, rng.randrange(m + 3), rng.choice((2**32, 2**32 - 1 + m, 2**64 - 1, 2**64 - m if m else 2**63, 2**63)) if rng.random() < .3 else rng.randrange(m + 1)))
    for _ in range(n):
        i = rng.choice(list(have)); m = have[i]; r = rng.random(); j = rng.randrange(5)
        if r < .35:
            a = num(m); b = rng.choice((num(m), max(0, m - a), max(0, m - a) + 1, (2**64 - a) % 2**64)); o.append("part %d %d %d %d" % (i, j, a, b))
            if a + b <= m: have[j] = b
        elif r < .5:
            a = num(m); o.append("rest %d %d %d" % (i, j, a))
            if a <= m: have[j] = m - a
        elif r < .7: o.append("le %d %d" % (i, rng.choice((1, 2, 4, 8))))
        else: o.append("bits %d %d %d" % (i, rng.choice((0, 1, 3, 5, 7, 8, 9, 19, 31, 40, 63)), rng.choice((1, 2, 3, 8, 14, 16, 19, 24, 31, 32, 33, 40, 56, 57, 63, 64, 70))))
    return o
def holders(rng, n):
    o = ["init 0 0 0"]
    for _ in range(n):
        k = rng.choice(("cmake", "cvalue", "ccopy", "cmove", "copy", "copy", "copy", "move", "move", "fill", "fill", "again", "clear", "same", "getor"))
        v = rng.randrange(-1 if k == "cmake" else 0, 6)
        if k in ("copy", "ccopy"): v = rng.choice((0, 0, 1))
        o.append("%s %d %d %d" % (k, rng.randrange(3), rng.randrange(3), v))
    return o
def play(lines):
    ev, rc, err = vc.run_lines("view", lines, timeout=60)
    if rc != 0: ev.append({"e": "died", "rc": rc})
    return ev
def run(c):
    vbuild.build("view")
    q = c.quick
    c.model_check("ViewMC", MC % ("FALSE", "FALSE", 7 if q else 10), workers=8, heap="4g", timeout=900)
    for e, b in (("TRUE", "FALSE"), ("FALSE", "TRUE")):
        if "Once" not in c.tlc("ViewMC", MC % (e, b, 4), workers=2, count=False).violated: raise vc.ModelError("the careless assignment is not refuted")
    jobs = [parts(c.sub_rng("parts", i), 40) for i in range(80 if q else 800)] + [holders(c.sub_rng("holders", i), 50) for i in range(80 if q else 800)]
    with cf.ThreadPoolExecutor(8) as ex: traces = list(ex.map(play, jobs))
    n = {}
    for t in traces:
        for e in t: n[e["e"]] = n.get(e["e"], 0) + 1
    c.cov["events"] = n; c.sample([jobs[0][:3], jobs[-1][:4]]); c.log("%d sessions" % len(jobs), n)
    can = [dict(e) for e in traces[-1]]; can[-1] = dict(can[-1], live=can[-1]["live"] + 1)
    if not c.validate("ViewTrace", [can]): raise vc.ModelError("a leaked object was accepted")
    c.cov["traces_validated_against_impl"] -= 1
    rej = c.validate("ViewTrace", traces)
    if rej:
        again = [play(jobs[i]) for i, _ in rej[:24]]
        for k, pos in c.validate("ViewTrace", again)[:2]:
            c.violation("step %d of a session is not explained by the specification" % pos, {"commands": jobs[rej[k][0]], "event": again[k][pos] if pos < len(again[k]) else None, "position": pos})
    c.assume += ["bit fields of at least one bit, within 64 bits", "a failing copy may leave the target empty or as it was"]
