"""C21: pictures from the camera."""
import concurrent.futures as cf
import vc, vbuild
MC = """SPECIFICATION Spec
CONSTANTS NBuf = %d
 MaxFrames = %d
 Lines = 2
 Late = %s
INVARIANTS %s
%s
CHECK_DEADLOCK FALSE
"""
def play(lines):
    ev, rc, err = vc.run_lines("cam", lines, timeout=120)
    if rc != 0: ev.append({"e": "died", "rc": rc})
    return ev
def raw(rng, f, w, h):
    n = 2 * w * h if f == "YUYV" else w * h * 3 // 2
    return "fill " + (rng.randbytes(n) if rng.random() < .8 else bytes((i * 7 + rng.randrange(2)) & 255 for i in range(n))).hex()
def jpeg(rng, w, h, odd):
    sub, cut = "422", 0
    if rng.random() < odd:
        k = rng.randrange(4)
        if k == 0: sub = rng.choice(("420", "444", "440", "gray"))
        elif k == 1: w, h = rng.choice(((w + 16, h), (w, h + 8), (w, h + 1), (max(2, w - 2), h)))
        else: cut = rng.randrange(1, 900)
    return "jpeg %d %d %s %d %d %d" % (w, h, sub, rng.randrange(10**6), rng.choice((10, 50, 90, 100)), cut)
def job(rng, f, w, h, n, odd=0):
    """frames arrive faster and slower than they are asked for"""
    o = ["open %d %d %s 1 1 1" % (w, h, f)]; lead = 0
    for _ in range(n):
        k = rng.choice((0, 1, 1, 1, 2, 3, 6))
        o += [jpeg(rng, w, h, odd) if f == "MJPG" else raw(rng, f, w, h) for _ in range(k)]
        o += ["get"] * rng.choice((0, 1, 1, 2, 5))
    if rng.random() < .7: o.append("close")
    return o
def run(c):
    vbuild.build("cam")
    q = c.quick
    c.model_check("CameraMC", MC % (3, 6 if q else 8, "FALSE", "Whole Ordered Held", "PROPERTIES Served"), workers=8, heap="6g", timeout=2000)
    t = c.tlc("CameraMC", MC % (2, 3, "TRUE", "Whole", ""), workers=4, count=False)
    if "Whole" not in t.violated: raise vc.ModelError("the program that hands buffers back too early is not refuted")
    jobs = []
    sizes = ((16, 16), (32, 16), (48, 32), (64, 48), (2, 2), (18, 10), (40, 24), (30, 6), (34, 34), (14, 2), (100, 20))
    for f in ("NV12", "YUYV", "YU12", "MJPG"):
        for i, (w, h) in enumerate(sizes):
            for k in range(2 if q else 12): r = c.sub_rng(f, i, k); jobs.append(job(r, f, w, h, r.choice((3, 8, 14)), .12 if k % 2 else 0))
    r = c.sub_rng("full")
    for f in ("NV12", "YUYV", "YU12", "MJPG"): jobs.append(["open 320 240 %s 1 1 1" % f] + sum([[jpeg(r, 320, 240, 0) if f == "MJPG" else raw(r, f, 320, 240), "get"] for _ in range(2 if q else 6)], []))
    for f in ("NV12", "MJPG", "none"):
        for bits in ("0 1 1", "1 0 1", "1 1 0", "1 1 1", "1 2 1", "1 3 1", "1 4 1", "1 5 1"): jobs.append(["open 32 16 %s %s" % (f, bits), "close"])
    with cf.ThreadPoolExecutor(8) as ex: traces = list(ex.map(play, jobs))
    gets = [e for t in traces for e in t if e["e"] == "get"]
    c.cov.update(sessions=len(jobs), pictures_taken=sum(e["ok"] for e in gets), pictures_refused=sum(not e["ok"] for e in gets))
    c.log("%d sessions, %d pictures" % (len(jobs), len(gets))); c.sample([x[:120] for x in jobs[0][:5]])
    T = next(t for t in traces if sum(e["e"] == "get" and e["ok"] for e in t) > 1 and t[0]["f"] == "NV12")
    can = [dict(e) for e in T]; g = [i for i, e in enumerate(can) if e["e"] == "get"][-1]; can[g]["u"] = can[g]["u"][:-1] + [can[g]["u"][-1] ^ 1]
    if not c.validate("CameraTrace", [can]): raise vc.ModelError("a wrong sample was accepted")
    c.cov["traces_validated_against_impl"] -= 1
    rej = c.validate("CameraTrace", traces)
    if rej:
        again = [play(jobs[i]) for i, _ in rej[:24]]
        for k, pos in c.validate("CameraTrace", again)[:2]:
            e = again[k][pos] if pos < len(again[k]) else None
            c.violation("camera: step %d of a session is not explained by the specification" % pos, {"commands": jobs[rej[k][0]], "event": {a: b for a, b in (e or {}).items() if a not in "yuv"}, "position": pos})
    c.assume += ["the device is a stand-in that hands filled buffers out in order, as V4L2 says; libjpeg's component decoding is trusted", "even widths and heights, as these formats have"]
