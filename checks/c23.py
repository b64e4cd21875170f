"""C23: raw video played as a camera would take it."""
import concurrent.futures as cf, json, os, subprocess, tempfile
import vc, vbuild
MC = """SPECIFICATION Spec
CONSTANTS Pictures = %d
 Gap = 3
 Slow = {0, 1, 4, 7}
 Over = 1
 Player = "%s"
INVARIANTS InOrder NeverEarly Prompt
%s
CHECK_DEADLOCK FALSE
"""
def video(rng, w, h, n, odd):
    b = b"YUV4MPEG2 W%d H%d F%d:%d Ip A1:1 C420%s\n" % (w, h, rng.choice((24, 30, 1)), rng.choice((1, 1001)), rng.choice((b"", b"jpeg", b" XYSCSS=420")))
    size = w * h + 2 * ((w + 1) // 2) * ((h + 1) // 2)
    for i in range(n):
        b += b"FRAME\n" + rng.randbytes(size)
    if odd == "cut": b = b[:-rng.randrange(1, size + 6)]
    if odd == "junk": b += rng.choice((b"F", b"FRAME", b"FRAMES\n" + bytes(size), b"FRAME\n", b"\n", b"FRAME I\n" + bytes(size)))
    if odd == "magic": b = rng.choice((b"", b"YUV4MPEG", b"x" + b))
    if odd == "format": b = b.replace(b"C420", b"C422", 1)
    return b
def job(rng, odd=None, n=None):
    w, h = rng.choice(((2, 2), (4, 2), (3, 3), (6, 4), (16, 2), (1, 1), (5, 8), (18, 3)))
    fps = rng.choice((1, 2, 7, 12, 24, 25, 30, 30, 60, 90, 240, 1000, 33333, 65537, 999999))
    gap = 1000000 // fps
    n = rng.choice((1, 2, 5, 9, 14)) if n is None else n
    def times(most): return [rng.choice((0, 0, 0, rng.randrange(most + 1), most)) for _ in range(rng.choice((1, 5, 17)))]
    slow = rng.choice((0, gap // 8, gap, 3 * gap, 40 * gap if fps > 20 else gap))
    over = rng.choice((0, 0, 50, 1500))
    sleeps = [over if rng.random() < .5 else rng.randrange(over + 1) for _ in range(5)]
    if rng.random() < .3: sleeps[rng.randrange(4)] = -1
    plan = [[rng.choice((1, 3, 100, 1 << 20)) for _ in range(4)], times(rng.choice((0, 0, gap // 100))), [rng.choice((1, 7, 100, 1 << 20)) for _ in range(4)], times(slow), sleeps]
    arg, valid = str(fps), True
    if odd == "arg":
        arg, valid = rng.choice(("30x", "", "-3", " 30", "030", "3.5", "abc", "0", "4294967326", "99999999999999999999")), False
    return dict(file=video(rng, w, h, n, odd), arg=arg, valid=valid, fps=fps, over=over, plan="/".join(" ".join(map(str, p)) for p in plan), fewer=odd == "args")
def play(j):
    with tempfile.TemporaryDirectory(prefix="c23-") as d:
        f = os.path.join(d, "in.y4m"); open(f, "wb").write(j["file"])
        env = dict(os.environ, PLAY=os.path.join(d, "trace"), PLAN=j["plan"])
        try: rc = subprocess.run([os.path.join(vbuild.BUILD, "bin", "fake-webcam"), f] + ([] if j["fewer"] else [j["arg"]]), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
        except subprocess.TimeoutExpired: rc = 99
        ev = [json.loads(x) for x in open(env["PLAY"])] if os.path.exists(env["PLAY"]) else []
    return [{"e": "file", "file": list(j["file"]), "fps": j["fps"], "over": j["over"], "valid": j["valid"] and not j["fewer"]}] + ev[:6000] + [{"e": "exit", "ok": rc == 0}]
def run(c):
    vbuild.build("fake-webcam")
    q = c.quick
    c.model_check("PlaybackMC", MC % (5 if q else 7, "fixed", "PROPERTIES All"), workers=4, heap="3g", timeout=900)
    for bad, inv in (("drift", "Prompt"), ("skip", "InOrder")):
        if inv not in c.tlc("PlaybackMC", MC % (4, bad, ""), workers=2, count=False).violated: raise vc.ModelError("the %s player is not refuted" % bad)
    jobs = [job(c.sub_rng("plain", i)) for i in range(90 if q else 700)]
    for odd in ("cut", "junk", "magic", "format", "arg", "args"): jobs += [job(c.sub_rng(odd, i), odd) for i in range(6 if q else 40)]
    jobs += [job(c.sub_rng("none", i), n=0) for i in range(2)] + [job(c.sub_rng("long", i), n=60) for i in range(4 if q else 20)]
    with cf.ThreadPoolExecutor(8) as ex: traces = list(ex.map(play, jobs))
    c.cov.update(sessions=len(jobs), writes=sum(e["e"] == "write" for t in traces for e in t)); c.sample([{k: v for k, v in jobs[0].items() if k != "file"}])
    c.log("%d sessions" % len(jobs))
    can = next([dict(e) for e in t] for t in traces if sum(e["e"] == "write" for e in t) > 3 and t[0]["fps"] < 100)
    w = [i for i, e in enumerate(can) if e["e"] == "write"][-1]; can[w] = dict(can[w], b=can[w]["b"][:-1] + [can[w]["b"][-1] ^ 1])
    if not c.validate("PlaybackTrace", [can]): raise vc.ModelError("a wrong sample was accepted")
    c.cov["traces_validated_against_impl"] -= 1
    rej = c.validate("PlaybackTrace", traces)
    if rej:
        again = [play(jobs[i]) for i, _ in rej[:24]]
        for k, pos in c.validate("PlaybackTrace", again)[:2]:
            j = jobs[rej[k][0]]; e = again[k][pos] if pos < len(again[k]) else None
            c.violation("playing: step %d of a session is not explained by the specification" % pos, dict({a: b for a, b in j.items() if a != "file"}, file=j["file"].hex(), event=e, position=pos))
    c.assume += ["time passes only in reads, writes and sleeps (a clock of the harness's own)", "pictures of up to 54 samples a plane; rates from 1 to 999999 a second"]
