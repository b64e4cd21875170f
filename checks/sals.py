"""Scenarios for the Salsify programs, shared by C01..C06 (and C08)."""
import concurrent.futures as cf, json, random, re, time
import vc, vbuild, salsify as Z

DESIGN = """SPECIFICATION Spec
CONSTANTS MaxFrames = %d
 MaxFrag = %d
 Period = 2
 CleanFrames = 2
 CarelessR = %s
 CarelessS = %s
 AckBound = %d
 EmitLen = 0
INVARIANTS %s
%s
VIEW View
CHECK_DEADLOCK FALSE
"""
INVS = "TruthfulState TruthfulComplete Restorable NoLeak SenderCanGoOn ConservativeSource Recovered"

def design(c, invs=INVS, prop="PROPERTIES InOrder"):
    """exhaustive exploration of the composed design"""
    sizes = [(3, 2, 2), (6, 1, 1)] if c.quick else [(4, 2, 2), (6, 1, 2), (5, 2, 1), (7, 1, 1)]
    for f, g, a in sizes:
        c.model_check("Salsify", DESIGN % (f, g, "FALSE", "FALSE", a, invs, prop), workers=8, heap="12g", timeout=3000)

def canary_design(c):
    """the invariants bite: the two known-faulty variants are refuted"""
    for (f, g, a, cr, cs, inv) in ((6, 1, 1, "TRUE", "FALSE", "Restorable"), (3, 2, 2, "FALSE", "TRUE", "SenderCanGoOn")):
        t = c.tlc("Salsify", DESIGN % (f, g, cr, cs, a, inv, ""), workers=8, heap="8g", count=False)
        if inv not in t.violated:
            raise vc.ModelError("the faulty variant of the design is not refuted by %s" % inv)

def schedules(c, num, length=34, frames=7, frag=3):
    cfg = (DESIGN % (frames, frag, "FALSE", "FALSE", 2, "Emit", "")).replace("EmitLen = 0", "EmitLen = %d" % length)
    t = c.tlc("Salsify", cfg, extra=["-simulate", "num=%d" % num, "-depth", str(length + 6), "-seed", str(c.seed)], count=False, timeout=200)
    seen, out = set(), []
    for m in re.findall(r'<<"SCHED", "(.*)">>', t.out):
        if m in seen: continue
        seen.add(m)
        out.append(json.loads(json.loads('"%s"' % m)))
    if len(out) < 5: raise vc.ModelError("TLC gave no schedules")
    return out

# ---------------------------------------------------------------- receiver
def frames_for(shape, rng, w, h):
    """real frames for a list of (source, target, fragments, noop, early) with symbolic states; returns list of dicts"""
    sc = Z.Script(w, h)
    names, idx = {0: "i"}, []
    keypic = {}
    for g, f in enumerate(shape):
        src = names.get(f["src"], "i")
        if f["noop"] and src != "i":
            sc.lines.append("noop %s" % src); idx.append((len(sc.lines) - 1, g, True))
            # if no such frame exists, a fresh one takes its place
            sc.lines.append("enc %s n%d flat %d 60" % (src, g, rng.randrange(1000))); idx.append((len(sc.lines) - 1, g, False))
            continue
        if f["tgt"] in names and src == "i":     # the same key frame again
            k = keypic.get(f["tgt"])
            if k:
                sc.lines.append(k); idx.append((len(sc.lines) - 1, g, False)); continue
        nm = "s%d" % g
        line = "enc %s %s %s %d %d" % (src, nm, rng.choice(["flat", "mild", "mild", "busy", "noise", "grad", "flat"]), rng.randrange(1000), rng.choice([8, 20, 40, 60, 90, 120]))
        sc.lines.append(line); idx.append((len(sc.lines) - 1, g, False))
        names[f["tgt"]] = nm
        if src == "i": keypic[f["tgt"]] = line
    out = sc.run()
    res = [None] * len(shape)
    for k, g, noop in idx:
        o = out[k]
        if res[g] is not None or not o["h"]: continue
        res[g] = o
    return out[0]["init"], res

def receiver_session(c, shape, log, rng, w, h):
    """play the deliveries of `log` to the real receiver"""
    init, fr = frames_for(shape, rng, w, h)
    ck = Z.Clock(c.work)
    r = Z.Receiver(c.work, w, h, init, Z.Ids(), ck)
    parts = []
    for f, o in zip(shape, fr):
        b = bytes.fromhex(o["h"])
        if f["early"] and f["n"] > 1 and len(b) > f["n"]:
            p = Z.split(b[:-1], f["n"] - 1, rng) + [b[-1:]]
        else:
            p = Z.split(b, f["n"], rng)
        parts.append(p)
    grace = [rng.choice([0, 0, 500, 33000, 2000000]) for _ in shape]
    done = []
    for ev in log:
        if ev["k"] != "D": continue
        todo = [(ev["a"], ev["b"])]
        if rng.random() < 0.15: todo.append(todo[0])                   # repeated at once
        if done and rng.random() < 0.2: todo.append(rng.choice(done))  # an old one again
        for g, k in todo:
            if k >= len(parts[g]): continue
            o = dict(fr[g])
            if shape[g].get("lie"): o["tgt"] ^= shape[g]["lie"]         # announced target that decoding does not reach
            r.packet(dict(src=o["src"], tgt=o["tgt"], fno=g, frag=k, n=len(parts[g]), grace=grace[g] if k == 0 else 0, payload=parts[g][k]),
                     g, o["pic"], dt=rng.choice([0, 1, 37, 1000, 1000, 5000, 33000, 250000]), honest=not shape[g].get("lie"))
            done.append((g, k))
            if not r.alive(): break
        if not r.alive(): break
    shown = sum(1 for e in r.trace for d in e.get("D", ()) if d["shown"])
    t = r.finish(shown)
    ck.close()
    return t

def random_shape(rng, n):
    shape, known, log = [], [0], []
    for g in range(n):
        src = rng.choice([known[-1], known[-1], known[-1], rng.choice(known[-4:]), 0, rng.choice(known), shape[-1]["src"] if shape else 0])
        noop = src != 0 and rng.random() < 0.15
        tgt = src if noop else g + 1
        if src == 0 and rng.random() < 0.4:
            ks = [f["tgt"] for f in shape if f["src"] == 0]
            if ks: tgt = rng.choice(ks)
        k = rng.choice([1, 1, 2, 3, 4])
        shape.append({"src": src, "tgt": tgt, "n": k, "noop": noop, "early": k > 1 and rng.random() < 0.3,
                      "lie": rng.choice([1, 5]) if rng.random() < 0.06 else 0})
        known.append(tgt)
    for g in range(n):
        fs = list(range(shape[g]["n"]))
        if rng.random() < 0.4: rng.shuffle(fs)
        if rng.random() < 0.25 and len(fs) > 1: fs.pop(rng.randrange(len(fs)))
        if rng.random() < 0.08: fs = []
        log += [{"k": "D", "a": g, "b": k} for k in fs]
    for _ in range(rng.choice([0, 0, 1, 3])):                          # reordering across frames
        if len(log) > 2:
            i = rng.randrange(len(log) - 1)
            log.insert(min(len(log), i + rng.randint(1, 4)), log.pop(i))
    return shape, log

def directed_shapes():
    def F(src, tgt, n=1, noop=False, early=False): return {"src": src, "tgt": tgt, "n": n, "noop": noop, "early": early}
    D = lambda *x: [{"k": "D", "a": a, "b": b} for a, b in x]
    out = []
    # a state listed twice, then a frame based on the one between, then one based on the repeated one
    out.append(([F(0, 1), F(1, 2), F(0, 1), F(2, 4), F(1, 5), F(4, 6)], D(*[(i, 0) for i in range(6)])))
    out.append(([F(0, 1), F(0, 2), F(0, 1), F(0, 2), F(1, 5), F(2, 6), F(5, 7)], D(*[(i, 0) for i in range(7)])))
    out.append(([F(0, 1), F(0, 2), F(0, 1), F(2, 4), F(1, 5)], D(*[(i, 0) for i in range(5)])))
    # the same older state is the source again and again, with other states in between
    out.append(([F(0, 1), F(1, 2), F(2, 3), F(2, 4), F(2, 5), F(5, 6), F(2, 7), F(2, 8)], D(*[(i, 0) for i in range(8)])))
    out.append(([F(0, 1), F(1, 2), F(2, 3), F(3, 4), F(3, 5), F(4, 6), F(3, 7), F(4, 8)], D(*[(i, 0) for i in range(8)])))
    # announced targets that are not reached
    out.append(([F(0, 1), dict(F(1, 2), lie=5), F(1, 3), dict(F(0, 4), lie=1), F(3, 5), dict(F(5, 6, 2), lie=5), F(5, 7)], D((0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (5, 1), (6, 0))))
    # the last fragment carries nothing: its loss leaves the announced state
    out.append(([F(0, 1), F(1, 2, 2, early=True), F(2, 3), F(3, 4, 2), F(2, 5), F(3, 6)], D((0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0))))
    # partial frame, then recovery from older listed states
    out.append(([F(0, 1), F(1, 2), F(2, 3, 3), F(3, 4), F(2, 5), F(5, 6), F(2, 7)], D((0, 0), (1, 0), (2, 1), (2, 0), (3, 0), (4, 0), (5, 0), (6, 0))))
    # everything lost for a while, back to the initial state
    out.append(([F(0, 1), F(1, 2), F(2, 3), F(3, 4), F(0, 5), F(5, 6), F(0, 5), F(5, 8)], D((0, 0), (3, 0), (4, 0), (5, 0), (1, 0), (6, 0), (7, 0))))
    # missing first fragment: nothing to show
    out.append(([F(0, 1), F(1, 2, 3), F(1, 3, 2), F(3, 4)], D((0, 0), (1, 1), (1, 2), (2, 1), (2, 0), (3, 0), (1, 0))))
    # only the first packet of a frame long ago
    out.append(([F(0, 1, 3), F(0, 2, 2), F(2, 3), F(3, 4)], D((0, 2), (0, 0), (1, 0), (3, 0), (1, 1), (0, 1), (2, 0))))
    # long gaps and a long list of states
    out.append(([F(0, 1)] + [F(1, k) for k in range(2, 9)] + [F(5, 9), F(8, 10), F(6, 11), F(10, 12)], D(*[(i, 0) for i in range(12)])))
    return out

def receiver_traces(c):
    vbuild.build("receiver", "framegen")
    rng = c.sub_rng("recv")
    jobs = [(s, l) for s, l in directed_shapes()]
    sch = schedules(c, 60 if c.quick else 600)
    pick = rng.sample(sch, min(len(sch), 90 if c.quick else 900))
    jobs += [(x["frames"], x["log"]) for x in pick]
    jobs += [random_shape(rng, rng.randint(5, 10)) for _ in range(110 if c.quick else 2000)]
    sizes = [(64, 64), (48, 32), (16, 16), (40, 24)]
    seeds = [rng.randrange(1 << 30) for _ in jobs]
    def one(i):
        return receiver_session(c, jobs[i][0], jobs[i][1], random.Random(seeds[i]), *sizes[i % len(sizes)])
    with cf.ThreadPoolExecutor(8) as ex:
        traces = list(ex.map(one, range(len(jobs))))
    c.log("%d receiver sessions, %d packets" % (len(traces), sum(len(t) for t in traces)))
    return traces, one

def judge(c, module, focus, traces, redo, what):
    con = 'CONSTANT Focus = "%s"\n' % focus
    rej = c.validate(module, traces, constants=con, timeout=800)
    if not rej: return
    again = [redo(i) for i, _ in rej[:24]]
    rej2 = c.validate(module, again, constants=con)
    c.log("%d rejected, %d of the first %d again" % (len(rej), len(rej2), len(again)))
    for k, pos in rej2[:3]:
        t = again[k]
        c.violation("%s: event %d of the run is not explained by the specification: %s" % (what, pos, json.dumps(t[pos] if pos < len(t) else t[-1])[:400]),
                    {"trace": t, "position": pos})

# ---------------------------------------------------------------- sender
def sender_session(c, rng, mode="s2", w=64, h=64, frames=10, conn=Z.CONN, plan=None):
    sc = Z.Script(w, h)
    init = sc.run()[0]["init"]
    ck = Z.Clock(c.work)
    s = Z.Sender(c.work, w, h, init, Z.Ids(), ck, mode, conn)
    kinds = ["busy", "noise", "mild", "flat"]
    kind = rng.choice(kinds)
    newest = None
    for k in range(frames):
        if rng.random() < 0.3: kind = rng.choice(kinds)
        st = plan[k] if plan else None
        if st: kind = st.get("kind", kind)
        s.capture(kind, st["seed"] if st and "seed" in st else (rng.randrange(500) if rng.random() < 0.85 else 7), st["dt"] if st else
                  rng.choice([33000, 33000, 33000, 1000000, 2500000, 4967000, 5000000, 6000000]))
        if s.dead: break
        if st: acks = [a(s) if callable(a) else a for a in st["acks"]]
        else: acks = [random_ack(s, rng, init) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        for a in acks:
            if a: s.ack(a)
        if s.dead: break
        if rng.random() < 0.3: ck.add(rng.choice([1000, 40000, 5000000]))
        s.release()
        if s.dead: break
    t = s.finish()
    ck.close()
    return t

def random_ack(s, rng, init):
    if not s.packets: return None
    p = s.packets[-1] if rng.random() < 0.7 else rng.choice(s.packets)
    tg = []
    for q in s.packets:
        if not tg or tg[-1][0] != q["fno"]: tg.append((q["fno"], q["tgt"]))
    targets = [t for f, t in tg if f <= p["fno"]]
    cur = rng.choice([targets[-1], targets[-1], targets[-1], rng.choice(targets), init, rng.randrange(2**32)])
    k = rng.choice([0, 1, 1, 2, 3])
    lo = max(0, len(targets) - rng.randint(0, 4))
    complete = targets[lo:lo + k]
    if cur in targets and rng.random() < 0.6 and cur not in complete: complete = complete + [cur]
    if rng.random() < 0.1: complete = complete + complete[:1]
    a = dict(fno=p["fno"], frag=p["frag"], cur=cur, complete=complete,
             delay=rng.choice([0, 1, 100, 500, 5000, 9999, 14000, 20000, 25000, 33333, 50000, 100000, 100001, 700000, 2000000]))
    if rng.random() < 0.1: a["conn"] = s.conn ^ rng.choice([1, 256])
    else: a["conn"] = s.conn
    return a

def sender_plans():
    """directed histories"""
    def last(s, **kw):
        p = s.packets[-1]
        d = dict(conn=s.conn, fno=p["fno"], frag=p["frag"], cur=p["tgt"], complete=[p["tgt"]], delay=500)
        d.update(kw); return d
    def tgt(s, f): return [p["tgt"] for p in s.packets if p["fno"] == f][0]
    st = lambda *acks, dt=33000, **kw: dict(dt=dt, acks=list(acks), **kw)
    out = []
    # delay zero, then unknown states, conservative boundaries at exactly five seconds
    out.append([st(), st(lambda s: last(s, delay=0)), st(lambda s: last(s, cur=12345)), st(dt=33000), st(dt=4999999 - 33000), st(dt=1),
                st(dt=1), st(lambda s: last(s), dt=100), st(), st(lambda s: last(s, cur=77, complete=[]))] + [st()] * 3)
    # too many frames in flight: skipping, three in a row at most
    out.append([st(kind="noise", seed=3), st(lambda s: last(s, delay=100000), kind="noise")] + [st(kind="noise")] * 10)
    out.append([st(kind="busy", seed=3), st(lambda s: last(s, delay=30000), kind="noise")] + [st(kind="noise", dt=200000)] * 4 +
               [st(lambda s: last(s, delay=14000), kind="busy")] * 5)
    # acknowledgements overtaking each other after packets of one frame did
    def ov(kind):
        return [st(kind=kind, seed=1), st(lambda s: last(s), kind=kind, seed=2), st(kind=kind, seed=4),
                st(lambda s: dict(last(s), fno=1, frag=0, cur=tgt(s, 1), complete=[tgt(s, 0), tgt(s, 1)]), kind=kind, seed=5), st(kind=kind, seed=6),
                st(lambda s: dict(last(s), fno=1, frag=1, cur=tgt(s, 0), complete=[tgt(s, 0)]), kind=kind, seed=7), st(), st(), st()]
    out.append(ov("noise")); out.append(ov("busy"))
    # the receiver reached an announced state without the last fragment, then got lost
    out.append([st(), st(lambda s: last(s)), st(lambda s: dict(last(s), cur=tgt(s, 1), complete=[tgt(s, 0)])), st(),
                st(lambda s: last(s, cur=5, complete=[tgt(s, 0)])), st(), st(), st()])
    # back to the initial state; the same picture again and again
    out.append([st(kind="flat", seed=1)] * 3 + [st(lambda s: last(s, cur=9, complete=[]), kind="flat", seed=1)] + [st(kind="flat", seed=1)] * 3 +
               [st(lambda s: last(s), dt=5100000, kind="flat", seed=1)] + [st(lambda s: last(s), kind="flat", seed=1)] * 4)
    # late acknowledgement of an earlier frame, of another session
    out.append([st(), st(), st(lambda s: last(s), lambda s: last(s, fno=0, frag=0, cur=1, complete=[], delay=9)), st(),
                st(lambda s: last(s, conn=s.conn ^ 4, cur=2, complete=[], delay=8)), st(), st()])
    return out

def sender_traces(c):
    vbuild.build("sender", "framegen")
    rng = c.sub_rng("send")
    plans = sender_plans()
    jobs = [dict(plan=p, mode=m, frames=len(p)) for p in plans for m in (("s2", "conventional") if c.quick else ("s2", "s1", "conventional"))]
    for i in range(60 if c.quick else 600):
        jobs.append(dict(mode=("s2", "s2", "s1", "conventional", "s2")[i % 5], frames=rng.randint(6, 14) if c.quick else rng.randint(6, 30),
                         conn=rng.choice([Z.CONN, Z.CONN, 0, 65535, 7]), w=(64, 32)[i % 2], h=(64, 48)[i % 2]))
    seeds = [rng.randrange(1 << 30) for _ in jobs]
    def one(i): return sender_session(c, random.Random(seeds[i]), **jobs[i])
    with cf.ThreadPoolExecutor(8) as ex:
        traces = list(ex.map(one, range(len(jobs))))
    c.log("%d sender sessions, %d events" % (len(traces), sum(map(len, traces))))
    return traces, one

# ---------------------------------------------------------------- both
def pair_session(c, log, rng, mode="s2", w=64, h=64, clean=4, harsh=0):
    """the real sender and the real receiver, joined by a network that follows `log`, then a clean period"""
    init = Z.Script(w, h).run()[0]["init"]
    ck = Z.Clock(c.work)
    ids = Z.Ids()
    s = Z.Sender(c.work, w, h, init, ids, ck, mode)
    r = Z.Receiver(c.work, w, h, init, ids, ck)
    net, acks = {}, {}
    seen = [0]
    kind = rng.choice(["busy", "noise", "mild"])
    seed = [0]
    def frame(dt, k=None):
        """let the pending encoding finish, capture the next picture; the finished frame leaves meanwhile"""
        seed[0] += 1
        if seed[0] > 1: s.release()
        s.capture(k or (kind if rng.random() < 0.8 else "busy"), seed[0], dt)
        for p in s.packets[seen[0]:]: net.setdefault(p["fno"], {})[p["frag"]] = p
        new = s.packets[seen[0]:]
        seen[0] = len(s.packets)
        return new
    def deliver(p):
        e = [x for x in s.encs if x["tgt"] == p["tgt"]]
        for raw in r.packet(p, p["fno"], e[0]["pic"] if e else 0, dt=rng.choice([100, 500, 1500])):
            a = Z.parse_ack(raw)
            if a: acks.setdefault((a["fno"], a["frag"]), []).append(a)
    ok = lambda: not s.dead and r.alive()
    frame(33000)
    for ev in log:
        if not ok(): break
        if ev["k"] == "F":
            frame(rng.choice([33000, 33000, 2500000]))
        elif ev["k"] == "D":
            fr = net.get(ev["a"])
            if not fr: continue
            n = next(iter(fr.values()))["n"]
            ks = [ev["b"]] + (list(range(ev["b"] + 1, n)) if rng.random() < 0.7 else [])
            if rng.random() < 0.2: ks.reverse()
            ks = [k for k in ks if rng.random() >= harsh]   # parts of frames are lost
            for k in ks:
                if k in fr and ok(): deliver(fr[k])
        elif ev["k"] == "A":
            a = acks.get((ev["a"], ev["b"]))
            if a: s.ack(a[-1])
    # clean: every packet of every frame sent from now on arrives in order, and so does every acknowledgement
    sent = set()
    for i in range(40):      # frames may be skipped while the measured delay is high
        if not ok() or len(sent) >= clean: break
        for p in frame(33000, "busy" if i % 2 else "noise"):
            if not ok(): break
            sent.add(p["fno"])
            deliver(p)
            for raw in r.last_acks:
                a = Z.parse_ack(raw)
                if a: s.ack(a)
    if ok() and len(sent) >= clean:
        r.trace.append({"e": "insync", "tgt": ids(s.packets[-1]["tgt"])})
        s.ev({"e": "agree", "cur": ids(s.packets[-1]["tgt"])})
    elif ok():
        s.ev({"e": "stalled"})      # no step of the specification
    shown = sum(1 for e in r.trace for d in e.get("D", ()) if d["shown"])
    rt = r.finish(shown)
    stt = s.finish()
    ck.close()
    return rt, stt
