"""C24: addresses, datagrams, descriptors."""
import concurrent.futures as cf, ipaddress
import vc, vbuild
MC = """SPECIFICATION Spec
CONSTANTS Names = %s
 Sends = %d
 Slots = %s
 Files = %d
INVARIANTS Honest OnceInOrder OnlyPeer ClosedOnce EndMet
CHECK_DEADLOCK FALSE
"""
def ip(rng):
    k = rng.randrange(8)
    if k < 3: b = bytes(10) + b"\xff\xff" + (rng.randbytes(4) if rng.random() < .8 else rng.choice((bytes(4), b"\xff" * 4, b"\x7f\0\0\1")))
    elif k == 3: b = rng.randbytes(16)
    elif k == 4: b = bytes(12) + rng.choice((rng.randbytes(4), b"\0\0\0\1", b"\0\0" + rng.randbytes(2), bytes(4), b"\0\0\1\0"))
    else: b = b"".join(rng.choice((b"\0\0", b"\0\0", b"\0" + rng.randbytes(1), rng.randbytes(2), b"\xff\xff")) for _ in range(8))
    if b[:2] in (b"\xfe\x80",) or b[0] == 0xff or b[0] == 0xfe: b = b"\x20" + b[1:]     # link-local and multicast addresses carry a scope
    return b
def texts(rng, b):
    a = ipaddress.IPv6Address(b); t = [a.compressed, a.exploded, a.exploded.upper()]
    if a.ipv4_mapped: t += [str(a.ipv4_mapped)] * 3 + ["::ffff:" + str(a.ipv4_mapped)]
    return rng.choice(t)
def port(rng): return rng.choice((0, 1, 80, 255, 256, 8888, 65535, rng.randrange(65536)))
BAD = ("", "1.2.3.4.5", "256.1.1.1", "1.2.3.4:80", "::1::2", "12345::", "1:2:3:4:5:6:7:8:9", "no such host", "1.2.3.x", "[::1]", ":::")
def pure(rng, n):
    o = []
    for _ in range(n):
        k = rng.randrange(20); b = ip(rng)
        if k < 7: o.append("addr %s %s %s %d" % (rng.choice(("port", "port", "service", "raw")), b.hex(), texts(rng, b).encode().hex(), port(rng)))
        elif k == 7: o.append("addr bad - %s %d" % (rng.choice(BAD).encode().hex() or "-", port(rng)))
        elif k < 11:
            p = port(rng); c, r = (b, p)
            if rng.random() < .4: i = rng.randrange(16); c = b[:i] + bytes((b[i] ^ (1 << rng.randrange(8)),)) + b[i + 1:]
            elif rng.random() < .4: r = p ^ (1 << rng.randrange(16))
            x, y = b.hex(), c.hex()
            if rng.random() < .1: x = "-"; p = 0
            if rng.random() < .1: y = "-"; r = 0
            o.append("same %s %d %s %d" % (x, p, y, r))
        elif k == 11: o.append("big %d" % rng.choice((28, 16, 127, 128, 129, 200, 2000)))
        elif k < 17:
            parts = []
            for _ in range(rng.choice((0, 1, 1, 1, 2, 3))):
                parts.append(rng.choice(("x %d" % rng.choice((0, 1, 4, 20)), "y %d" % rng.choice((1, 4, 16)), None)) or "t %d %d" % (rng.choice((0, 1, 1700000000, 2147483647)), rng.choice((0, 999, 1000, 999999999, rng.randrange(10**9)))))
            if sum(p[0] == "t" for p in parts) > 1: parts = [p for p in parts if p[0] != "t"] + ["t 12 345678"]
            flags = rng.choice((0, 0, 0, 0, 0x20, 0x8, 0x80, 1, 0x2000, 0x28))
            o.append("frecv %d %d %s %d %d %d %s" % (rng.choice((0, 0, 0, 0, 0, 11, 111)), flags, b.hex(), port(rng), rng.choice((0, 1, 20, 1400, 65507, 65535, 9)), rng.randrange(10**6), " ".join(parts)))
        else:
            n_ = rng.choice((0, 1, 30, 1400, 65507)); s = rng.choice((-1, -1, -1, n_, max(0, n_ - 1), 0))
            o.append("fsend %s %d %d %s %d %d %d" % (rng.choice(("send", "sendto")), rng.choice((0, 0, 0, 0, 90, 11)), s, b.hex(), port(rng), n_, rng.randrange(10**6)))
    return o
def live(rng, n):
    """sockets on the loopback device; the driver keeps only what it needs to know not to wait for nothing"""
    k = rng.choice((2, 3, 4)); o = []; peer = {}; box = {i: 0 for i in range(1, k + 1)}; size = dict(box)
    for i in box:
        o.append("socket %d %d" % (i, rng.randrange(2)))
        if rng.random() < .6: o.append("stamps %d" % i)
        o.append("bind %d" % i)
    for _ in range(n):
        i, j = rng.choice(list(box)), rng.choice(list(box)); r = rng.random()
        if r < .08 and i != j and i not in peer: peer[i] = j; o.append("connect %d %d" % (i, j))
        elif r < .55:
            m = rng.choice((0, 1, 20, 300, 1432, 1500, 9000, 65507, 65508, 70000) if rng.random() < .3 else (0, 1, 20, 300, 1432, 1500))
            if size[j] + m > 100000: continue
            if i in peer and rng.random() < .7: j = peer[i]; how = "send"
            else: how = "sendto"
            if size[j] + m > 100000 or box[j] > 12: continue
            if peer.get(i) == j and peer.get(j, i) != i: continue      # the kernel answers such a datagram with an error later
            if m <= 65507 and peer.get(j, i) == i: box[j] += 1; size[j] += m + 1000
            o.append("%s %d %d %d %d" % (how, i, j, m, rng.randrange(10**6)))
        elif box[i]:
            o.append("recv %d" % i); box[i] -= 1
            if box[i] == 0: size[i] = 0
    return o + ["recv %d" % i for i in box for _ in range(box[i])]
def files(rng, n):
    o = []
    for _ in range(n):
        i, j = rng.randrange(1, 7), rng.randrange(1, 7); r = rng.random(); a = sorted(alive(o))
        if r > .35 and a and rng.random() < .8: i = rng.choice(a)
        if r < .35 and i not in alive(o): o.append("open %d %d" % (i, rng.choice((0, 1, 2, 5, 120))))
        elif r < .6 and i in alive(o) and i != j: o.append("move %d %d" % (i, j))
        elif r < .9 and i in alive(o): o.append("read %d %d" % (i, rng.choice((1, 1, 3, 200, 1 << 21))))
        elif i not in alive(o) or rng.random() < .5: o.append("drop %d" % i)
    return o
def alive(o):
    s = set()
    for x in o:
        p = x.split()
        if p[0] == "open": s.add(int(p[1]))
        elif p[0] == "move": s.add(int(p[2])); s.discard(int(p[1]))
        elif p[0] == "drop": s.discard(int(p[1]))
    return s
def play(lines):
    ev, rc, err = vc.run_lines("net", lines, timeout=120)
    if rc != 0: ev.append({"e": "died", "rc": rc})
    return ev
def run(c):
    vbuild.build("net")
    q = c.quick
    c.model_check("DatagramMC", MC % ("{1, 2}", 4 if q else 5, "{1}", 0), workers=8, heap="6g", timeout=1500)
    c.model_check("DatagramMC", MC % ("{1, 2, 3}", 2 if q else 3, "{1}", 0), workers=8, heap="6g", timeout=1500, tag="three")
    c.model_check("DatagramMC", MC % ("{}", 0, "{1, 2, 3}", 4 if q else 5), workers=8, heap="6g", timeout=1500, tag="files")
    jobs = [pure(c.sub_rng("pure", i), 25) for i in range(60 if q else 600)] + [live(c.sub_rng("live", i), 60) for i in range(40 if q else 400)] + [files(c.sub_rng("files", i), 40) for i in range(15 if q else 100)]
    with cf.ThreadPoolExecutor(8) as ex: traces = list(ex.map(play, jobs))
    n = {}
    for t in traces:
        for e in t: n[e["e"]] = n.get(e["e"], 0) + 1
    c.cov["events"] = n; c.sample([jobs[0][:3], jobs[-20][:4]]); c.log("%d sessions" % len(jobs), n)
    can = [dict(e) for e in next(t for t in traces if any(e["e"] == "recv" for e in t))]; k = [i for i, e in enumerate(can) if e["e"] == "recv"][-1]
    can[k] = dict(can[k], src=dict(can[k]["src"], port=can[k]["src"]["port"] ^ 1))
    if not c.validate("DatagramTrace", [can]): raise vc.ModelError("a wrong sender was accepted")
    c.cov["traces_validated_against_impl"] -= 1
    rej = c.validate("DatagramTrace", traces)
    if rej:
        again = [play(jobs[i]) for i, _ in rej[:24]]
        for k, pos in c.validate("DatagramTrace", again)[:2]:
            c.violation("network: step %d of a session is not explained by the specification" % pos, {"commands": jobs[rej[k][0]], "event": again[k][pos] if pos < len(again[k]) else None, "position": pos})
    c.assume += ["text of IPv6 addresses as glibc writes it; no scopes", "the loopback device loses and reorders nothing while queues are small"]
