"""C07: packets and acknowledgements survive the wire; frames survive splitting and reassembly."""
import json, re, struct
import vc, vbuild
from vc import run_lines

DES = """SPECIFICATION Spec
CONSTANTS MaxPayload = 2
  Datas <- MCDatas
  Conns = {1}
  MaxDeliver = %d
INVARIANTS RoundTrip WholeFrame PrefixOfFrame CompleteIffAll NoForeign
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANTS MaxPayload = 2
  Datas <- MCDatas
  Conns = {1}
  MaxDeliver = %d
INVARIANTS Emit
CHECK_DEADLOCK FALSE
"""

def pkt_bytes(conn, src, tgt, fno, frag, n, tm, payload):
    return struct.pack("<HIIIHHI", conn, src, tgt, fno, frag, n, tm) + payload

def session_from_schedule(sched, rng):
    """Concretise a schedule of the design: payloads of real sizes, real 32-bit words."""
    nf = (len(sched["frame"]) + 1) // 2
    last = rng.choice([1, 2, 700, 1399, 1400])
    if rng.random() < 0.6:
        last = rng.randint(1, 40)
    size = 1400 * (nf - 1) + last
    data = bytes(rng.randrange(256) for _ in range(size))
    edge = [0, 1, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 1337]
    w = lambda: rng.choice(edge) if rng.random() < 0.4 else rng.randrange(2**32)
    conn, src, tgt, fno, tm = rng.choice([1337, 0, 65535, rng.randrange(65536)]), w(), w(), w(), w()
    lines = ["fragment %d %d %d %d %d %s" % (conn, src, tgt, fno, tm, data.hex())]
    frs = [data[i:i + 1400] for i in range(0, size, 1400)]
    opened = False
    for p in sched["delivered"]:
        i = min(p["frag"], len(frs) - 1)
        q = dict(conn=conn, src=src, tgt=tgt, fno=fno, frag=p["frag"], n=p["n"] if p["n"] != nf else len(frs), tm=tm if p["frag"] == 0 else 0)
        if p["conn"] != 1: q["conn"] = (conn ^ rng.choice([1, 0x100, 0x8000])) & 0xffff
        if p["src"] != [0, 1]: q["src"] = src ^ (1 << rng.randrange(32))
        if p["tgt"] != [7, 65535]: q["tgt"] = tgt ^ (1 << rng.randrange(32))
        if p["fno"] != [0, 3]: q["fno"] = fno ^ (1 << rng.randrange(32))
        b = pkt_bytes(q["conn"], q["src"], q["tgt"], q["fno"], q["frag"], q["n"], q["tm"], frs[i])
        lines.append("parse " + b.hex())
        if not opened:
            lines.append("open %d %s" % (conn, b.hex()))
            opened = q["conn"] == conn and q["frag"] < q["n"]
        else:
            lines.append("add " + b.hex())
    # short and empty datagrams
    b = pkt_bytes(conn, src, tgt, fno, 0, 1, tm, b"x")
    for k in rng.sample(range(0, 24), 3):
        lines.append("parse " + (b[:k].hex() or "-"))
        if opened: lines.append("add " + (b[:k].hex() or "-"))
    # acknowledgements, whole, truncated, with trailing bytes and with lying counts
    n = rng.choice([0, 1, 2, 5, 17, 300])
    st = [w() for _ in range(n)]
    aw = (rng.randrange(65536), w(), rng.randrange(65536), w(), w())
    lines.append("ackenc %d %d %d %d %d %d %s" % (aw + (n, " ".join(map(str, st)))))
    ab = struct.pack("<HIHIII", aw[0], aw[1], aw[2], aw[3], aw[4], n) + b"".join(struct.pack("<I", x) for x in st)
    lines.append("ackdec " + ab.hex())
    lines.append("ackdec " + (ab[:rng.randrange(len(ab))].hex() or "-"))
    lines.append("ackdec " + (ab + b"zz").hex())
    for lie in (n + 1, n + 0x10000, rng.choice([2**31, 2**32 - 1, 2**24])):
        lines.append("ackdec " + (ab[:16] + struct.pack("<I", lie) + ab[20:]).hex())
    lines.append("field %d" % rng.choice([0, 1, 2**64 - 1, 2**32, 2**63, rng.randrange(2**64)]))
    return lines

def run_session(lines):
    ev, rc, err = run_lines("wire", lines, timeout=120)
    if rc != 0 or len(ev) != len(lines):
        ev.append({"e": "crash"})
    return ev

def run(c):
    vbuild.build("wire")
    c.model_check("WireMC", DES % (3 if c.quick else 4), workers=4)
    t = c.tlc("WireMC", GEN % 6, extra=["-simulate", "num=%d" % (40 if c.quick else 400), "-depth", "8", "-seed", str(c.seed)], count=False)
    scheds = [json.loads(json.loads('"%s"' % m)) for m in re.findall(r'<<"SCHED", "(.*)">>', t.out)]
    if len(scheds) < 10:
        raise vc.ModelError("no schedules from TLC")
    rng = c.sub_rng("s")
    scheds = rng.sample(scheds, min(len(scheds), 120 if c.quick else 2000))
    # exhaustive delivery orders of three fragments (with repetition) on top of the random ones
    import itertools
    for seq in itertools.product(range(3), repeat=4 if c.quick else 5):
        if rng.random() < (0.25 if c.quick else 1):
            scheds.append({"frame": [1, 2, 3, 4, 5], "delivered": [
                {"conn": 1, "src": [0, 1], "tgt": [7, 65535], "fno": [0, 3], "frag": f, "n": 3} for f in seq]})
    sessions = [session_from_schedule(s, rng) for s in scheds]
    traces = [run_session(s) for s in sessions]
    c.log("%d sessions, %d calls" % (len(traces), sum(map(len, traces))))
    c.sample({"commands": [x[:120] for x in sessions[0][:6]]})
    rej = c.validate("WireTrace", traces, constants="CONSTANTS MaxPayload = 1400\n Datas = {1}\n Conns = {1}\n MaxDeliver = 1\n", timeout=800)
    c.cov["calls_recorded"] = sum(map(len, traces))
    if rej:
        again = [run_session(sessions[i]) for i, _ in rej]
        rej2 = c.validate("WireTrace", again, constants="CONSTANTS MaxPayload = 1400\n Datas = {1}\n Conns = {1}\n MaxDeliver = 1\n")
        for k, pos in rej2[:3]:
            i = rej[k][0]
            bad = again[k][pos] if pos < len(again[k]) else None
            c.violation("call %d of the session is not explained by the wire specification: %s" % (pos, str(bad)[:300]),
                        {"commands": sessions[i], "position": pos, "event": bad})
