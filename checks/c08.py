"""C08: pacing queue and event loop (and the order in which the real sender's packets leave)."""
import json, re
import vc, vbuild, sals

PAC = """SPECIFICATION Spec
CONSTANTS MaxPush = %d
 Delays = {0, 500, 1999}
 Ticks = {1, 700, 1000, 2500}
 MaxTick = %d
 EmitLen = %d
INVARIANTS %s
%s
CHECK_DEADLOCK FALSE
"""
POL = """SPECIFICATION Spec
CONSTANTS NFds = 3
 Shapes <- MCShapes
 MaxSteps = %d
 EmitLen = %d
 Behs = {"io", "none", "cancel", "exit", "cancelnone", "exitnone"}
%s
CHECK_DEADLOCK FALSE
"""
def sched(t):
    return [json.loads(json.loads('"%s"' % m)) for m in set(re.findall(r'<<"SCHED", "(.*)">>', t.out))]

def play(lines):
    ev, rc, err = vc.run_lines("loop", lines, timeout=60)
    if rc != 0: ev.append({"e": "died", "rc": rc})
    return ev

def run(c):
    vbuild.build("loop")
    c.model_check("PacerMC", PAC % (3, 3 if c.quick else 6, 0, "InOrder Paced NotEarly NoOversleep", "VIEW View"), workers=4, heap="8g", timeout=2000)
    c.model_check("PollerMC", POL % (4 if c.quick else 5, 0, "VIEW View\nPROPERTIES Good"), workers=8, heap="12g", timeout=3000)
    n = 200 if c.quick else 2000
    rng = c.sub_rng("x")
    t = c.tlc("PacerMC", PAC % (12, 12, 24, "Emit", ""), extra=["-simulate", "num=%d" % n, "-depth", "26", "-seed", str(c.seed)], count=False, timeout=300)
    pac = sched(t); pac.sort()
    pac = rng.sample(pac, min(len(pac), n))
    lines = []
    for s in pac:
        o = ["P new"]
        for k, a, b in s:
            scale = rng.choice([1, 1, 3])
            if k == "push": o.append("P push p%d %d" % (a, b * scale + rng.choice([0, 0, 1, 999])))
            elif k == "tick": o.append("P tick %d" % (a * scale))
            else: o.append("P pop")
        lines.append(o)
    traces = [play(o) for o in lines]
    c.sample(lines[0][:12])
    def report(rej, lines, what, module):
        again = [play(lines[i]) for i, _ in rej[:24]]
        for k, pos in c.validate(module, again)[:2]:
            c.violation("%s: step %d is not explained by the specification: %s" % (what, pos, json.dumps(again[k][pos] if pos < len(again[k]) else None)),
                        {"commands": lines[rej[k][0]], "trace": again[k], "position": pos})
    rej = c.validate("PacerTrace", traces)
    if rej: report(rej, lines, "pacing queue", "PacerTrace")
    t = c.tlc("PollerMC", POL % (18, 22, "INVARIANTS Emit"), extra=["-simulate", "num=%d" % (n * 3), "-depth", "24", "-seed", str(c.seed)], count=False, timeout=300)
    t2 = c.tlc("PollerMC", (POL % (18, 12, "INVARIANTS Emit")), extra=["-simulate", "num=%d" % n, "-depth", "14", "-seed", str(c.seed + 7)], count=False, timeout=300)
    pol = sched(t) + sched(t2); pol.sort()
    pol = rng.sample(pol, min(len(pol), 3 * n))
    lines = []
    for s in pol:
        o = ["L new", "L fd", "L fd", "L fd"]
        for op, a, b, d in s:
            if op == "add": o.append("L add %s %d" % (a, b))
            elif op == "env": o.append("L %s %d" % (a, b))
            elif op == "want": o.append("L want %d %d" % (b, d))
            elif op == "beh": o.append("L beh %d %s %d" % (b, a, d))
            else: o.append("L poll")
        if o[-1] != "L poll": o.append("L poll")
        lines.append(o)
    traces = [play(o) for o in lines]
    c.sample(lines[0])
    c.cov["turns"] = sum(1 for t in traces for e in t if e["e"] == "poll")
    c.cov["handler_calls"] = sum(len(e["calls"]) for t in traces for e in t if e["e"] == "poll")
    c.log("%d loop sessions: %d turns, %d handler calls" % (len(traces), c.cov["turns"], c.cov["handler_calls"]))
    rej = c.validate("PollerTrace", traces)
    if rej: report(rej, lines, "event loop", "PollerTrace")
    traces, redo = sals.sender_traces(c)
    sals.judge(c, "SenderTrace", "C08", traces, redo, "sender")
