import sals
def run(c):
    sals.design(c)
    traces, redo = sals.receiver_traces(c)
    c.sample([e for e in traces[0]][:4])
    c.cov["packets_delivered"] = sum(1 for t in traces for e in t if e["e"] == "pkt")
    c.cov["decodings"] = sum(len(e.get("D", ())) for t in traces for e in t)
    sals.judge(c, "ReceiverTrace", "C03", traces, redo, "receiver")
