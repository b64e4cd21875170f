import sals
def run(c):
    sals.design(c)
    traces, redo = sals.sender_traces(c)
    c.sample([e for e in traces[0]][:6])
    c.cov["frames_captured"] = sum(1 for t in traces for e in t if e["e"] == "start")
    c.cov["acks_delivered"] = sum(1 for t in traces for e in t if e["e"] == "ack")
    c.cov["packets_sent"] = sum(1 for t in traces for e in t if e["e"] == "sent")
    sals.judge(c, "SenderTrace", "C05", traces, redo, "sender")
