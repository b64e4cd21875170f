"""C06: the real sender and receiver on a lossy, repeating, reordering network, then a clean one."""
import concurrent.futures as cf, random
import sals, vbuild, vc
def run(c):
    sals.design(c)
    sals.canary_design(c)
    vbuild.build("receiver", "sender", "framegen")
    rng = c.sub_rng("pair")
    logs = [x["log"] for x in sals.schedules(c, 60 if c.quick else 600, length=40, frames=9, frag=3)]
    logs = rng.sample(logs, min(len(logs), 48 if c.quick else 800))
    seeds = [rng.randrange(1 << 30) for _ in logs]
    def one(i):
        r = random.Random(seeds[i])
        return sals.pair_session(c, logs[i], r, mode=("s2", "s2", "s1", "conventional")[i % 4], w=(64, 48, 128)[i % 3], h=(64, 32, 96)[i % 3], harsh=(0, .15, .4)[(i // 3) % 3])
    with cf.ThreadPoolExecutor(8) as ex:
        pairs = list(ex.map(one, range(len(logs))))
    c.log("%d sender/receiver runs, %d packets delivered" % (len(pairs), sum(1 for r, s in pairs for e in r if e["e"] == "pkt")))
    c.sample([e for e in pairs[0][0]][:4])
    c.cov["runs_ending_in_step"] = sum(1 for r, s in pairs if any(e["e"] == "insync" for e in r))
    c.cov["whole_frames_shown"] = sum(1 for r, s in pairs for e in r for d in e.get("D", ()) if d["shown"])
    sals.judge(c, "ReceiverTrace", "C06", [p[0] for p in pairs], lambda i: one(i)[0], "receiver of the pair")
    sals.judge(c, "SenderTrace", "C06", [p[1] for p in pairs], lambda i: one(i)[1], "sender of the pair")
