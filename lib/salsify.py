"""Drives the real salsify-receiver and salsify-sender (camera, display, clock replaced by stand-ins) step by step
over loopback UDP, and turns what they do into traces for the specifications."""
import json, mmap, os, random, select, signal, socket, struct, subprocess, tempfile, time
import vbuild

CONN = 1337
class Hang(Exception):
    pass

class Clock:
    def __init__(self, d, us=1000000):
        self.path = os.path.join(d, "clock-%d-%d" % (os.getpid(), time.monotonic_ns()))
        with open(self.path, "wb") as f:
            f.write(b"\0" * 4096)
        self.f = open(self.path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 4096)
        self.set(us)
    def set(self, us): self.m[0:8] = struct.pack("<q", us)
    def get(self): return struct.unpack("<q", self.m[0:8])[0]
    def add(self, us): self.set(self.get() + us)
    def close(self):
        self.m.close(); self.f.close(); os.unlink(self.path)

class Proc:
    """A program under test with its event stream."""
    def __init__(self, argv, clock, env=None, patience=30):
        er, ew = os.pipe()
        cr, cw = os.pipe()
        e = dict(os.environ)
        e.update({"SHIM_EV": str(ew), "SHIM_CTL": str(cr), "SHIM_CLOCK": clock.path})
        e.update(env or {})
        self.p = subprocess.Popen(argv, env=e, pass_fds=(ew, cr), stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        os.set_blocking(self.p.stderr.fileno(), False)
        os.close(ew); os.close(cr)
        self.er, self.cw = er, cw
        self.buf = b""
        self.dead = False
        self.err = b""
        self.patience = patience
    def cmd(self, s):
        try: os.write(self.cw, (s + "\n").encode())
        except BrokenPipeError: pass
    def event(self, timeout=None):
        """next event; {"e":"died"} once the program is gone; {"e":"hang"} if nothing happens"""
        end = time.time() + (timeout or self.patience)
        while b"\n" not in self.buf:
            if self.dead: return {"e": "died"}
            r, _, _ = select.select([self.er, self.p.stderr], [], [], max(0, end - time.time()))
            if not r:
                return {"e": "hang"}
            if self.p.stderr in r:
                try: x = self.p.stderr.read() or b""
                except BlockingIOError: x = b""
                self.err = (self.err + x)[-4000:]
                if self.er not in r and x: continue
            if self.er in r:
                d = os.read(self.er, 1 << 20)
                if not d: self.dead = True
                self.buf += d
            elif not x:
                time.sleep(0.01)
        l, self.buf = self.buf.split(b"\n", 1)
        return json.loads(l)
    def pending(self):
        return b"\n" in self.buf or bool(select.select([self.er], [], [], 0)[0])
    def close(self):
        try: self.p.kill()
        except ProcessLookupError: pass
        self.p.wait(); os.close(self.er); os.close(self.cw); self.p.stderr.close()

def free_port():
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close()
    return p

class Ids:
    """dense numbering of 32-bit state identities (TLC integers are 32-bit signed)"""
    def __init__(self): self.m = {}
    def __call__(self, h): return self.m.setdefault(h, len(self.m))

def parse_packet(b):
    conn, src, tgt, fno, frag, n, tsl = struct.unpack("<HIIIHHI", b[:22])
    return dict(conn=conn, src=src, tgt=tgt, fno=fno, frag=frag, n=n, grace=tsl, payload=b[22:])
def make_packet(p):
    return struct.pack("<HIIIHHI", CONN, p["src"], p["tgt"], p["fno"], p["frag"], p["n"], p["grace"]) + p["payload"]
def parse_ack(b):
    if len(b) < 20: return None
    conn, fno, frag, delay, cur, n = struct.unpack("<HIHIII", b[:20])
    if len(b) != 20 + 4 * n: return None
    return dict(conn=conn, fno=fno, frag=frag, delay=delay, cur=cur, complete=list(struct.unpack("<%dI" % n, b[20:])))
def make_ack(a):
    return struct.pack("<HIHIII", a.get("conn", CONN), a["fno"], a["frag"], a["delay"], a["cur"], len(a["complete"])) + \
        b"".join(struct.pack("<I", x) for x in a["complete"])

class Receiver:
    """One receiver session; `frames`: global list of frames (bytes) so that decoded payloads can be named."""
    def __init__(self, work, w, h, init, ids, clock):
        self.clock, self.ids, self.frames = clock, ids, {}
        for _ in range(5):
            self.port = free_port()
            self.p = Proc([vbuild.exe("receiver"), str(self.port), str(w), str(h)], clock)
            e = self.p.event()
            if e["e"] == "idle": break
            self.p.close()
        else:
            raise RuntimeError("receiver does not start: %s %s" % (e, self.p.err))
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.sock.connect(("127.0.0.1", self.port))
        self.sock.settimeout(5)
        self.trace = [{"e": "init", "s": ids(init)}]
        self.draws = []
        self.last_acks = []
    def name_payload(self, b, gs):
        """(frame id, number of leading fragments) of a decoded payload"""
        for g in gs:
            acc = b""
            for k, part in enumerate(self.frames[g]):
                acc += part
                if acc == b: return g, k + 1
        return -1, 0
    def packet(self, p, g, pic, dt=1000, honest=True):
        """deliver packet p (dict) of frame id g; returns the acks (raw bytes)"""
        self.clock.add(dt)
        ev = {"e": "pkt", "fno": p["fno"], "frag": p["frag"], "n": p["n"], "src": self.ids(p["src"]), "tgt": self.ids(p["tgt"]),
              "g": g, "honest": honest, "grace": p["grace"], "t": self.clock.get(), "want": self.ids(("pic", pic)), "D": [], "acks": []}
        fr = self.frames.setdefault(g, [b""] * p["n"])
        fr[p["frag"]] = p["payload"]
        self.gs = getattr(self, "gs", [])
        if g not in self.gs: self.gs.insert(0, g)
        self.sock.send(make_packet(p))
        raw = []
        got = False
        while True:
            e = self.p.event()
            k = e["e"]
            if k == "recv": got = True
            elif k == "idle":
                if got: break
            elif k == "dec":
                gg, kk = self.name_payload(bytes.fromhex(e["h"]), self.gs[:8])
                ev["D"].append({"a": self.ids(e["a"]), "g": gg, "k": kk, "b": self.ids(e["b"]), "shown": e["shown"], "pic": self.ids(("pic", e["pic"]))})
            elif k == "sent":
                raw.append(bytes.fromhex(e["h"]))
            elif k == "draw": self.draws.append(self.ids(("pic", e["pic"])))
            else:
                ev["e"] = "died"; ev["how"] = k; ev["stderr"] = self.p.err.decode(errors="replace")[-300:]
                break
        for b in raw:
            a = parse_ack(b)
            if a is None: ev["acks"].append({"conn": -1, "fno": 0, "frag": 0, "delay": 0, "cur": -1, "complete": []})
            else:
                ev["acks"].append(dict(a, cur=self.ids(a["cur"]), complete=[self.ids(x) for x in a["complete"]], delay=min(a["delay"], 2**31 - 1)))
        self.trace.append(ev)
        self.last_acks = raw
        return raw
    def alive(self): return self.trace[-1]["e"] != "died"
    def finish(self, shown):
        """wait for the display thread: `shown` pictures are expected"""
        end = time.time() + 10
        while self.alive() and len(self.draws) < shown and time.time() < end:
            e = self.p.event(timeout=max(0.1, end - time.time()))
            if e["e"] == "draw": self.draws.append(self.ids(("pic", e["pic"])))
            elif e["e"] in ("died", "hang"): break
        if self.alive():
            self.trace.append({"e": "end", "draws": self.draws})
        self.p.close(); self.sock.close()
        return self.trace

class Sender:
    def __init__(self, work, w, h, init, ids, clock, mode="s2", conn=CONN):
        self.clock, self.ids, self.conn, self.mode = clock, ids, conn, mode
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.sock.bind(("127.0.0.1", 0)); self.sock.settimeout(5)
        self.t0 = clock.get()
        self.p = Proc([vbuild.exe("sender"), "-m", mode, "127.0.0.1", str(self.sock.getsockname()[1]), str(conn)], clock,
                      env={"SHIM_W": str(w), "SHIM_H": str(h)})
        e = self.p.event()
        if e["e"] != "cam": raise RuntimeError("sender does not start: %s %s" % (e, self.p.err))
        self.peer = None
        self.encs = []        # every encoding so far
        self.trace = [{"e": "init", "s": ids(init), "mode": mode, "conn": conn, "t": self.t0}]
        self.packets = []     # packets sent, parsed
        self.dead = False
        self.init = init
    def ev(self, x): self.trace.append(x)
    def die(self, e):
        self.ev({"e": "died", "how": e["e"], "stderr": self.p.err.decode(errors="replace")[-300:]}); self.dead = True
    def handle(self, e):
        """common events; returns True if consumed"""
        k = e["e"]
        if k == "sent":
            b = bytes.fromhex(e["h"])
            p = parse_packet(b) if len(b) >= 22 else None
            if p is None: self.ev({"e": "sent", "conn": -1}); return True
            m = [i + 1 for i, x in enumerate(self.encs) if x["bytes"][1400 * p["frag"]:1400 * p["frag"] + 1400] == p["payload"]]
            self.ev({"e": "sent", "t": e["t"], "conn": p["conn"], "src": self.ids(p["src"]), "tgt": self.ids(p["tgt"]), "fno": p["fno"],
                     "frag": p["frag"], "n": p["n"], "tsl": min(p["grace"], 2**31 - 1), "pl": m})
            self.packets.append(p)
            try:
                _, self.peer = self.sock.recvfrom(65536)
            except OSError: pass
            return True
        if k in ("died", "hang"):
            self.die(e); return True
        return False
    def capture(self, kind, seed, dt):
        """hand the next picture to the camera (time moves on by dt); runs until the encodings wait at the gate and
        everything due has been sent"""
        self.clock.add(dt)
        self.start = {"e": "start", "t": self.clock.get(), "src": []}
        self.p.cmd("frame %s %d" % (kind, seed))
        started, want = 0, 1 if self.mode in ("s1", "conventional") else 2
        pend = []
        idle = False
        while not self.dead:
            e = self.p.event()
            k = e["e"]
            if k == "frame": self.start["raster"] = self.ids(("ras", e["raster"])); self.raster = e["raster"]
            elif k == "encstart":
                started += 1
                if started == 1: self.trace.append(self.start)
                self.start["src"].append(self.ids(e["src"]))
                if started == want: break
            elif k == "idle": idle = True       # the main loop sleeps: nothing left to send
            elif k == "sent": pend.append(e); idle = False
            elif k in ("died", "hang"):
                if started == 0: self.trace.append(self.start)
                self.die(e)
        for e in pend: self.handle(e)
        # wait until the main loop is quiet: it emits idle whenever it blocks
        while not self.dead and not idle:
            e = self.p.event()
            if e["e"] == "idle":
                if not self.p.pending(): break
            else: self.handle(e)
        if not self.dead: self.ev({"e": "idle"})
    def ack(self, a):
        """deliver one acknowledgement (raw dict) while the encodings wait"""
        if self.dead or self.peer is None: return
        self.sock.sendto(make_ack(a), self.peer)
        while not self.dead:
            e = self.p.event()
            if e["e"] == "recv": break
            self.handle(e)
        if not self.dead:
            self.ev({"e": "ack", "conn": a.get("conn", CONN), "fno": a["fno"], "frag": a["frag"], "delay": a["delay"], "cur": self.ids(a["cur"]),
                     "complete": [self.ids(x) for x in a["complete"]]})
            # back to sleep before anything else happens
            while not self.dead:
                e = self.p.event()
                if e["e"] == "idle": break
                self.handle(e)
    def release(self):
        """let the encodings finish; returns at the next camera request"""
        if self.dead: return
        end = {"e": "finish", "t": self.clock.get(), "encs": []}
        total = 1 if self.mode == "conventional" else 2
        outs = []
        self.p.cmd("go")
        if self.mode == "s2": self.p.cmd("go")
        later = []
        while not self.dead:
            e = self.p.event()
            k = e["e"]
            if k == "enc":
                outs.append(e)
            elif k == "encstart":
                self.start["src"].append(self.ids(e["src"]))
                self.p.cmd("go")
            elif k == "cam": break
            elif k == "idle": pass
            elif k == "sent": later.append(e)
            elif k in ("died", "hang"):
                later.append(e); break
        outs.sort(key=lambda e: e["q"])
        for e in outs:
            b = bytes.fromhex(e["h"])
            self.encs.append({"bytes": b, "src": e["src"], "tgt": e["tgt"], "pic": e["pic"], "q": e["q"]})
            end["encs"].append({"id": len(self.encs), "src": self.ids(e["src"]), "q": e["q"], "size": e["size"], "tgt": self.ids(e["tgt"]),
                                "dtgt": self.ids(e["dtgt"]) if e["ok"] else -1, "raster": self.ids(("ras", e["raster"]))})
        self.ev(end)
        for e in later: self.handle(e)
    def finish(self):
        self.p.close(); self.sock.close()
        return self.trace or []

class Script:
    """batch of framegen commands"""
    def __init__(self, w, h): self.lines = ["init %d %d" % (w, h)]
    def run(self):
        import vc
        out, rc, err = vc.run_lines("framegen", self.lines, timeout=300)
        if rc != 0 or len(out) != len(self.lines):
            raise vc.ModelError("framegen failed: rc=%s, %d of %d answers, %s" % (rc, len(out), len(self.lines), err[-500:]))
        return out

def split(b, n, rng=None):
    """split a frame into n non-empty parts"""
    n = max(1, min(n, len(b)))
    if rng is None:
        cuts = [len(b) * i // n for i in range(1, n)]
    else:
        cuts = sorted(rng.sample(range(1, len(b)), n - 1))
    return [b[i:j] for i, j in zip([0] + cuts, cuts + [len(b)])]
