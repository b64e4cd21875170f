"""Planted bugs in the decoder: vp8seed() makes the patch, looks for a history of frames that shows it, and writes the demo."""
import os, shutil, subprocess, sys, json, tempfile, random
sys.path.insert(0, "/verif/lib"); sys.path.insert(0, "/verif/tools")
import vp8gen, mkseed
def histories(n, seed0, frames=8, sizes=((16, 16), (40, 24), (33, 49), (64, 64), (17, 80)), **kw):
    for s in range(seed0, seed0 + n):
        r = random.Random(s); w, h = r.choice(sizes); g = vp8gen.Gen(r, w, h, **kw)
        yield ["new a %d %d" % (w, h)] + ["dec a " + g.frame().hex() for _ in range(frames)]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def libs(repo, bld):
    e = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=bld)
    r = sh("cd /verif/lib && python3 -c 'import vbuild; vbuild.build(\"vp8\")'", env=e)
    assert r.returncode == 0, r.stdout[-3000:]
    B = bld
    return "g++ -std=c++14 -pthread -DHAVE_CONFIG_H -DNDEBUG -O1 -w -include cstdint -I/verif/harness -I%s/src/util -I%s/src/decoder /tmp/kit/replay.cc -o %s/replay -Wl,--start-group %s/libdecoder.a %s/libutil.a -Wl,--end-group /usr/lib/x86_64-linux-gnu/libx264.a -ljpeg -lpthread -lm -ldl" % (repo, repo, B, B, B)
def vp8seed(id, prop, edits, needs, breaks, jobs=None, seed0=500000):
    mkseed.seed(id, prop, edits, needs, breaks, None, files=(), build=('cc replay "$here/replay.cc"',), run='"$T/replay" "$here/frames.txt" "$here/expected.txt"')
    d = "/verif/seeded/" + id
    shutil.copy("/tmp/kit/replay.cc", d)
    t = tempfile.mkdtemp(dir="/tmp")
    try:
        subprocess.check_call("git clone -q --no-hardlinks /repo %s/r && git -C %s/r apply %s/patch.diff" % (t, t, d), shell=True)
        if not os.path.exists("/tmp/cleanb/replay"):
            r = sh(libs("/repo", "/tmp/cleanb")); assert r.returncode == 0, r.stdout
        r = sh(libs(t + "/r", t + "/b")); assert r.returncode == 0, r.stdout
        n = 0
        for o in jobs or histories(400, seed0):
            n += 1
            open(t + "/f", "w").write("\n".join(o) + "\n")
            sh("/tmp/cleanb/replay %s/f %s/c w" % (t, t)); x = sh("timeout 20 %s/b/replay %s/f %s/p w" % (t, t, t))
            c = open(t + "/c").read().splitlines(); p = open(t + "/p").read().splitlines() if x.returncode == 0 else []
            if c != p:
                k = next((i for i in range(len(c)) if i >= len(p) or c[i] != p[i]), 0)
                # keep the lines up to the first that differs
                m, keep = -1, []
                for l in o:
                    keep.append(l)
                    if l.startswith("dec"): m += 1
                    if m == k: break
                open(d + "/frames.txt", "w").write("\n".join(keep) + "\n")
                sh("/tmp/cleanb/replay %s/frames.txt %s/expected.txt w" % (d, d))
                print(id, "history", n, "frame", k + 1); return
        print(id, "NO HISTORY SHOWS IT")
    finally:
        shutil.rmtree(t)
