"""tools/seed.py ID...: confirm planted bugs (applied to /repo for the time of the run) and see whether the check catches them."""
import json, os, subprocess, sys, time
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def clean():
    sh("git -C /repo checkout -- .")
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", json.load(open("/opt/vp/BASELINE.json")).get("stable", [])))
nocheck = "--nocheck" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
assert sh("git -C /repo status --porcelain -uno").stdout.strip() == ""
r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0, r.stdout[-2000:]
for i in ids:
    d = V + "/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    sh("bash /opt/vp/build.sh")
    a = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    try:
        x = sh("git -C /repo apply %s/patch.diff" % d)
        if x.returncode: print(i, "PATCH DOES NOT APPLY", x.stdout); continue
        t = sh("bash /opt/vp/test.sh /tmp/seed-out.json")
        res = json.load(open("/tmp/seed-out.json"))
        miss = base - set(res["passed"])
        b = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        ck = ""
        if not nocheck:
            t0 = time.time()
            k = sh("%s/bin/check %s quick" % (V, m["property"]), timeout=1000)
            ck = "check exit %d %s in %.0fs" % (k.returncode, "VIOLATION" if "VIOLATION property=%s" % m["property"] in k.stdout else "", time.time() - t0)
            if k.returncode != 1: ck += "\n" + k.stdout[-1500:]
        print(i, "demo clean=%d patched=%d" % (a.returncode, b.returncode), "tests ok" if not miss else "TESTS MISSING %s" % miss, ck, flush=True)
        if a.returncode: print(a.stdout[-800:])
        if b.returncode in (0, 3): print(b.stdout[-800:])
    finally:
        clean()
sh("bash /opt/vp/build.sh")
