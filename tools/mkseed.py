"""helper to write a planted bug: seed(id, prop, [(file, old, new)...], needs, breaks, demo_cc, kit=[...], pre="")"""
import json, os, shutil, subprocess, tempfile
V = "/verif"
def seed(id, prop, edits, needs, breaks, demo, kit="/tmp/kit", files=(), build=("cc demo \"$here/demo.cc\"",), run='"$T/demo"', extra=None):
    d = V + "/seeded/" + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp(dir="/tmp")
    try:
        subprocess.check_call("git clone -q --no-hardlinks /repo %s/r" % t, shell=True)
        for f, old, new in edits:
            p = t + "/r/" + f; s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.check_output("git -C %s/r diff" % t, shell=True, text=True))
    finally:
        shutil.rmtree(t)
    for f in ["build_demo.sh"] + list(files): shutil.copy(kit + "/" + f, d)
    if demo: open(d + "/demo.cc", "w").write(demo)
    for n, c in (extra or {}).items(): open(d + "/" + n, "w").write(c)
    open(d + "/demo.sh", "w").write("#!/bin/bash\n. \"$(dirname \"$0\")/build_demo.sh\"\n" + "\n".join(build) + "\ntimeout 200 " + run + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
