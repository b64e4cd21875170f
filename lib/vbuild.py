"""Build harness programs from /repo's working tree with ninja (own build files, own output folder)."""
import glob, os, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "src")

BASE = "-std=c++14 -pthread -DHAVE_CONFIG_H -O2 -g0 -w -include cstdint"
INC = "-I%s/harness " % VERIF + " ".join("-I%s/%s" % (SRC, d) for d in
      ("util", "decoder", "encoder", "input", "net"))
X264 = "/usr/lib/x86_64-linux-gnu/libx264.a -ljpeg -lpthread -lm -ldl"
LIBDIRS = {  # library -> (dir, extra flags): the same NDEBUG setting as the repository's own build
    "util": "-DNDEBUG", "decoder": "-DNDEBUG", "encoder": "-DNDEBUG", "net": "", "input": "-DNDEBUG"}

# program -> (source, libs, compile flags, link flags)
H = VERIF + "/harness"
S = VERIF + "/shim"
PROGS = {}

def prog(name, src, libs=("net", "encoder", "input", "decoder", "util"), cflags="", lflags="", extra=()):
    PROGS[name] = (src, libs, cflags, lflags, extra)

prog("wire", H + "/wire.cc", ("net", "util"))

WRAPS = "-Wl,--wrap=recvmsg,--wrap=sendto,--wrap=send,--wrap=poll"
prog("receiver", SRC + "/salsify/salsify-receiver.cc", cflags="-DNDEBUG -I%s/recv" % S,
     lflags=WRAPS + ",--wrap=_ZN7Decoder22parse_and_decode_frameERK5Chunk", extra=(S + "/shim.cc", S + "/recv/probe.cc"))
prog("sender", SRC + "/salsify/salsify-sender.cc", cflags="-DNDEBUG -I%s/send" % S,
     lflags=WRAPS + ",--wrap=_ZN7Encoder21encode_with_quantizerERK9VP8Rasterh", extra=(S + "/shim.cc", S + "/send/probe.cc"))
prog("loop", H + "/loop.cc", ("net", "util"))
prog("ivf", H + "/ivf.cc", ("util",), lflags="-Wl,--wrap=write,--wrap=pwrite,--wrap=writev,--wrap=ftruncate,--wrap=mmap,--wrap=munmap,--wrap=msync,--wrap=lseek")
prog("y4m", H + "/y4m.cc", ("input", "decoder", "util"), lflags="-Wl,--wrap=read,--wrap=write")
prog("cam", H + "/cam.cc", ("input", "decoder", "util"), cflags="-DNDEBUG", lflags="-Wl,--wrap=ioctl -ljpeg")
prog("vp8", H + "/vp8.cc", ("encoder", "decoder", "util"), cflags="-DNDEBUG")
prog("pure", H + "/pure.cc", ("decoder", "util"), cflags="-DNDEBUG", lflags="-pthread")
TSAN = "-fsanitize=thread"
prog("pure-tsan", H + "/pure.cc", ("decoder-tsan", "util-tsan"), cflags="-DNDEBUG " + TSAN, lflags="-pthread " + TSAN)
prog("coder", H + "/coder.cc", ("decoder", "util"), cflags="-DNDEBUG -I%s/encoder" % SRC)
prog("enc", H + "/enc.cc", ("encoder", "decoder", "util"), cflags="-DNDEBUG -I%s" % S)
ASAN = "-fsanitize=address -fno-omit-frame-pointer"
prog("enc-asan", H + "/enc.cc", ("encoder-asan", "decoder-asan", "util-asan"), cflags="-DNDEBUG -I%s %s" % (S, ASAN), lflags=ASAN)
prog("saved", H + "/saved.cc", ("decoder", "util"), cflags="-DNDEBUG")
prog("saved-asan", H + "/saved.cc", ("decoder-asan", "util-asan"), cflags="-DNDEBUG " + ASAN, lflags=ASAN)
prog("vp8-asan", H + "/vp8.cc", ("encoder-asan", "decoder-asan", "util-asan"), cflags="-DNDEBUG " + ASAN, lflags=ASAN)
TOOLS = ("xc-enc", "xc-dump", "xc-merge", "xc-terminate-chunk", "xc-diff", "xc-framesize", "vp8decode", "xc-decode-bundle", "comp-states", "xc-dissect", "xc-zero-out-residues", "xc-ssim")
for _t in TOOLS:
    prog(_t, SRC + "/frontend/%s.cc" % ("decode-bundle" if _t == "xc-decode-bundle" else _t), ("input", "encoder", "decoder", "util"), cflags="-DNDEBUG -I%s/tools" % S)
prog("fake-webcam", SRC + "/salsify/fake-webcam.cc", ("input", "decoder", "util"), cflags="-DNDEBUG", extra=(S + "/play/probe.cc",),
     lflags="-Wl,--wrap=read,--wrap=write,--wrap=nanosleep,--wrap=clock_nanosleep,--wrap=usleep,--wrap=clock_gettime,--wrap=_ZNSt6chrono3_V212system_clock3nowEv,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv")
prog("net", H + "/net.cc", ("net", "util"), lflags="-Wl,--wrap=recvmsg,--wrap=sendto,--wrap=send,--wrap=close")
prog("view", H + "/view.cc", ("util",), cflags="-DNDEBUG")
prog("tools", H + "/tools.cc", ("decoder", "util"), cflags="-DNDEBUG")
prog("framegen", H + "/framegen.cc", cflags="-DNDEBUG -I%s" % S)

def _write_ninja(path):
    o = []
    w = o.append
    w("cxx = g++")
    w("rule cxx\n  command = $cxx %s $cflags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % BASE)
    w("rule asm\n  command = cd %s/decoder && yasm -f elf64 $in -o $out" % SRC)
    w("rule ar\n  command = rm -f $out && ar rcs $out $in")
    w("rule link\n  command = $cxx -pthread -rdynamic $in -o $out $lflags")
    asminc = " ".join(os.path.join(SRC, "decoder", f) for f in
                      ("config.asm", "x86inc.asm", "x86_abi_support.asm")
                      if os.path.exists(os.path.join(SRC, "decoder", f)))
    libs = [(lib, lib, fl) for lib, fl in LIBDIRS.items()] + [(lib + "-tsan", lib, fl + " " + TSAN) for lib, fl in LIBDIRS.items() if lib in ("util", "decoder")] + \
           [(lib + "-asan", lib, fl + " " + ASAN) for lib, fl in LIBDIRS.items() if lib in ("util", "decoder", "encoder")]
    for out, lib, fl in libs:
        objs = []
        for f in sorted(glob.glob(os.path.join(SRC, lib, "*.cc"))):
            if os.path.basename(f) == "subprocess.cc":  # not part of the repository's own build
                continue
            ob = "obj/%s/%s.o" % (out, os.path.basename(f))
            w("build %s: cxx %s\n  cflags = %s %s" % (ob, f, INC, fl))
            objs.append(ob)
        for f in sorted(glob.glob(os.path.join(SRC, lib, "*.asm"))):
            if os.path.basename(f) in ("config.asm", "x86inc.asm", "x86_abi_support.asm"):
                continue
            ob = "%s/obj/%s/%s.o" % (BUILD, out, os.path.basename(f))
            w("build %s: asm %s | %s" % (ob, f, asminc))
            objs.append(ob)
        w("build lib%s.a: ar %s" % (out, " ".join(objs)))
    for name, (src, libs, cfl, lfl, extra) in PROGS.items():
        srcs = [src] + list(extra)
        obs = []
        for s in srcs:
            ob = "obj/prog/%s/%s.o" % (name, os.path.basename(s))
            w("build %s: cxx %s\n  cflags = %s %s" % (ob, s, cfl, INC))
            obs.append(ob)
        al = ["lib%s.a" % l for l in libs]
        w("build bin/%s: link %s | %s\n  lflags = %s -Wl,--start-group %s -Wl,--end-group %s"
          % (name, " ".join(obs), " ".join(al), lfl, " ".join(al), X264))
    s = "\n".join(o) + "\n"
    if not os.path.exists(path) or open(path).read() != s:
        open(path, "w").write(s)

def build(*names):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _write_ninja(os.path.join(BUILD, "build.ninja"))
        r = subprocess.run(["ninja", "-C", BUILD] + ["bin/" + n for n in names],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        raise SystemExit("harness build failed")
    return [os.path.join(BUILD, "bin", n) for n in names]

def exe(n):
    return os.path.join(BUILD, "bin", n)
