"""Development aid only (no check uses it): the system's libvpx as a second opinion on the specification."""
import ctypes as C
L = C.CDLL("/usr/lib/x86_64-linux-gnu/libvpx.so.9")
class Img(C.Structure):
    _fields_ = [("fmt", C.c_int), ("cs", C.c_int), ("range", C.c_int), ("w", C.c_uint), ("h", C.c_uint), ("bit_depth", C.c_uint), ("d_w", C.c_uint), ("d_h", C.c_uint),
                ("r_w", C.c_uint), ("r_h", C.c_uint), ("xs", C.c_uint), ("ys", C.c_uint), ("planes", C.POINTER(C.c_uint8) * 4), ("stride", C.c_int * 4)]
L.vpx_codec_vp8_dx.restype = C.c_void_p
L.vpx_codec_get_frame.restype = C.POINTER(Img)
L.vpx_codec_dec_init_ver.argtypes = [C.c_void_p, C.c_void_p, C.c_void_p, C.c_long, C.c_int]
L.vpx_codec_decode.argtypes = [C.c_void_p, C.c_char_p, C.c_uint, C.c_void_p, C.c_long]
L.vpx_codec_get_frame.argtypes = [C.c_void_p, C.POINTER(C.c_void_p)]
class Dec:
    def __init__(self):
        self.ctx = C.create_string_buffer(512)
        for v in (12, 11, 10, 13):
            r = L.vpx_codec_dec_init_ver(self.ctx, L.vpx_codec_vp8_dx(), None, 0, v)
            if r == 0: break
        assert r == 0, r
    def dec(self, b):
        r = L.vpx_codec_decode(self.ctx, bytes(b), len(b), None, 0)
        it = C.c_void_p(0)
        p = L.vpx_codec_get_frame(self.ctx, C.byref(it))
        if not p: return r, None
        i = p.contents
        def pl(k, w, h): return [i.planes[k][y * i.stride[k] + x] for y in range(h) for x in range(w)]
        return r, (pl(0, i.d_w, i.d_h), pl(1, (i.d_w + 1) // 2, (i.d_h + 1) // 2), pl(2, (i.d_w + 1) // 2, (i.d_h + 1) // 2))
def crop(p, w, h):
    W = (w + 15) // 16 * 16
    f = lambda a, W, w, h: [a[y * W + x] for y in range(h) for x in range(w)]
    return f(p["y"], W, w, h), f(p["u"], W // 2, (w + 1) // 2, (h + 1) // 2), f(p["v"], W // 2, (w + 1) // 2, (h + 1) // 2)
def compare(events):
    """-> index of the first frame where repository and libvpx show different pictures, or None"""
    pics = {}; d = Dec(); w = h = 0
    for k, e in enumerate(events):
        if e["e"] == "new": w, h = e["w"], e["h"]
        for n in e.get("new", ()): pics[n["id"]] = n
        if e["e"] != "dec": continue
        r, o = d.dec(bytes(e["by"]))
        if e["err"] != "" or r != 0:
            if (e["err"] != "") != (r != 0): return k, "err", e["err"], r
            continue
        if e["shown"] != (o is not None): return k, "shown", e["shown"], o is not None
        if o and o != crop(pics[e["pic"]], w, h): return k, "pixels"
    return None
if __name__ == "__main__":
    import sys, random; sys.path.insert(0, "/verif/lib")
    import vp8gen, vc
    bad = 0
    a, b, n = map(int, sys.argv[1:4])
    for s in range(a, b):
        r = random.Random(s); w, h = r.choice(((16, 16), (40, 24), (33, 49), (64, 64), (17, 80)))
        g = vp8gen.Gen(r, w, h, pbytes=1200, mbits=500, flagged=2)
        L_ = ["new a %d %d" % (w, h)] + ["dec a " + g.frame().hex() for _ in range(n)]
        o, rc, err = vc.run_lines("vp8", L_)
        c = compare(o)
        if c: bad += 1; print(s, w, h, c, len(o))
    print("bad", bad)
