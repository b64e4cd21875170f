#!/usr/bin/env python3
"""Development-time helper: writes the constant tables of RFC 6386 into spec/Vp8Tables.tla.
The values were taken from the pinned base commit and cross-checked, through whole decoded streams, with
libvpx (tools/vpxref.py). The checks never run this: the committed module is the oracle."""
import re, sys, os
R = sys.argv[1] if len(sys.argv) > 1 else "/repo"
def nums(s):
    s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
    return [int(x) for x in re.findall(r"-?\d+", s)]
def table(src, name):
    t = open(os.path.join(R, "src/decoder", src)).read()
    i = t.index(name)
    i = t.index("{", t.index("=", i))
    d, j = 0, i
    while True:
        if t[j] == "{": d += 1
        if t[j] == "}": d -= 1
        j += 1
        if d == 0: break
    return nums(t[i:j])
def tup(v, per=22):
    rows = [", ".join(map(str, v[i:i + per])) for i in range(0, len(v), per)]
    return "<<" + ",\n      ".join(rows) + ">>"
o = ["----------------------------- MODULE Vp8Tables -----------------------------",
     "EXTENDS Integers",
     "(* The constant tables of RFC 6386, flattened. Written by tools/gen_tables.py. *)"]
def put(n, v, l, c=""):
    assert len(v) == l, (n, len(v))
    o.append("%s == %s%s" % (n, tup(v), ("  \\* " + c) if c else ""))
put("CoefUpdateProb", table("vp8_prob_data.cc", "k_coeff_entropy_update_probs"), 1056)
put("DefaultCoefProb", table("vp8_prob_data.cc", "k_default_coeff_probs"), 1056)
put("MvUpdateProb", table("vp8_prob_data.cc", "k_mv_entropy_update_probs"), 38)
put("DefaultMvProb", table("vp8_prob_data.cc", "k_default_mv_probs"), 38)
put("DefaultYModeProb", [112, 86, 140, 37], 4)
put("DefaultUvModeProb", [162, 101, 204], 3)
put("KfYModeProb", table("modemv_data.cc", "kf_y_mode_probs"), 4)
put("KfUvModeProb", table("modemv_data.cc", "kf_uv_mode_probs"), 3)
put("KfBModeProb", table("modemv_data.cc", "num_intra_b_modes > kf_b_mode_probs"), 900)
put("BModeProb", table("modemv_data.cc", "invariant_b_mode_probs"), 9)
put("MvCountProb", table("modemv_data.cc", "mv_counts_to_probs"), 24)
put("SplitMvProb", table("modemv_data.cc", "split_mv_probs"), 3)
put("SubMvRefProb", table("modemv_data.cc", "submv_ref_probs2"), 15)
put("DcQ", table("quantization.cc", "dc_qlookup"), 128)
put("AcQ", table("quantization.cc", "ac_qlookup"), 128)
put("Zigzag", table("tokens.hh", "zigzag"), 16)
put("Bands", [0, 1, 2, 3, 6, 4, 5, 6, 6, 6, 6, 6, 6, 6, 6, 7], 16)
put("SixTap", table("prediction.cc", "sixtap_filters"), 48)
sh = [0] * 256
for r in range(1, 256):
    n = 0
    while (r << n) < 128: n += 1
    sh[r] = n
put("NormShift", sh[1:], 255, "how often a range is doubled until it is 128 or more")
put("Pow2", [2**i for i in range(17)], 17, "Pow2[n+1] = 2^n")
# trees: positive = index of the next pair, otherwise -1 - value
put("KfYModeTree", [-5, 2, 4, 6, -1, -2, -3, -4], 8, "0 DC 1 V 2 H 3 TM 4 B")
put("YModeTree", [-1, 2, 4, 6, -2, -3, -4, -5], 8)
put("UvModeTree", [-1, 2, -2, 4, -3, -4], 6)
put("BModeTree", [-1, 2, -2, 4, -3, 6, 8, 12, -4, 10, -6, -7, -5, 14, -8, 16, -9, -10], 18,
    "0 DC 1 TM 2 VE 3 HE 4 LD 5 RD 6 VR 7 VL 8 HD 9 HU")
put("SmallMvTree", [2, 8, 4, 6, -1, -2, -3, -4, 10, 12, -5, -6, -7, -8], 14)
put("MvRefTree", [-8, 2, -6, 4, -7, 6, -9, -10], 8, "5 NEAREST 6 NEAR 7 ZERO 8 NEW 9 SPLIT")
put("SubMvRefTree", [-1, 2, -2, 4, -3, -4], 6, "0 LEFT 1 ABOVE 2 ZERO 3 NEW")
put("SplitMvTree", [-4, 2, -3, 4, -1, -2], 6, "0 top/bottom 1 left/right 2 quarters 3 sixteenths")
put("SegTree", [2, 4, -1, -2, -3, -4], 6)
part = [[(i // 4) // 2 for i in range(16)], [(i % 4) // 2 for i in range(16)],
        [(i // 8) * 2 + (i % 4) // 2 for i in range(16)], list(range(16))]
o.append("SplitPart == <<%s>>  \\* partition of each of the 16 subblocks" % ",\n   ".join(tup(p) for p in part))
o.append("SplitCount == <<2, 2, 4, 16>>")
o.append("=============================================================================")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Vp8Tables.tla"), "w").write("\n".join(o) + "\n")
