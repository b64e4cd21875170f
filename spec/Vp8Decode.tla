----------------------------- MODULE Vp8Decode -----------------------------
(* The VP8 decoder (RFC 6386): one frame takes the persistent state to the   *)
(* next and produces a picture.                                              *)
EXTENDS Vp8Header, Vp8Recon

MbDim(n) == (n + 15) \div 16

------------------------------------------------------------------------------
(* Macroblock headers (modes and motion vectors), sections 10, 11, 16, 17.   *)
(* Intra modes 0 DC 1 V 2 H 3 TM 4 B; inter 5 NEAREST 6 NEAR 7 ZERO 8 NEW    *)
(* 9 SPLIT. ref: 0 this frame (intra), 1 last, 2 golden, 3 alternate.        *)
ZeroMv == <<0, 0>>
ZeroMvs == TLCEval([i \in 1..16 |-> ZeroMv])
DcModes == TLCEval([i \in 1..16 |-> 0])
Outside == [seg |-> 0, skip |-> FALSE, ref |-> 0, ym |-> 0, bm |-> DcModes, uvm |-> 0, mvs |-> ZeroMvs]
ImpliedB(ym) == CASE ym = 0 -> 0 [] ym = 1 -> 2 [] ym = 2 -> 3 [] ym = 3 -> 1

HasY2(m) == m.ym # 4 /\ m.ym # 9

Bias(h, ref) == (ref = 2 /\ h.biasG) \/ (ref = 3 /\ h.biasA)
Neg(mv) == <<-mv[1], -mv[2]>>

(* Survey of the neighbours' vectors: [best, nearest, near, cnt].            *)
Census(h, ref, above, left, corner) ==
  LET Add(a, nb) ==
        LET m == nb[1]  IN
        IF m.ref = 0 THEN a
        ELSE LET mv == TLCEval(IF Bias(h, m.ref) # Bias(h, ref) THEN Neg(m.mvs[16]) ELSE m.mvs[16]) IN
             IF mv = ZeroMv THEN [a EXCEPT !.cnt[1] = @ + nb[2]]
             ELSE IF a.k > 0 /\ a.mv[a.k] = mv THEN [a EXCEPT !.cnt[a.k + 1] = @ + nb[2]]
             ELSE [a EXCEPT !.k = a.k + 1, !.mv[a.k + 1] = mv, !.cnt[a.k + 2] = @ + nb[2]]
      s == TLCEval(FoldLeft(LAMBDA a, nb : TLCEval(Add(a, nb)),
                    [k |-> 0, mv |-> <<ZeroMv, ZeroMv, ZeroMv>>, cnt |-> <<0, 0, 0, 0>>],
                    <<<<above, 2>>, <<left, 2>>, <<corner, 1>>>>))
      c2 == IF s.cnt[4] > 0 /\ s.mv[3] = s.mv[1] THEN s.cnt[2] + 1 ELSE s.cnt[2]
      swap == s.cnt[3] > c2
      nearest == IF swap THEN s.mv[2] ELSE s.mv[1]
      near == IF swap THEN s.mv[1] ELSE s.mv[2]
      cn == IF swap THEN s.cnt[3] ELSE c2
      cr == IF swap THEN c2 ELSE s.cnt[3]
      W(m, n) == IF m.ref # 0 /\ m.ym = 9 THEN n ELSE 0
  IN [nearest |-> nearest, near |-> near,
      best |-> IF cn >= s.cnt[1] THEN nearest ELSE ZeroMv,
      cnt |-> <<s.cnt[1], cn, cr, W(above, 2) + W(left, 2) + W(corner, 1)>>]

(* Vectors are kept within a macroblock's width of the picture.              *)
Between(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
ClampMv(mv, col, row, cols, rows) ==
  <<Between(mv[1], -(row * 128) - 128, ((rows - 1 - row) * 128) + 128),
    Between(mv[2], -(col * 128) - 128, ((cols - 1 - col) * 128) + 128)>>

(* One component of a motion vector; off = 0 (row) or 19 (column).           *)
MvComponent(b, d, mvp, off) ==
  LET lg == TLCEval(Get(b, d, mvp[off + 1])) IN
  LET mag ==
        IF lg[1] = 1 THEN
          LET lo == TLCEval(FoldLeft(LAMBDA a, i : TLCEval(LET e == TLCEval(Get(b, a[2], mvp[off + 10 + i])) IN <<a[1] + (e[1] * Pow2[i + 1]), e>>),
                             <<0, lg>>, <<0, 1, 2, 9, 8, 7, 6, 5, 4>>))
          IN IF lo[1] >= 16
             THEN LET e == TLCEval(Get(b, lo[2], mvp[off + 13])) IN SetRes(e, lo[1] + (8 * e[1]))
             ELSE SetRes(lo[2], lo[1] + 8)
        ELSE TreeGet(b, lg, SmallMvTree, mvp, off + 2)
  IN LET m == TLCEval(mag) IN
     IF m[1] = 0 THEN m
     ELSE LET s == TLCEval(Get(b, m, mvp[off + 2])) IN SetRes(s, 2 * (IF s[1] = 1 THEN -m[1] ELSE m[1]))
ReadMv(b, d, mvp) ==
  LET r == TLCEval(MvComponent(b, d, mvp, 0))
      c == TLCEval(MvComponent(b, r, mvp, 19))
  IN SetRes(c, <<r[1], c[1]>>)

AddMv(x, y) == <<x[1] + y[1], x[2] + y[2]>>

(* Split mode: <<vectors of the 16 subblocks, decoder, how each was coded (10 *)
(* like the left, 11 like the above, 12 zero, 13 new)>>.                      *)
SplitMvs(b, d, mvp, best, above, left) ==
  LET p == TLCEval(TreeGet(b, d, SplitMvTree, SplitMvProb, 0))
      part == SplitPart[p[1] + 1]
      First(k) == CHOOSE i \in 1..16 : part[i] = k /\ \A j \in 1..(i - 1) : part[j] # k
      Sub(a, k) ==
        LET i == First(k)
            lm == IF i % 4 = 1 THEN left.mvs[i + 3] ELSE a[1][i - 1]
            am == IF i <= 4 THEN above.mvs[i + 12] ELSE a[1][i - 4]
            cx == IF lm = am THEN (IF lm = ZeroMv THEN 4 ELSE 3)
                  ELSE IF am = ZeroMv THEN 2 ELSE IF lm = ZeroMv THEN 1 ELSE 0
            t == TLCEval(TreeGet(b, a[2], SubMvRefTree, SubMvRefProb, cx * 3))
            n == TLCEval(IF t[1] = 3 THEN ReadMv(b, t, mvp) ELSE t)
            mv == TLCEval(CASE t[1] = 0 -> lm [] t[1] = 1 -> am [] t[1] = 2 -> ZeroMv [] t[1] = 3 -> AddMv(n[1], best))
        IN <<TLCEval([j \in 1..16 |-> IF part[j] = k THEN mv ELSE a[1][j]]), n,
             TLCEval([j \in 1..16 |-> IF part[j] = k THEN 10 + t[1] ELSE a[3][j]])>>
  IN FoldLeft(LAMBDA a, k : TLCEval(Sub(a, k - 1)), <<ZeroMvs, p, DcModes>>, [k \in 1..SplitCount[p[1] + 1] |-> k])

(* With error concealment (b.soft) a header whose bytes are not there (the   *)
(* decoder has had to load past the end) is made up: the macroblock repeats  *)
(* the last picture, or, when only the mode is missing, the reference read.  *)
Gone(b, d) == b.soft /\ d[5] - 1 > b.hi

(* One macroblock header: <<record, decoder>>.                               *)
MbHeader(b, d0, h, P, map, mbs, cols, rows) ==
  LET i == Len(mbs)   \* macroblocks before this one
      col == i % cols
      row == i \div cols
      above == IF row > 0 THEN mbs[i - cols + 1] ELSE Outside
      left == IF col > 0 THEN mbs[i] ELSE Outside
      corner == IF row > 0 /\ col > 0 THEN mbs[i - cols] ELSE Outside
      sg == TLCEval(IF h.seg.map THEN IF Gone(b, d0) THEN SetRes(d0, 0) ELSE TreeGet(b, d0, SegTree, h.seg.tree, 0) ELSE SetRes(d0, map[i + 1]))
      sk == TLCEval(IF h.skipOn /\ ~Gone(b, sg) THEN Get(b, sg, h.skipProb) ELSE SetRes(sg, 0))
      base == [Outside EXCEPT !.seg = sg[1], !.skip = (sk[1] = 1)]
      gone == ~h.key /\ Gone(b, sk)
      inter == TLCEval(IF h.key \/ gone THEN SetRes(sk, 0) ELSE Get(b, sk, h.pInter))
      r1 == TLCEval(IF inter[1] = 0 THEN inter ELSE Get(b, inter, h.pLast))
      r2 == TLCEval(IF inter[1] = 1 /\ r1[1] = 1 THEN Get(b, r1, h.pGold) ELSE r1)
      ref == IF inter[1] = 0 \/ r1[1] = 0 THEN 1 ELSE IF r2[1] = 0 THEN 2 ELSE 3
      Uv(d, probs) == TreeGet(b, d, UvModeTree, probs, 0)
  IN
  IF h.key THEN
    LET ym == TLCEval(TreeGet(b, sk, KfYModeTree, KfYModeProb, 0))
        bm == TLCEval(IF ym[1] # 4 THEN <<TLCEval([k \in 1..16 |-> ImpliedB(ym[1])]), ym>>
              ELSE FoldLeft(LAMBDA a, k : TLCEval(
                     LET am == IF k <= 4 THEN above.bm[k + 12] ELSE a[1][k - 4]
                         lm == IF k % 4 = 1 THEN left.bm[k + 3] ELSE a[1][k - 1]
                         e == TLCEval(TreeGet(b, a[2], BModeTree, KfBModeProb, (am * 90) + (lm * 9)))
                     IN <<Append(a[1], e[1]), e>>), <<<<>>, ym>>, [k \in 1..16 |-> k]))
        uv == TLCEval(Uv(bm[2], KfUvModeProb))
    IN <<[base EXCEPT !.ym = ym[1], !.bm = bm[1], !.uvm = uv[1]], uv>>
  ELSE IF gone \/ Gone(b, r2) THEN <<[base EXCEPT !.ref = ref, !.ym = 7], r2>>
  ELSE IF inter[1] = 0 THEN
    LET ym == TLCEval(TreeGet(b, inter, YModeTree, P.ym, 0))
        bm == TLCEval(IF ym[1] # 4 THEN <<TLCEval([k \in 1..16 |-> ImpliedB(ym[1])]), ym>>
              ELSE ReadN(b, ym, 16, LAMBDA bb, d : TreeGet(bb, d, BModeTree, BModeProb, 0)))
        uv == TLCEval(Uv(bm[2], P.uvm))
    IN <<[base EXCEPT !.ym = ym[1], !.bm = bm[1], !.uvm = uv[1]], uv>>
  ELSE
    LET c == TLCEval(Census(h, ref, above, left, corner))
        probs == <<MvCountProb[(c.cnt[1] * 4) + 1], MvCountProb[(c.cnt[2] * 4) + 2],
                   MvCountProb[(c.cnt[3] * 4) + 3], MvCountProb[(c.cnt[4] * 4) + 4]>>
        m == TLCEval(TreeGet(b, r2, MvRefTree, probs, 0))
        best == ClampMv(c.best, col, row, cols, rows)
        nv == TLCEval(IF m[1] = 8 THEN ReadMv(b, m, P.mv) ELSE m)
        sv == TLCEval(IF m[1] = 9 THEN SplitMvs(b, m, P.mv, best, above, left) ELSE <<ZeroMvs, nv>>)
        mv == TLCEval(CASE m[1] = 5 -> ClampMv(c.nearest, col, row, cols, rows)
                        [] m[1] = 6 -> ClampMv(c.near, col, row, cols, rows)
                        [] m[1] = 7 -> ZeroMv
                        [] m[1] = 8 -> AddMv(nv[1], best)
                        [] m[1] = 9 -> ZeroMv)
    IN <<[base EXCEPT !.ref = ref, !.ym = m[1], !.bm = IF m[1] = 9 THEN sv[3] ELSE DcModes,
                      !.mvs = IF m[1] = 9 THEN sv[1] ELSE TLCEval([k \in 1..16 |-> mv])],
         IF m[1] = 9 THEN sv[2] ELSE nv>>

MbHeaders(b, d, h, P, map, cols, rows) ==
  FoldLeft(LAMBDA a, i : TLCEval(LET e == TLCEval(MbHeader(b, a[2], h, P, map, a[1], cols, rows))
                                           x == TLCEval(Drained(e[2]))
                                       IN <<Append(a[1], e[1]), x[2], a[3] \o x[1]>>),
           <<<<>>, d, <<>>>>, [i \in 1..(cols * rows) |-> i])

------------------------------------------------------------------------------
(* Coefficients (section 13).                                                *)
ZeroBlock == TLCEval([i \in 1..16 |-> 0])
Extra(b, d, base, probs) ==
  LET e == TLCEval(FoldLeft(LAMBDA a, p : TLCEval(LET g == TLCEval(Get(b, a[2], p)) IN <<(a[1] * 2) + g[1], g>>), <<0, d>>, probs))
  IN SetRes(e[2], base + e[1])

(* A nonzero value, after the "not EOB" and "not zero" decisions; o: offset  *)
(* of the probabilities.                                                     *)
Magnitude(b, d, cp, o) ==
  LET g2 == TLCEval(Get(b, d, cp[o + 3])) IN
  IF g2[1] = 0 THEN SetRes(g2, 1)
  ELSE LET g3 == TLCEval(Get(b, g2, cp[o + 4])) IN
    IF g3[1] = 0 THEN
      LET g4 == TLCEval(Get(b, g3, cp[o + 5])) IN
      IF g4[1] = 0 THEN SetRes(g4, 2)
      ELSE LET g5 == TLCEval(Get(b, g4, cp[o + 6])) IN SetRes(g5, 3 + g5[1])
    ELSE LET g6 == TLCEval(Get(b, g3, cp[o + 7])) IN
      IF g6[1] = 0 THEN
        LET g7 == TLCEval(Get(b, g6, cp[o + 8])) IN
        IF g7[1] = 0 THEN Extra(b, g7, 5, <<159>>) ELSE Extra(b, g7, 7, <<165, 145>>)
      ELSE LET g8 == TLCEval(Get(b, g6, cp[o + 9])) IN
        IF g8[1] = 0 THEN
          LET g9 == TLCEval(Get(b, g8, cp[o + 10])) IN
          IF g9[1] = 0 THEN Extra(b, g9, 11, <<173, 148, 140>>) ELSE Extra(b, g9, 19, <<176, 155, 140, 135>>)
        ELSE
          LET g9 == TLCEval(Get(b, g8, cp[o + 11])) IN
          IF g9[1] = 0 THEN Extra(b, g9, 35, <<180, 157, 141, 134, 130>>)
          ELSE Extra(b, g9, 67, <<254, 254, 243, 230, 196, 177, 153, 140, 133, 130, 129>>)

(* A block from position i on: <<coefficients, decoder, position of the end>> *)
RECURSIVE Tokens(_, _, _, _, _, _, _, _)
Tokens(b, d, cp, type, i, ctx, afterZero, c) ==
  IF i = 16 THEN <<c, d, 16>>
  ELSE LET o == ((((type * 8) + Bands[i + 1]) * 3) + ctx) * 11
           e0 == TLCEval(IF afterZero THEN SetRes(d, 1) ELSE Get(b, d, cp[o + 1])) IN
    IF e0[1] = 0 THEN <<c, e0, i>>
    ELSE LET e1 == TLCEval(Get(b, e0, cp[o + 2])) IN
      IF e1[1] = 0 THEN Tokens(b, e1, cp, type, i + 1, 0, TRUE, c)
      ELSE LET m == TLCEval(Magnitude(b, e1, cp, o))
               s == TLCEval(Get(b, m, 128))
               v == IF s[1] = 1 THEN -m[1] ELSE m[1]
           IN Tokens(b, s, cp, type, i + 1, IF m[1] = 1 THEN 1 ELSE 2, FALSE, TLCEval([c EXCEPT ![Zigzag[i + 1] + 1] = v]))

(* Whether a block counts as non-zero for its neighbours and for the loop    *)
(* filter: it had a coefficient before its end of block.                     *)
Coded(t, first) == t[3] > first

(* Contexts: 1..4 Y, 5..6 U, 7..8 V, 9 Y2 (above: by column, left: by row).  *)
NoCtx == <<0, 0, 0, 0, 0, 0, 0, 0, 0>>
NoBlocks == TLCEval([k \in 1..25 |-> ZeroBlock])

(* The 25 blocks of a macroblock (16 Y, 4 U, 4 V, Y2) and the contexts after *)
(* it: [c, d, a, l, any].                                                    *)
MbTokens(b, d, cp, m, actx, lctx) ==
  IF m.skip THEN
    [c |-> NoBlocks, d |-> d, any |-> FALSE, deep |-> FALSE, trail |-> FALSE,
     a |-> IF HasY2(m) THEN NoCtx ELSE [NoCtx EXCEPT ![9] = actx[9]],
     l |-> IF HasY2(m) THEN NoCtx ELSE [NoCtx EXCEPT ![9] = lctx[9]]]
  ELSE
  LET Block(s, k) ==   \* k: 1..25, order of decoding given by the fold below
        LET type == IF k = 25 THEN 1 ELSE IF k > 16 THEN 2 ELSE IF HasY2(m) THEN 0 ELSE 3
            first == IF type = 0 THEN 1 ELSE 0
            ai == IF k = 25 THEN 9 ELSE IF k <= 16 THEN ((k - 1) % 4) + 1 ELSE IF k <= 20 THEN 5 + ((k - 17) % 2) ELSE 7 + ((k - 21) % 2)
            li == IF k = 25 THEN 9 ELSE IF k <= 16 THEN ((k - 1) \div 4) + 1 ELSE IF k <= 20 THEN 5 + ((k - 17) \div 2) ELSE 7 + ((k - 21) \div 2)
            t == TLCEval(Tokens(b, s.d, cp, type, first, s.a[ai] + s.l[li], FALSE, ZeroBlock))
            f == IF Coded(t, first) THEN 1 ELSE 0
            (* a run of zeros up to the very end: the one spelling that encoders never use *)
            dp == f = 1 /\ \A j \in 1..16 : t[1][j] = 0
        IN [c |-> IF f = 1 THEN [s.c EXCEPT ![k] = t[1]] ELSE s.c, d |-> t[2], any |-> s.any \/ f = 1, deep |-> s.deep \/ dp, trail |-> s.trail \/ (t[3] = 16 /\ t[1][16] = 0),
            a |-> [s.a EXCEPT ![ai] = f], l |-> [s.l EXCEPT ![li] = f]]
      order == [j \in 1..25 |-> IF HasY2(m) THEN (IF j = 1 THEN 25 ELSE j - 1) ELSE j]
      n == IF HasY2(m) THEN 25 ELSE 24
  IN FoldLeft(LAMBDA s, j : TLCEval(Block(s, order[j])),
              [c |-> NoBlocks, d |-> d, a |-> actx, l |-> lctx, any |-> FALSE, deep |-> FALSE, trail |-> FALSE], [j \in 1..n |-> j])

AllTokens(bs, cp, mbs, cols, rows) ==
  LET One(s, i) ==   \* i: 0-based
        LET col == i % cols  row == i \div cols
            p == (row % Len(bs)) + 1
            t == TLCEval(MbTokens(bs[p], s.d[p], cp, mbs[i + 1], s.a[col + 1], IF col = 0 THEN NoCtx ELSE s.l))
            x == TLCEval(Drained(t.d))
        IN [r |-> Append(s.r, [c |-> t.c, any |-> t.any, deep |-> t.deep, trail |-> t.trail]), d |-> [s.d EXCEPT ![p] = x[2]], done |-> [s.done EXCEPT ![p] = @ \o x[1]],
            a |-> [s.a EXCEPT ![col + 1] = t.a], l |-> t.l]
  IN FoldLeft(LAMBDA s, i : TLCEval(One(s, i - 1)),
              [r |-> <<>>, done |-> TLCEval([p \in 1..Len(bs) |-> <<>>]), d |-> TLCEval([p \in 1..Len(bs) |-> BoolInit(bs[p])]),
               a |-> TLCEval([c \in 1..cols |-> NoCtx]), l |-> NoCtx], [i \in 1..(cols * rows) |-> i])

(* Token partitions: <<offset, length>> of each, or <<>> if they do not fit. *)
Le24(by, i) == by[i] + (256 * by[i + 1]) + (65536 * by[i + 2])
Partitions(by, start, n, enc) ==   \* start: 0-based offset of the partition table
  LET base == start + (3 * (n - 1)) IN
  IF base > Len(by) THEN <<>>
  ELSE LET len(k) == Le24(by, start + (3 * (k - 1)) + 1)
           ends == TLCEval(FoldLeft(LAMBDA a, k : TLCEval(Append(a, a[k] + len(k))), <<base>>, [k \in 1..(n - 1) |-> k]))
       IN IF ends[n] > Len(by) THEN <<>>
          ELSE [k \in 1..n |-> [by |-> by, enc |-> enc, soft |-> FALSE, lo |-> ends[k] + 1, hi |-> IF k = n THEN Len(by) ELSE ends[k + 1]]]

------------------------------------------------------------------------------
(* Dequantization (sections 9.6, 14.1).                                      *)
ClampQ(q) == IF q < 0 THEN 0 ELSE IF q > 127 THEN 127 ELSE q
SegQ(h, seg, s) == IF ~seg.on THEN h.yq ELSE ClampQ(IF seg.abs THEN seg.q[s + 1] ELSE h.yq + seg.q[s + 1])
Factors(h, q) ==
  LET Q(t, i) == t[ClampQ(q + h.qd[i]) + 1]
      y2ac == (Q(AcQ, 3) * 155) \div 100
  IN [ydc |-> Q(DcQ, 1), yac |-> AcQ[q + 1], y2dc |-> Q(DcQ, 2) * 2, y2ac |-> IF y2ac < 8 THEN 8 ELSE y2ac,
      uvdc |-> IF Q(DcQ, 4) > 132 THEN 132 ELSE Q(DcQ, 4), uvac |-> Q(AcQ, 5)]
Dequant(c, dc, ac) == TLCEval([i \in 1..16 |-> c[i] * (IF i = 1 THEN dc ELSE ac)])

ZeroRes == TLCEval([i \in 0..15 |-> 0])
(* Residues of a macroblock: [y, u, v], sequences of 16, 4, 4 functions on   *)
(* 0..15; wide: some value leaves the range 16-bit arithmetic can handle.    *)
Narrow(c) == SumAbs(c) <= 16000
Residues(m, t, f) ==
  LET y2 == TLCEval(IF HasY2(m) THEN Dequant(t.c[25], f.y2dc, f.y2ac) ELSE ZeroBlock)
      dcs == TLCEval(IF HasY2(m) /\ Narrow(y2) THEN IWHT(y2) ELSE ZeroBlock)
      yc == TLCEval([k \in 1..16 |-> LET c == Dequant(t.c[k], f.ydc, f.yac) IN IF HasY2(m) THEN [c EXCEPT ![1] = dcs[k]] ELSE c])
      uc == TLCEval([k \in 1..4 |-> Dequant(t.c[16 + k], f.uvdc, f.uvac)])
      vc == TLCEval([k \in 1..4 |-> Dequant(t.c[20 + k], f.uvdc, f.uvac)])
      R(c) == IF Narrow(c) THEN IDCT(c) ELSE ZeroRes
  IN [y |-> TLCEval([k \in 1..16 |-> R(yc[k])]), u |-> TLCEval([k \in 1..4 |-> R(uc[k])]), v |-> TLCEval([k \in 1..4 |-> R(vc[k])]),
      wide |-> (~Narrow(y2)) \/ (\E k \in 1..16 : ~Narrow(yc[k])) \/ (\E k \in 1..4 : ~Narrow(uc[k]) \/ ~Narrow(vc[k]))]

(* Add residues r (blocks of 4 x 4) to an n x n prediction.                  *)
AddRes(pred, r, n) ==
  TLCEval([i \in 0..((n * n) - 1) |->
     LET x == i % n  y == i \div n IN Clamp255(pred[i] + r[((y \div 4) * (n \div 4)) + (x \div 4) + 1][((y % 4) * 4) + (x % 4)])])

------------------------------------------------------------------------------
(* Reconstruction of one macroblock; rec: those before it, [y, u, v] each.   *)
Row127 == TLCEval([i \in 0..15 |-> 127])
Col129 == TLCEval([i \in 0..15 |-> 129])

BPredLuma(m, t, res, above, left, corner, right, hasA, hasL) ==
  LET Arow(x) == IF hasA THEN above.y[240 + x] ELSE 127                    \* row above the macroblock
      Rt(x) == IF ~hasA THEN 127 ELSE IF right = <<>> THEN above.y[255] ELSE right[1].y[240 + x]
      Lcol(y) == IF hasL THEN left.y[(y * 16) + 15] ELSE 129
      One(s, k) ==   \* s: finished subblocks, k: 0-based
        LET bx == k % 4  by == k \div 4
            A == TLCEval([i \in 0..7 |->
                   IF i < 4 THEN (IF by = 0 THEN Arow((bx * 4) + i) ELSE s[k - 3][12 + i])
                   ELSE IF bx = 3 THEN Rt(i - 4)
                   ELSE IF by = 0 THEN Arow((bx * 4) + i) ELSE s[k - 2][12 + i - 4]])
            L == TLCEval([i \in 0..3 |-> IF bx = 0 THEN Lcol((by * 4) + i) ELSE s[k][(i * 4) + 3]])
            P == IF bx > 0 /\ by > 0 THEN s[k - 4][15]
                 ELSE IF by > 0 THEN Lcol((by * 4) - 1)
                 ELSE IF bx > 0 THEN Arow((bx * 4) - 1)
                 ELSE IF hasA /\ hasL THEN corner.y[255] ELSE IF hasA THEN 129 ELSE 127
            p == TLCEval(SubBlock(m.bm[k + 1], A, L, P))
        IN Append(s, IF t.any THEN TLCEval([i \in 0..15 |-> Clamp255(p[i] + res.y[k + 1][i])]) ELSE p)
      subs == TLCEval(FoldLeft(LAMBDA s, k : TLCEval(One(s, k - 1)), <<>>, [k \in 1..16 |-> k]))
  IN TLCEval([i \in 0..255 |-> subs[(((i \div 64) * 4) + ((i % 16) \div 4)) + 1][((((i \div 16) % 4) * 4) + (i % 4))]])

ChromaMv(mvs, k) ==   \* k: 0..3, the 2 x 2 luma subblocks of a chroma subblock
  LET i == ((k \div 2) * 8) + ((k % 2) * 2) + 1
      Avg(n) == LET s == mvs[i][n] + mvs[i + 1][n] + mvs[i + 4][n] + mvs[i + 5][n]
                IN IF s >= 0 THEN (s + 4) \div 8 ELSE -((-s + 4) \div 8)
  IN <<Avg(1), Avg(2)>>

InterPred(m, pic, col, row, cols, rows) ==
  IF m.ym # 9 THEN
    LET c == TLCEval(ChromaMv(m.mvs, 0)) IN
    [y |-> InterBlock(pic.y, cols * 16, rows * 16, col * 16, row * 16, 16, m.mvs[1]),
     u |-> InterBlock(pic.u, cols * 8, rows * 8, col * 8, row * 8, 8, c),
     v |-> InterBlock(pic.v, cols * 8, rows * 8, col * 8, row * 8, 8, c)]
  ELSE
    LET ys == TLCEval([k \in 0..15 |-> InterBlock(pic.y, cols * 16, rows * 16, (col * 16) + ((k % 4) * 4), (row * 16) + ((k \div 4) * 4), 4, m.mvs[k + 1])])
        C(pl) == TLCEval([k \in 0..3 |-> InterBlock(pl, cols * 8, rows * 8, (col * 8) + ((k % 2) * 4), (row * 8) + ((k \div 2) * 4), 4, ChromaMv(m.mvs, k))])
        us == C(pic.u)
        vs == C(pic.v)
        J(bs) == TLCEval([i \in 0..63 |-> bs[((i \div 32) * 2) + ((i % 8) \div 4)][((((i \div 8) % 4) * 4) + (i % 4))]])
    IN [y |-> TLCEval([i \in 0..255 |-> ys[((i \div 64) * 4) + ((i % 16) \div 4)][((((i \div 16) % 4) * 4) + (i % 4))]]),
        u |-> J(us), v |-> J(vs)]

ReconMb(m, t, f, refs, rec, cols, rows) ==
  LET i == Len(rec)
      col == i % cols  row == i \div cols
      hasA == row > 0  hasL == col > 0
      above == IF hasA THEN rec[i - cols + 1] ELSE <<>>
      left == IF hasL THEN rec[i] ELSE <<>>
      corner == IF hasA /\ hasL THEN rec[i - cols] ELSE <<>>
      right == IF hasA /\ col < cols - 1 THEN <<rec[i - cols + 2]>> ELSE <<>>
      res == TLCEval(IF t.any THEN Residues(m, t, f) ELSE <<>>)
      wide == IF t.any THEN res.wide ELSE FALSE
      Plane(n, mode, pa, plft, pc) ==   \* whole-block intra prediction
        IntraBlock(mode, n,
          TLCEval([k \in 0..(n - 1) |-> IF hasA THEN pa[(n * (n - 1)) + k] ELSE 127]),
          TLCEval([k \in 0..(n - 1) |-> IF hasL THEN plft[(n * k) + n - 1] ELSE 129]),
          IF hasA /\ hasL THEN pc[(n * n) - 1] ELSE IF hasA THEN 129 ELSE 127, hasA, hasL)
      Opt(r, fld(_)) == IF r = <<>> THEN <<>> ELSE fld(r)
      pred == TLCEval(
        IF m.ref = 0 THEN
          [y |-> IF m.ym = 4 THEN BPredLuma(m, t, res, above, left, corner, right, hasA, hasL)
                 ELSE Plane(16, m.ym, Opt(above, LAMBDA r : r.y), Opt(left, LAMBDA r : r.y), Opt(corner, LAMBDA r : r.y)),
           u |-> Plane(8, m.uvm, Opt(above, LAMBDA r : r.u), Opt(left, LAMBDA r : r.u), Opt(corner, LAMBDA r : r.u)),
           v |-> Plane(8, m.uvm, Opt(above, LAMBDA r : r.v), Opt(left, LAMBDA r : r.v), Opt(corner, LAMBDA r : r.v))]
        ELSE InterPred(m, IF m.ref = 1 THEN refs.last ELSE IF m.ref = 2 THEN refs.golden ELSE refs.alt, col, row, cols, rows))
  IN IF ~t.any THEN [y |-> pred.y, u |-> pred.u, v |-> pred.v, wide |-> wide]
     ELSE [y |-> IF m.ref = 0 /\ m.ym = 4 THEN pred.y ELSE AddRes(pred.y, res.y, 16),
           u |-> AddRes(pred.u, res.u, 8), v |-> AddRes(pred.v, res.v, 8), wide |-> wide]

(* Loop filter level of a macroblock.                                        *)
Clamp63(x) == IF x < 0 THEN 0 ELSE IF x > 63 THEN 63 ELSE x
MbLevel(h, seg, lfd, m) ==
  LET base == IF seg.on THEN Clamp63(IF seg.abs THEN seg.lf[m.seg + 1] ELSE h.level + seg.lf[m.seg + 1]) ELSE h.level
      md == IF m.ref = 0 THEN (IF m.ym = 4 THEN lfd.mode[1] ELSE 0)
            ELSE IF m.ym = 7 THEN lfd.mode[2] ELSE IF m.ym = 9 THEN lfd.mode[4] ELSE lfd.mode[3]
  IN IF lfd.on THEN Clamp63(base + lfd.ref[m.ref + 1] + md) ELSE base

FilterPicture(h, seg, lfd, mbs, toks, rec, cols) ==
  IF h.level = 0 THEN rec
  ELSE LET One(r, i) ==
             LET m == mbs[i]
                 lvl == MbLevel(h, seg, lfd, m) IN
             IF lvl = 0 THEN r
             ELSE LET fp == TLCEval(FilterLimits(lvl, h.sharp, h.key))
                      hasL == (i - 1) % cols > 0
                      hasA == i > cols
                      sub == toks[i].any \/ ~HasY2(m)
                      FB(fld(_), n) == FilterBlock(fld(r[i]), IF hasL THEN fld(r[i - 1]) ELSE <<>>, IF hasA THEN fld(r[i - cols]) ELSE <<>>, n, hasL, hasA, sub, fp)
                      y == TLCEval(FB(LAMBDA x : x.y, 16))
                      u == TLCEval(FB(LAMBDA x : x.u, 8))
                      v == TLCEval(FB(LAMBDA x : x.v, 8))
                      r1 == [r EXCEPT ![i] = [y |-> y.cur, u |-> u.cur, v |-> v.cur]]
                      r2 == IF hasL THEN [r1 EXCEPT ![i - 1] = [y |-> y.left, u |-> u.left, v |-> v.left]] ELSE r1
                  IN IF hasA THEN [r2 EXCEPT ![i - cols] = [y |-> y.above, u |-> u.above, v |-> v.above]] ELSE r2
       IN FoldLeft(LAMBDA r, i : TLCEval(One(r, i)), rec, [i \in 1..Len(rec) |-> i])

(* Macroblocks into planes.                                                  *)
Plane(rec, fld(_), n, cols, rows) ==
  LET w == cols * n IN
  TLCEval([q \in 1..(w * rows * n) |->
     LET p == q - 1  x == p % w  y == p \div w IN fld(rec[((y \div n) * cols) + (x \div n) + 1])[((y % n) * n) + (x % n)]])
Picture(rec, cols, rows) == [y |-> Plane(rec, LAMBDA r : r.y, 16, cols, rows),
                             u |-> Plane(rec, LAMBDA r : r.u, 8, cols, rows),
                             v |-> Plane(rec, LAMBDA r : r.v, 8, cols, rows)]

------------------------------------------------------------------------------
(* One frame. st: [probs, seg, lfd]; by: the bytes of the frame. What it does *)
(* to the state: [err] or [err |-> "", shown, hdr, st, seg, lfd, P, mbs,     *)
(* parts, d, done]; needMbs: whether the macroblock headers are wanted anyway;     *)
(* enc: whether to carry encoders along; d: the decoder after the headers.   *)
Body(t, b1, Parts(_), cols, rows, st, needMbs) ==
  LET ph == TLCEval(ParseHeader(b1, t.key))
      hd == ph[1]
  IN IF hd.colorspace \/ hd.noclamp THEN [err |-> "color space"]
     ELSE IF hd.simple THEN [err |-> "simple filter"]
     ELSE
     LET parts == TLCEval(Parts(hd.parts)) IN
     IF parts = <<>> THEN [err |-> "partitions"]
     ELSE
     LET P == TLCEval(FrameProbs(st.probs, hd))
         seg == TLCEval(NextSeg(st.seg, hd, cols * rows))
         lfd == TLCEval(NextLfd(st.lfd, hd))
         mh == TLCEval(IF needMbs \/ hd.seg.map THEN MbHeaders(b1, ph[2], hd, P, seg.map, cols, rows) ELSE <<<<>>, ph[2], <<>>>>)
         mbs == mh[1]
         seg2 == TLCEval(IF hd.seg.map THEN [seg EXCEPT !.map = [i \in 1..(cols * rows) |-> mbs[i].seg]] ELSE seg)
     IN [err |-> "", shown |-> t.show, hdr |-> hd, P |-> P, mbs |-> mbs, parts |-> parts, d |-> mh[2], done |-> mh[3],
         st |-> [probs |-> TLCEval(SavedProbs(st.probs, hd)), seg |-> seg2, lfd |-> lfd]]

DecodeAll(by, w, h, st, needMbs, enc) ==
  LET no == Refusal(by, w, h) IN
  IF no # "" THEN [err |-> no]
  ELSE
  LET t == Tag(by)
      o == FirstPart(by)
      b1 == [by |-> by, enc |-> enc, soft |-> FALSE, lo |-> o + 1, hi |-> o + t.plen]
  IN Body(t, b1, LAMBDA n : Partitions(by, o + t.plen, n, enc), MbDim(w), MbDim(h), st, needMbs)

DecodeState(by, w, h, st, needMbs) == DecodeAll(by, w, h, st, needMbs, FALSE)

(* The same with the picture: refs: the reference pictures. Adds pic, wide,  *)
(* deep.                                                                     *)
Paint(r, w, h, refs) ==
  IF r.err # "" THEN r
  ELSE
  LET cols == MbDim(w)  rows == MbDim(h)
      hd == r.hdr  mbs == r.mbs  seg == r.st.seg  lfd == r.st.lfd
      toks == TLCEval(AllTokens(r.parts, r.P.coef, mbs, cols, rows)).r
      fac == TLCEval([s \in 0..3 |-> Factors(hd, SegQ(hd, seg, s))])
      rec == TLCEval(FoldLeft(LAMBDA a, i : TLCEval(Append(a, ReconMb(mbs[i], toks[i], fac[IF seg.on THEN mbs[i].seg ELSE 0], refs, a, cols, rows))),
                      <<>>, [i \in 1..(cols * rows) |-> i]))
      pic == TLCEval(Picture(TLCEval(FilterPicture(hd, seg, lfd, mbs, toks, rec, cols)), cols, rows))
  IN [pic |-> pic, wide |-> \E i \in 1..Len(rec) : rec[i].wide, deep |-> \E i \in 1..Len(toks) : toks[i].deep] @@ r
Decode(by, w, h, st, refs) == Paint(TLCEval(DecodeState(by, w, h, st, TRUE)), w, h, refs)

------------------------------------------------------------------------------
(* With error concealment: what is there of a frame is decoded, what is not  *)
(* is made up. Missing bytes read as zeros; the macroblocks of an interframe *)
(* whose headers are missing repeat the last picture. Of a frame that ends   *)
(* within its tag or a key frame's start only whether it is shown is known.  *)
NoBytes == [by |-> <<>>, enc |-> FALSE, soft |-> FALSE, lo |-> 1, hi |-> 0]
SoftPartitions(by, start, n) ==
  LET base == start + (3 * (n - 1)) IN
  IF base > Len(by) THEN [k \in 1..n |-> NoBytes]
  ELSE LET Least(a, b) == IF a < b THEN a ELSE b
           len(k) == Le24(by, start + (3 * (k - 1)) + 1)
           ends == TLCEval(FoldLeft(LAMBDA a, k : TLCEval(Append(a, Least(a[k] + len(k), Len(by)))), <<base>>, [k \in 1..(n - 1) |-> k]))
       IN [k \in 1..n |-> [by |-> by, enc |-> FALSE, soft |-> FALSE, lo |-> ends[k] + 1, hi |-> IF k = n THEN Len(by) ELSE ends[k + 1]]]
SoftState(by, w, h, st) ==
  LET n == Len(by)
      o == IF n = 0 THEN 0 ELSE FirstPart(by)
      B(t, b1, Parts(_)) == Body(t, b1, Parts, MbDim(w), MbDim(h), st, TRUE)
      v == IF n = 0 THEN 0 ELSE (by[1] \div 2) % 8
  IN IF v # 0 /\ ~(n < o /\ v \in {4, 6}) THEN [err |-> "version"]
     ELSE IF n < 3 \/ n < o
       THEN B([key |-> FALSE, show |-> n > 0 /\ Bit(by[1], 4) = 1], [NoBytes EXCEPT !.soft = TRUE], LAMBDA k : [i \in 1..k |-> NoBytes])
     ELSE LET t == Tag(by) IN
       IF t.key /\ <<by[4], by[5], by[6]>> # <<157, 1, 42>> THEN [err |-> "start code"]
       ELSE IF t.key /\ (by[7] + (256 * by[8]) # w \/ by[9] + (256 * by[10]) # h) THEN [err |-> "dimensions"]
       ELSE IF n <= o + t.plen
         THEN B(t, [by |-> by, enc |-> FALSE, soft |-> ~t.key, lo |-> o + 1, hi |-> n], LAMBDA k : [i \in 1..k |-> NoBytes])
       ELSE B(t, [by |-> by, enc |-> FALSE, soft |-> FALSE, lo |-> o + 1, hi |-> o + t.plen], LAMBDA k : SoftPartitions(by, o + t.plen, k))
SoftDecode(by, w, h, st, refs) == Paint(TLCEval(SoftState(by, w, h, st)), w, h, refs)
=============================================================================
