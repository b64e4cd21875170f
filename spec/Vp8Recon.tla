------------------------------ MODULE Vp8Recon ------------------------------
(* Reconstruction of VP8 pictures (RFC 6386 sections 12 to 15 and 18):       *)
(* inverse transforms, intra and inter prediction, loop filter.              *)
(* A block of n x n samples is a function on 0..(n*n-1), row by row. A       *)
(* picture is [y, u, v] of planes, sequences of samples row by row, of the      *)
(* dimensions rounded up to whole macroblocks.                               *)
EXTENDS Integers, Sequences, Functions, SequencesExt, Vp8Tables, TLC

Clamp255(x) == IF x < 0 THEN 0 ELSE IF x > 255 THEN 255 ELSE x
AbsI(x) == IF x < 0 THEN -x ELSE x

------------------------------------------------------------------------------
(* Inverse transforms. Coefficients are sequences of 16, raster order.       *)

SumAbs(c) == FoldLeft(LAMBDA a, x : a + AbsI(x), 0, c)

(* Inverse Walsh-Hadamard: the 16 DC values of the luma subblocks.           *)
IWHT(c) ==
  LET col == TLCEval([i \in 1..4 |->
               LET a1 == c[i] + c[i + 12]
                   b1 == c[i + 4] + c[i + 8]
                   c1 == c[i + 4] - c[i + 8]
                   d1 == c[i] - c[i + 12]
               IN <<a1 + b1, c1 + d1, a1 - b1, d1 - c1>>])
      row == TLCEval([r \in 1..4 |->
               LET a1 == col[1][r] + col[4][r]
                   b1 == col[2][r] + col[3][r]
                   c1 == col[2][r] - col[3][r]
                   d1 == col[1][r] - col[4][r]
               IN <<(a1 + b1 + 3) \div 8, (c1 + d1 + 3) \div 8, (a1 - b1 + 3) \div 8, (d1 - c1 + 3) \div 8>>])
  IN TLCEval([i \in 1..16 |-> row[((i - 1) \div 4) + 1][((i - 1) % 4) + 1]])

M2(x) == x + ((x * 20091) \div 65536)      \* x * sqrt(2) * cos(pi/8)
M1(x) == (x * 35468) \div 65536            \* x * sqrt(2) * sin(pi/8)

(* Inverse DCT: the residue, a function on 0..15.                            *)
IDCT(c) ==
  IF \A i \in 2..16 : c[i] = 0 THEN LET v == (c[1] + 4) \div 8 IN TLCEval([i \in 0..15 |-> v])
  ELSE
  LET col == TLCEval([i \in 1..4 |->
               LET a1 == c[i] + c[i + 8]
                   b1 == c[i] - c[i + 8]
                   c1 == M1(c[i + 4]) - M2(c[i + 12])
                   d1 == M2(c[i + 4]) + M1(c[i + 12])
               IN <<a1 + d1, b1 + c1, b1 - c1, a1 - d1>>])
      row == TLCEval([r \in 1..4 |->
               LET a1 == col[1][r] + col[3][r]
                   b1 == col[1][r] - col[3][r]
                   c1 == M1(col[2][r]) - M2(col[4][r])
                   d1 == M2(col[2][r]) + M1(col[4][r])
               IN <<(a1 + d1 + 4) \div 8, (b1 + c1 + 4) \div 8, (b1 - c1 + 4) \div 8, (a1 - d1 + 4) \div 8>>])
  IN TLCEval([i \in 0..15 |-> row[(i \div 4) + 1][(i % 4) + 1]])

------------------------------------------------------------------------------
(* Intra prediction of a whole n x n block. a(i): sample i of the row above  *)
(* (i = -1: the corner), l(i): sample i of the column to the left; hasA and  *)
(* hasL: whether these lie inside the picture.                               *)
SumTo(f(_), n) == FoldLeft(LAMBDA s, i : s + f(i - 1), 0, [i \in 1..n |-> i])

IntraBlock(mode, n, A, L, P, hasA, hasL) ==
  CASE mode = 0 ->   \* DC
         LET sh == IF n = 16 THEN 16 ELSE 8
             v == IF hasA /\ hasL THEN (SumTo(LAMBDA i : A[i], n) + SumTo(LAMBDA i : L[i], n) + sh) \div (2 * sh)
                  ELSE IF hasA THEN (SumTo(LAMBDA i : A[i], n) + (sh \div 2)) \div sh
                  ELSE IF hasL THEN (SumTo(LAMBDA i : L[i], n) + (sh \div 2)) \div sh
                  ELSE 128
         IN TLCEval([i \in 0..((n * n) - 1) |-> v])
    [] mode = 1 -> TLCEval([i \in 0..((n * n) - 1) |-> A[i % n]])
    [] mode = 2 -> TLCEval([i \in 0..((n * n) - 1) |-> L[i \div n]])
    [] mode = 3 -> TLCEval([i \in 0..((n * n) - 1) |-> Clamp255(L[i \div n] + A[i % n] - P)])

(* Prediction of a 4 x 4 subblock. A: 8 samples above (0..7), L: 4 samples to*)
(* the left (0..3), P the corner. e: the edge, from the bottom of the left   *)
(* column (0) over the corner (4) to the right end of the row above (12).    *)
Avg2(x, y) == (x + y + 1) \div 2
Avg3(x, y, z) == (x + y + y + z + 2) \div 4
SubBlock(mode, A, L, P) ==
  LET e == TLCEval([i \in 0..12 |-> IF i < 4 THEN L[3 - i] ELSE IF i = 4 THEN P ELSE A[i - 5]])
      v3(i) == Avg3(e[i - 1], e[i], e[i + 1])
      v2(i) == Avg2(e[i - 1], e[i])
      Grid(f) == TLCEval([i \in 0..15 |-> f[i + 1]])
      al == A[0] + A[1] + A[2] + A[3] + L[0] + L[1] + L[2] + L[3]
  IN
  CASE mode = 0 -> LET v == (al + 4) \div 8 IN TLCEval([i \in 0..15 |-> v])
    [] mode = 1 -> TLCEval([i \in 0..15 |-> Clamp255(L[i \div 4] + A[i % 4] - P)])
    [] mode = 2 -> LET r == TLCEval([c \in 0..3 |-> v3(5 + c)]) IN TLCEval([i \in 0..15 |-> r[i % 4]])
    [] mode = 3 -> LET r == TLCEval(<<Avg3(P, L[0], L[1]), Avg3(L[0], L[1], L[2]), Avg3(L[1], L[2], L[3]),
                                      Avg3(L[2], L[3], L[3])>>)
                   IN TLCEval([i \in 0..15 |-> r[(i \div 4) + 1]])
    [] mode = 4 -> \* LD
         LET r == TLCEval([k \in 0..6 |-> IF k = 6 THEN Avg3(A[6], A[7], A[7]) ELSE Avg3(A[k], A[k + 1], A[k + 2])])
         IN TLCEval([i \in 0..15 |-> r[(i % 4) + (i \div 4)]])
    [] mode = 5 -> \* RD
         LET r == TLCEval([k \in 1..7 |-> v3(k)]) IN TLCEval([i \in 0..15 |-> r[4 + (i % 4) - (i \div 4)]])
    [] mode = 6 -> \* VR
         LET t == TLCEval(<<v2(5), v2(6), v2(7), v2(8)>>)
             s == TLCEval([k \in 2..7 |-> v3(k)])
         IN Grid(<<t[1], t[2], t[3], t[4],
                   s[4], s[5], s[6], s[7],
                   s[3], t[1], t[2], t[3],
                   s[2], s[4], s[5], s[6]>>)
    [] mode = 7 -> \* VL
         LET t == TLCEval([k \in 0..3 |-> Avg2(A[k], A[k + 1])])
             s == TLCEval([k \in 0..5 |-> Avg3(A[k], A[k + 1], A[k + 2])])
         IN Grid(<<t[0], t[1], t[2], t[3],
                   s[0], s[1], s[2], s[3],
                   t[1], t[2], t[3], s[4],
                   s[1], s[2], s[3], s[5]>>)
    [] mode = 8 -> \* HD
         LET t == TLCEval([k \in 1..4 |-> v2(k)])
             s == TLCEval([k \in 1..6 |-> v3(k)])
         IN Grid(<<t[4], s[4], s[5], s[6],
                   t[3], s[3], t[4], s[4],
                   t[2], s[2], t[3], s[3],
                   t[1], s[1], t[2], s[2]>>)
    [] mode = 9 -> \* HU
         LET t0 == Avg2(L[0], L[1])  t1 == Avg2(L[1], L[2])  t2 == Avg2(L[2], L[3])
             s0 == Avg3(L[0], L[1], L[2])  s1 == Avg3(L[1], L[2], L[3])  s2 == Avg3(L[2], L[3], L[3])  z == L[3]
         IN Grid(<<t0, s0, t1, s1,
                   t1, s1, t2, s2,
                   t2, s2, z, z,
                   z, z, z, z>>)

------------------------------------------------------------------------------
(* Inter prediction: the n x n block at (x, y) of a plane of w x h samples,  *)
(* displaced by mv = <<row, column>> in eighths of a sample. Samples outside *)
(* the plane repeat its edge.                                                *)
InRange(v, n) == IF v < 0 THEN 0 ELSE IF v >= n THEN n - 1 ELSE v
InterBlock(pl, w, h, x, y, n, mv) ==
  LET sy == y + (mv[1] \div 8)   sx == x + (mv[2] \div 8)
      fy == (mv[1] % 8) * 6      fx == (mv[2] % 8) * 6
      cx == TLCEval([i \in -2..(n + 3) |-> InRange(sx + i, w)])
      cy == TLCEval([j \in -2..(n + 3) |-> InRange(sy + j, h) * w])
      Hx == IF fx = 0 THEN TLCEval([j \in -2..(n + 3) |-> TLCEval([i \in 0..(n - 1) |-> pl[cy[j] + cx[i] + 1]])])
            ELSE TLCEval([j \in -2..(n + 3) |-> IF fy = 0 /\ (j < 0 \/ j >= n) THEN <<>> ELSE TLCEval([i \in 0..(n - 1) |->
                   Clamp255(((pl[cy[j] + cx[i - 2] + 1] * SixTap[fx + 1])
                           + (pl[cy[j] + cx[i - 1] + 1] * SixTap[fx + 2])
                           + (pl[cy[j] + cx[i] + 1] * SixTap[fx + 3])
                           + (pl[cy[j] + cx[i + 1] + 1] * SixTap[fx + 4])
                           + (pl[cy[j] + cx[i + 2] + 1] * SixTap[fx + 5])
                           + (pl[cy[j] + cx[i + 3] + 1] * SixTap[fx + 6]) + 64) \div 128)])])
  IN IF fy = 0 THEN TLCEval([k \in 0..((n * n) - 1) |-> Hx[k \div n][k % n]])
     ELSE TLCEval([k \in 0..((n * n) - 1) |->
            LET j == k \div n  i == k % n IN
            Clamp255(((Hx[j - 2][i] * SixTap[fy + 1]) + (Hx[j - 1][i] * SixTap[fy + 2])
                    + (Hx[j][i] * SixTap[fy + 3]) + (Hx[j + 1][i] * SixTap[fy + 4])
                    + (Hx[j + 2][i] * SixTap[fy + 5]) + (Hx[j + 3][i] * SixTap[fy + 6]) + 64) \div 128)])

------------------------------------------------------------------------------
(* Loop filter.                                                              *)

S8(x) == x - 128
ClampS8(x) == IF x < -128 THEN -128 ELSE IF x > 127 THEN 127 ELSE x

(* l: a line of samples (a sequence), k: index of the first sample after the *)
(* edge. p3..p0 = l[k-4]..l[k-1], q0..q3 = l[k]..l[k+3].                     *)
NoFilter(l, k, edge, inner) ==
  \/ (AbsI(l[k - 1] - l[k]) * 2) + (AbsI(l[k - 2] - l[k + 1]) \div 2) > edge
  \/ AbsI(l[k - 4] - l[k - 3]) > inner \/ AbsI(l[k - 3] - l[k - 2]) > inner
  \/ AbsI(l[k - 2] - l[k - 1]) > inner \/ AbsI(l[k + 1] - l[k]) > inner
  \/ AbsI(l[k + 2] - l[k + 1]) > inner \/ AbsI(l[k + 3] - l[k + 2]) > inner
Hev(l, k, t) == AbsI(l[k - 2] - l[k - 1]) > t \/ AbsI(l[k + 1] - l[k]) > t

MbEdge(l, k, edge, inner, t) ==
  IF NoFilter(l, k, edge, inner) THEN l
  ELSE LET p2 == S8(l[k - 3])  p1 == S8(l[k - 2])  p0 == S8(l[k - 1])
           q0 == S8(l[k])  q1 == S8(l[k + 1])  q2 == S8(l[k + 2])
           f == ClampS8(ClampS8(p1 - q1) + (3 * (q0 - p0)))
       IN IF Hev(l, k, t)
          THEN [l EXCEPT ![k] = ClampS8(q0 - (ClampS8(f + 4) \div 8)) + 128,
                         ![k - 1] = ClampS8(p0 + (ClampS8(f + 3) \div 8)) + 128]
          ELSE LET a == ClampS8((63 + (f * 27)) \div 128)
                   c == ClampS8((63 + (f * 18)) \div 128)
                   e == ClampS8((63 + (f * 9)) \div 128)
               IN [l EXCEPT ![k] = ClampS8(q0 - a) + 128, ![k - 1] = ClampS8(p0 + a) + 128,
                            ![k + 1] = ClampS8(q1 - c) + 128, ![k - 2] = ClampS8(p1 + c) + 128,
                            ![k + 2] = ClampS8(q2 - e) + 128, ![k - 3] = ClampS8(p2 + e) + 128]

SubEdge(l, k, edge, inner, t) ==
  IF NoFilter(l, k, edge, inner) THEN l
  ELSE LET p1 == S8(l[k - 2])  p0 == S8(l[k - 1])  q0 == S8(l[k])  q1 == S8(l[k + 1])
           hv == Hev(l, k, t)
           f == ClampS8((IF hv THEN ClampS8(p1 - q1) ELSE 0) + (3 * (q0 - p0)))
           f1 == ClampS8(f + 4) \div 8
           f2 == ClampS8(f + 3) \div 8
           a == (f1 + 1) \div 2
       IN IF hv
          THEN [l EXCEPT ![k] = ClampS8(q0 - f1) + 128, ![k - 1] = ClampS8(p0 + f2) + 128]
          ELSE [l EXCEPT ![k] = ClampS8(q0 - f1) + 128, ![k - 1] = ClampS8(p0 + f2) + 128,
                         ![k + 1] = ClampS8(q1 - a) + 128, ![k - 2] = ClampS8(p1 + a) + 128]

(* A line of 4 samples before the macroblock and n of it.                    *)
LineFilter(l, n, mb, sub, fp) ==
  LET l0 == IF mb THEN TLCEval(MbEdge(l, 5, fp.mbe, fp.inner, fp.hev)) ELSE l
      l1 == IF sub THEN TLCEval(SubEdge(l0, 9, fp.sbe, fp.inner, fp.hev)) ELSE l0
      l2 == IF sub /\ n = 16 THEN TLCEval(SubEdge(l1, 13, fp.sbe, fp.inner, fp.hev)) ELSE l1
  IN IF sub /\ n = 16 THEN TLCEval(SubEdge(l2, 17, fp.sbe, fp.inner, fp.hev)) ELSE l2

(* Limits for a filter level (1..63).                                        *)
FilterLimits(level, sharp, key) ==
  LET i0 == IF sharp = 0 THEN level ELSE IF sharp > 4 THEN level \div 4 ELSE level \div 2
      i1 == IF sharp > 0 /\ i0 > 9 - sharp THEN 9 - sharp ELSE i0
      inner == IF i1 < 1 THEN 1 ELSE i1
  IN [inner |-> inner, mbe |-> ((level + 2) * 2) + inner, sbe |-> (level * 2) + inner,
      hev |-> IF key THEN (IF level >= 40 THEN 2 ELSE IF level >= 15 THEN 1 ELSE 0)
              ELSE (IF level >= 40 THEN 3 ELSE IF level >= 20 THEN 2 ELSE IF level >= 15 THEN 1 ELSE 0)]

(* Filter one n x n block of a plane: cur with its left and above blocks.    *)
(* Returns [cur, left, above].                                               *)
FilterBlock(cur, left, above, n, hasL, hasA, sub, fp) ==
  LET z == <<0, 0, 0, 0>>
      HL == TLCEval([r \in 0..(n - 1) |->
              LineFilter(TLCEval([k \in 1..(n + 4) |-> IF k > 4 THEN cur[(r * n) + k - 5]
                                           ELSE IF hasL THEN left[(r * n) + n - 5 + k] ELSE 0]), n, hasL, sub, fp)])
      VL == TLCEval([c \in 0..(n - 1) |->
              LineFilter(TLCEval([k \in 1..(n + 4) |-> IF k > 4 THEN HL[k - 5][c + 5]
                                           ELSE IF hasA THEN above[((n - 5 + k) * n) + c] ELSE 0]), n, hasA, sub, fp)])
  IN [cur |-> TLCEval([i \in 0..((n * n) - 1) |-> VL[i % n][(i \div n) + 5]]),
      left |-> IF hasL THEN TLCEval([i \in 0..((n * n) - 1) |-> IF i % n >= n - 4 THEN HL[i \div n][(i % n) - n + 5] ELSE left[i]])
               ELSE left,
      above |-> IF hasA THEN TLCEval([i \in 0..((n * n) - 1) |-> IF i \div n >= n - 4 THEN VL[i % n][(i \div n) - n + 5] ELSE above[i]])
                ELSE above]
=============================================================================
