-------------------------------- MODULE Ssim --------------------------------
(* Structural similarity of two planes of samples (Wang et al.; windows of   *)
(* 8x8 samples every 4, as the encoder's library computes it), in            *)
(* millionths, in integers.                                                  *)
EXTENDS Integers, Sequences, SequencesExt, TLC

C1 == 416      \* (0.01 * 255)^2 * 64
C2 == 235963   \* (0.03 * 255)^2 * 64 * 63
(* a / b in ten-thousandths for 0 <= a <= b < 2^30.                          *)
Frac(a, b) == LET k == (b \div 131072) + 1 IN ((a \div k) * 10000) \div (b \div k)
Abs(x) == IF x < 0 THEN -x ELSE x
(* Sums over the 4x4 block at column x, row y (in blocks).                   *)
Sums(a, b, w, x, y) ==
  FoldLeft(LAMBDA s, i :
    LET p == (((y * 4) + (i \div 4)) * w) + (x * 4) + (i % 4) + 1
        u == a[p]  v == b[p]
    IN TLCEval([s1 |-> s.s1 + u, s2 |-> s.s2 + v, ss |-> s.ss + (u * u) + (v * v), s12 |-> s.s12 + (u * v)]),
    [s1 |-> 0, s2 |-> 0, ss |-> 0, s12 |-> 0], [i \in 1..16 |-> i - 1])
Window(p, q, r, t) ==
  LET s1 == p.s1 + q.s1 + r.s1 + t.s1  s2 == p.s2 + q.s2 + r.s2 + t.s2
      vars == (64 * (p.ss + q.ss + r.ss + t.ss)) - (s1 * s1) - (s2 * s2)
      cov == (64 * (p.s12 + q.s12 + r.s12 + t.s12)) - (s1 * s2)
      lum == Frac((2 * s1 * s2) + C1, (s1 * s1) + (s2 * s2) + C1)
      con == Frac(Abs((2 * cov) + C2), vars + C2)
  IN (lum * con * (IF (2 * cov) + C2 < 0 THEN -1 ELSE 1)) \div 100
Ssim(a, b, w, h) ==
  LET cols == w \div 4  rows == h \div 4
      S == TLCEval([y \in 0..(rows - 1) |-> [x \in 0..(cols - 1) |-> Sums(a, b, w, x, y)]])
      n == (cols - 1) * (rows - 1)
      (* averaged in ten-thousandths of a window so that the sum stays small *)
      all == FoldLeft(LAMBDA s, i : s + (Window(S[i \div (cols - 1)][i % (cols - 1)], S[i \div (cols - 1)][(i % (cols - 1)) + 1],
                                               S[(i \div (cols - 1)) + 1][i % (cols - 1)], S[(i \div (cols - 1)) + 1][(i % (cols - 1)) + 1]) \div 10),
                      0, [i \in 1..n |-> i - 1])
  IN (all \div n) * 10
Within(q, v) == q - v <= 2500 /\ v - q <= 2500
=============================================================================
