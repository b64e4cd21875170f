------------------------------- MODULE Report -------------------------------
(* What the tools say about files: a frame taken apart (xc-dissect), the     *)
(* likeness of two videos (xc-ssim), in what two saved states differ         *)
(* (xc-diff) and by how much (comp-states).                                  *)
EXTENDS Vp8Decode
Sm == INSTANCE Ssim

------------------------------------------------------------------------------
(* A frame taken apart. r: what DecodeState gives for it.                    *)
Pairs(s) == [i \in 1..Len(s) |-> <<IF s[i][1] THEN 1 ELSE 0, s[i][2]>>]
(* 38 vector probabilities, 0 where not updated *)
MvNew(ups) == FoldLeft(LAMBDA a, u : [a EXCEPT ![u[1]] = u[2]], [i \in 1..38 |-> 0], ups)
HeaderSays(h) ==
  [refreshProbs |-> h.refreshProbs, seg |-> h.seg.on, lfd |-> h.lfd.on,
   upd |-> h.lfd.upd, ref |-> IF h.lfd.upd THEN Pairs(h.lfd.ref) ELSE <<>>, mode |-> IF h.lfd.upd THEN Pairs(h.lfd.mode) ELSE <<>>,
   level |-> h.level, sharp |-> h.sharp, skipOn |-> h.skipOn, skipProb |-> h.skipProb,
   refreshL |-> h.refreshL, refreshG |-> h.refreshG, refreshA |-> h.refreshA,
   pInter |-> h.pInter, pLast |-> h.pLast, pGold |-> h.pGold, ym |-> h.ym, uvm |-> h.uvm,
   mv |-> IF h.key THEN <<>> ELSE MvNew(h.mv), yq |-> h.yq, qd |-> h.qd]
(* modes 5 and more predict from other pictures *)
MbSays(m) ==
  [ym |-> m.ym, ref |-> m.ref, mv |-> IF m.ref = 0 THEN ZeroMv ELSE m.mvs[16], uvm |-> IF m.ref = 0 THEN m.uvm ELSE 0,
   bm |-> IF m.ym \in {4, 9} THEN m.bm ELSE <<>>]
BlocksSay(m, t) == IF HasY2(m) THEN t.c ELSE SubSeq(t.c, 1, 24)

------------------------------------------------------------------------------
(* States: [probs, seg, lfd], what a saved one holds besides its picture.    *)
NormSeg(s) == IF s.on THEN s ELSE NoSeg(Len(s.map))
NormLfd(s) == IF s.on THEN s ELSE NoLfd
Differ(a, b, pa, pb) ==   \* the parts that differ; pa, pb: the pictures
  LET x(what, c) == IF c THEN {what} ELSE {}
      p == x("coef", a.probs.coef # b.probs.coef) \cup x("ym", a.probs.ym # b.probs.ym)
           \cup x("uvm", a.probs.uvm # b.probs.uvm) \cup x("mv", a.probs.mv # b.probs.mv)
      s == x("seg", NormSeg(a.seg) # NormSeg(b.seg)) \cup x("lfd", NormLfd(a.lfd) # NormLfd(b.lfd))
           \cup (IF p # {} THEN p \cup {"probs"} ELSE {})
      r == IF pa # pb THEN {"refs", "last", "golden", "alt"} ELSE {}
      all == s \cup r \cup x("state", s # {})
  IN IF all = {} THEN {} ELSE all \cup {"different"}

(* bits that differ between two files; those of the longer one's end all do  *)
BitsOf(x, y) == FoldLeft(LAMBDA n, k : IF (x \div Pow2[k]) % 2 = (y \div Pow2[k]) % 2 THEN n ELSE n + 1, 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)
BitsDiffer(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      more == IF Len(a) < Len(b) THEN Len(b) - Len(a) ELSE Len(a) - Len(b)
  IN FoldLeft(LAMBDA s, i : IF a[i] = b[i] THEN s ELSE s + BitsOf(a[i], b[i]), 8 * more, [i \in 1..n |-> i])
(* samples that differ, and by how much altogether                           *)
PlaneDiffer(a, b) == FoldLeft(LAMBDA s, i : IF a[i] = b[i] THEN s ELSE <<s[1] + 1, s[2] + (IF a[i] > b[i] THEN a[i] - b[i] ELSE b[i] - a[i])>>, <<0, 0>>, [i \in 1..Len(a) |-> i])
SamplesDiffer(p, q) ==
  LET y == PlaneDiffer(p.y, q.y)  u == PlaneDiffer(p.u, q.u)  v == PlaneDiffer(p.v, q.v)
  IN <<y[1] + u[1] + v[1], y[2] + u[2] + v[2], Len(p.y) + Len(p.u) + Len(p.v)>>

------------------------------------------------------------------------------
(* Raw pictures of w x h samples, extended to whole macroblocks.             *)
Half(n) == (n + 1) \div 2
Extend(b, o, w, h, aw, ah) ==
  TLCEval([k \in 1..(aw * ah) |-> LET x == (k - 1) % aw  y == (k - 1) \div aw
                              cx == IF x < w THEN x ELSE w - 1  cy == IF y < h THEN y ELSE h - 1
                          IN b[o + (cy * w) + cx]])
Raw(b, w, h) ==
  LET aw == 16 * MbDim(w)  ah == 16 * MbDim(h)  cw == Half(w)  ch == Half(h) IN
  [y |-> Extend(b, 1, w, h, aw, ah), u |-> Extend(b, 1 + (w * h), cw, ch, aw \div 2, ah \div 2),
   v |-> Extend(b, 1 + (w * h) + (cw * ch), cw, ch, aw \div 2, ah \div 2)]
(* Alike: the likeness of each plane, in millionths.                         *)
Alike(p, q, w, h) ==
  LET aw == 16 * MbDim(w)  ah == 16 * MbDim(h)
  IN <<Sm!Ssim(p.y, q.y, aw, ah), Sm!Ssim(p.u, q.u, aw \div 2, ah \div 2), Sm!Ssim(p.v, q.v, aw \div 2, ah \div 2)>>
=============================================================================
