----------------------------- MODULE SavedState -----------------------------
(* A decoder state as a file. What is written: the probabilities, the        *)
(* segmentation with its map, the loop-filter adjustments, and one reference *)
(* picture (chunks begin and end where the three coincide). The sizes of the *)
(* tables are constants so that the design can be checked on small ones.     *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS CoefN, YmN, UvN, MvN, SegN, AdjN, Mb

U8(v) == v % 256
S8(b) == IF b > 127 THEN b - 256 ELSE b
Le2(n) == <<n % 256, (n \div 256) % 256>>
Le4(n) == Le2(n % 65536) \o Le2(n \div 65536)
N2(b, i) == b[i] + 256 * b[i + 1]
N4(b, i) == IF b[i + 3] > 127 THEN -1 ELSE N2(b, i) + 65536 * N2(b, i + 2)
Pad(n) == Mb * ((n + Mb - 1) \div Mb)
Luma(w, h) == Pad(w) * Pad(h)
Chroma(w, h) == (Pad(w) \div 2) * (Pad(h) \div 2)
Each(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
Cut(b, i, n) == SubSeq(b, i, i + n - 1)

TProb == 0
TAdj == 1
TAbs == 2
TRel == 3
TState == 4
TNone == 5
TSome == 6
TRefs == 7
TLast == 8
TDecoder == 11
ProbN == CoefN + YmN + UvN + MvN

(* A state: [w, h, coef, ym, uvm, mv, seg, lfd, ref] with seg = [on] or      *)
(* [on, abs, w, h, q, lf, map], lfd = [on] or [on, ref, mode], ref = [w, h,  *)
(* y, u, v].                                                                 *)
WSeg(g) == IF ~g.on THEN <<TNone>>
           ELSE <<TSome, IF g.abs THEN TAbs ELSE TRel>> \o Le4(4 + 2 * SegN + g.w * g.h) \o Le2(g.w) \o Le2(g.h)
                \o Each(U8, g.q) \o Each(U8, g.lf) \o g.map
WAdj(a) == IF ~a.on THEN <<TNone>> ELSE <<TSome, TAdj>> \o Le4(2 * AdjN) \o Each(U8, a.ref) \o Each(U8, a.mode)
WState(s) == LET b == <<TProb>> \o Le4(ProbN) \o s.coef \o s.ym \o s.uvm \o s.mv \o WSeg(s.seg) \o WAdj(s.lfd)
             IN <<TState>> \o Le4(4 + Len(b)) \o Le2(s.w) \o Le2(s.h) \o b
WRefs(r) == LET b == <<TLast>> \o Le4(Len(r.y) + Len(r.u) + Len(r.v)) \o r.y \o r.u \o r.v
            IN <<TRefs>> \o Le4(4 + Len(b)) \o Le2(r.w) \o Le2(r.h) \o b
Write(s) == LET b == WState(s) \o WRefs(s.ref) IN <<TDecoder>> \o Le4(Len(b)) \o b

(* Reading. Every part gives [ok, at, v, fine]: `fine` is false when the     *)
(* bytes make sense although no writer wrote them (a length that is not the  *)
(* one of what follows, sizes that do not agree): there a reader may take    *)
(* what is there or refuse.                                                  *)
No == [ok |-> FALSE, at |-> 0, v |-> <<>>, fine |-> FALSE]
Head5(b, i, tag) == i + 4 <= Len(b) /\ b[i] = tag
RSeg(b, i) ==
  IF i > Len(b) THEN No
  ELSE IF b[i] = TNone THEN [ok |-> TRUE, at |-> i + 1, v |-> [on |-> FALSE], fine |-> TRUE]
  ELSE IF b[i] # TSome \/ ~(Head5(b, i + 1, TAbs) \/ Head5(b, i + 1, TRel)) \/ i + 9 > Len(b) THEN No
  ELSE LET w == N2(b, i + 6)  h == N2(b, i + 8)  n == 4 + 2 * SegN + w * h  j == i + 10 IN
       IF w > 4096 \/ h > 4096 THEN No
       ELSE IF N4(b, i + 2) # n \/ j + 2 * SegN + w * h - 1 > Len(b) THEN No
       ELSE LET map == Cut(b, j + 2 * SegN, w * h) IN
            [ok |-> TRUE, at |-> j + 2 * SegN + w * h,
             v |-> [on |-> TRUE, abs |-> b[i + 1] = TAbs, w |-> w, h |-> h, q |-> Each(S8, Cut(b, j, SegN)), lf |-> Each(S8, Cut(b, j + SegN, SegN)), map |-> map],
             fine |-> \A k \in 1..Len(map) : map[k] < SegN]
RAdj(b, i) ==
  IF i > Len(b) THEN No
  ELSE IF b[i] = TNone THEN [ok |-> TRUE, at |-> i + 1, v |-> [on |-> FALSE], fine |-> TRUE]
  ELSE IF b[i] # TSome \/ ~Head5(b, i + 1, TAdj) THEN No
  ELSE IF N4(b, i + 2) # 2 * AdjN \/ i + 5 + 2 * AdjN > Len(b) THEN No
  ELSE [ok |-> TRUE, at |-> i + 6 + 2 * AdjN, v |-> [on |-> TRUE, ref |-> Each(S8, Cut(b, i + 6, AdjN)), mode |-> Each(S8, Cut(b, i + 6 + AdjN, AdjN))], fine |-> TRUE]
RState(b, i) ==
  IF ~Head5(b, i, TState) \/ i + 8 > Len(b) THEN No
  ELSE IF N4(b, i + 1) < 0 \/ i + 4 + N4(b, i + 1) > Len(b) THEN No
  ELSE LET w == N2(b, i + 5)  h == N2(b, i + 7)  p == i + 9 IN
       IF ~Head5(b, p, TProb) THEN No
       ELSE IF N4(b, p + 1) # ProbN \/ p + 4 + ProbN > Len(b) THEN No
       ELSE LET g == RSeg(b, p + 5 + ProbN)  a == RAdj(b, g.at) IN
            IF ~g.ok THEN No
            ELSE IF ~a.ok THEN No
            ELSE LET q == p + 5 IN
                 [ok |-> TRUE, at |-> a.at,
                  v |-> [w |-> w, h |-> h, coef |-> Cut(b, q, CoefN), ym |-> Cut(b, q + CoefN, YmN), uvm |-> Cut(b, q + CoefN + YmN, UvN),
                         mv |-> Cut(b, q + CoefN + YmN + UvN, MvN), seg |-> g.v, lfd |-> a.v],
                  fine |-> /\ g.fine /\ a.at = i + 5 + N4(b, i + 1)
                           /\ (g.v.on => g.v.w = w /\ g.v.h = h)]
RRefs(b, i) ==
  IF ~Head5(b, i, TRefs) \/ i + 8 > Len(b) THEN No
  ELSE IF N4(b, i + 1) < 0 \/ i + 4 + N4(b, i + 1) > Len(b) THEN No
  ELSE LET w == N2(b, i + 5)  h == N2(b, i + 7)  p == i + 9 IN
       IF ~Head5(b, p, TLast) \/ w > 8192 \/ h > 8192 THEN No
       ELSE LET n == Luma(w, h)  m == Chroma(w, h) IN
            IF N4(b, p + 1) # n + 2 * m \/ p + 4 + n + 2 * m > Len(b) THEN No
            ELSE [ok |-> TRUE, at |-> p + 5 + n + 2 * m,
                  v |-> [w |-> w, h |-> h, y |-> Cut(b, p + 5, n), u |-> Cut(b, p + 5 + n, m), v |-> Cut(b, p + 5 + n + m, m)],
                  fine |-> i + 4 + N4(b, i + 1) = p + 4 + n + 2 * m]
(* <<read, exactly as a writer writes it, state>>                            *)
Parse(b) ==
  IF ~Head5(b, 1, TDecoder) THEN <<FALSE, FALSE, <<>>>>
  ELSE IF N4(b, 2) # Len(b) - 5 THEN <<FALSE, FALSE, <<>>>>
  ELSE LET s == RState(b, 6)  r == RRefs(b, s.at) IN
       IF ~s.ok THEN <<FALSE, FALSE, <<>>>>
       ELSE IF ~r.ok THEN <<FALSE, FALSE, <<>>>>
       ELSE IF r.at # Len(b) + 1 THEN <<FALSE, FALSE, <<>>>>
       ELSE <<TRUE, s.fine /\ r.fine /\ s.v.w = r.v.w /\ s.v.h = r.v.h,
              [w |-> s.v.w, h |-> s.v.h, coef |-> s.v.coef, ym |-> s.v.ym, uvm |-> s.v.uvm, mv |-> s.v.mv, seg |-> s.v.seg, lfd |-> s.v.lfd, ref |-> r.v]>>
=============================================================================
