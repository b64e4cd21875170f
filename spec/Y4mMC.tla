------------------------------- MODULE Y4mMC --------------------------------
(* Writing then reading gives the pictures back, for every size up to MaxDim  *)
(* and every point at which the file may be cut.                              *)
EXTENDS Y4m, TLC
CONSTANT MaxDim, MaxPics
VARIABLES w, h, n, cut
Sample(k, i) == (7 * k + 13 * i + k * i) % 256
Raw(ww, hh, k) == Marker \o [i \in 1..FrameBytes(ww, hh) |-> Sample(k, i)]
Num(x) == IF x < 10 THEN <<48 + x>> ELSE <<48 + x \div 10, 48 + (x % 10)>>
HeadLine(ww, hh) == Magic \o <<32, 87>> \o Num(ww) \o <<32, 72>> \o Num(hh) \o <<10>>
File(ww, hh, k) == FoldLeft(LAMBDA acc, i : acc \o Raw(ww, hh, i), HeadLine(ww, hh), [i \in 1..k |-> i])
Init == w \in 1..MaxDim /\ h \in 1..MaxDim /\ n \in 0..MaxPics /\ cut = 0
Next == cut < Len(File(w, h, n)) /\ cut' = cut + 1 /\ UNCHANGED <<w, h, n>>
Spec == Init /\ [][Next]_<<w, h, n, cut>>
RoundTrip ==
  LET f == File(w, h, n)
      b == SubSeq(f, 1, Len(f) - cut)
      hd == ParseHeader(b)
      r == Reading(b, hd)
  IN hd.ok => /\ (cut = 0 => hd.w = w /\ hd.h = h /\ Len(r.pics) = n /\ r.stop = {"end"})
              /\ Len(r.pics) <= n
              /\ hd.closed => \A i \in 1..Len(r.pics) : Written(Picture(b, r.pics[i], w, h), w, h) = Raw(w, h, i)
              /\ (hd.closed /\ cut > 0 /\ r.stop = {"end"}) => (cut % Len(Raw(w, h, 1)) = 0)
=============================================================================
