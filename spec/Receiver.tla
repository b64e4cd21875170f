------------------------------ MODULE Receiver ------------------------------
(* The Salsify receiver: what one datagram of a video session does to it.     *)
(* States of the video decoder are opaque values; `D(s, g, k)` is the state   *)
(* the decoder reaches from s by decoding the first k fragments of frame g.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

NoBuf == [g |-> -1, src |-> -1, tgt |-> -1, n |-> 0, have |-> {}]

RInit(init) == [next |-> 0, buf |-> NoBuf, player |-> init, cur |-> init, init |-> init,
                complete |-> <<>>, stored |-> {init}, av |-> -1, lastT |-> 0]

(* contiguous leading fragments present *)
Prefix(buf) == CHOOSE k \in 0..buf.n : (\A i \in 0..(k - 1) : i \in buf.have) /\ k \notin buf.have

(* states listed before the first occurrence of s (all of them if s is not listed) *)
Dropped(list, s) == LET idx == {i \in 1..Len(list) : list[i] = s}
                    IN IF idx = {} THEN Len(list) ELSE Min(idx) - 1
                    
(* `careless` describes a faulty receiver that discards a dropped state even if it is listed again further on *)
Prune(r, s, careless) ==
  LET k    == Dropped(r.complete, s)
      rest == SubSeq(r.complete, k + 1, Len(r.complete))
      gone == {r.complete[i] : i \in 1..k}
  IN [r EXCEPT !.complete = rest, !.stored = @ \ (IF careless THEN gone ELSE gone \ ToSet(rest))]

(* give up the unfinished frame when a later one shows up *)
Advance(r, fno, D(_, _, _)) ==
  IF fno <= r.next THEN [r |-> r, applied |-> <<>>]
  ELSE LET k == IF r.buf.n = 0 THEN 0 ELSE Prefix(r.buf)
           s == IF k > 0 THEN D(r.player, r.buf.g, k) ELSE r.player
       IN [r |-> [r EXCEPT !.next = fno, !.buf = NoBuf, !.player = s, !.cur = s],
           applied |-> IF k > 0 THEN <<[g |-> r.buf.g, k |-> k, from |-> r.player, to |-> s, whole |-> FALSE]>> ELSE <<>>]

AddFragment(r, p) ==
  [r EXCEPT !.buf = IF @.n = 0 THEN [g |-> p.g, src |-> p.src, tgt |-> p.tgt, n |-> p.n, have |-> {p.frag}]
                    ELSE [@ EXCEPT !.have = @ \cup {p.frag}]]

ApplyIfWhole(r, D(_, _, _), careless) ==
  IF Cardinality(r.buf.have) # r.buf.n THEN [r |-> r, applied |-> <<>>]
  ELSE LET b    == r.buf
           base == IF r.cur # b.src /\ b.src \in r.stored THEN b.src ELSE r.player
           r1   == [r EXCEPT !.player = base, !.cur = base]
           r2   == IF base = b.src /\ b.src # r.init THEN Prune(r1, b.src, careless) ELSE r1
           s    == D(base, b.g, b.n)
           r3   == [r2 EXCEPT !.player = s, !.cur = s, !.next = @ + 1, !.buf = NoBuf]
           r4   == IF s = b.tgt /\ s # r.init
                   THEN [r3 EXCEPT !.complete = Append(@, s), !.stored = @ \cup {s}] ELSE r3
       IN [r |-> r4, applied |-> <<[g |-> b.g, k |-> b.n, from |-> base, to |-> s, whole |-> TRUE]>>]

(* smoothed inter-packet delay, in hundredths of a microsecond, rounded down *)
Smooth(r, t, grace) ==
  LET gap == IF t - r.lastT - grace < 0 THEN 0 ELSE t - r.lastT - grace
  IN [r EXCEPT !.av = IF @ < 0 THEN 0 ELSE (gap * 100 + 9 * @) \div 10, !.lastT = t]

(* the whole step.  p = [fno, frag, n, src, tgt, g, grace], t arrival time *)
RecvStep(r, p, t, D(_, _, _), careless) ==
  IF p.fno < r.next THEN [r |-> r, applied |-> <<>>, acked |-> FALSE]
  ELSE LET a == Advance(r, p.fno, D)
           b == ApplyIfWhole(AddFragment(a.r, p), D, careless)
       IN [r |-> Smooth(b.r, t, p.grace), applied |-> a.applied \o b.applied, acked |-> TRUE]

(* what the acknowledgement says *)
AckOf(r, p) == [fno |-> p.fno, frag |-> p.frag, cur |-> r.cur, complete |-> r.complete]
(* the delay reported may differ from the rational value by the rounding of the smoothing *)
DelayOk(r, d) == d \in {(r.av + e) \div 100 : e \in {0, 12}}
=============================================================================
