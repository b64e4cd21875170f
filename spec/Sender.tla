------------------------------- MODULE Sender -------------------------------
(* The Salsify sender's book-keeping: which states it holds, what it believes *)
(* about the receiver, which state it encodes from, what it sends.            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

None == -1
SInit(init) == [n |-> 0, cum |-> <<>>, known |-> <<>>, init |-> init,
                acked |-> FALSE, ackSeq |-> 0, ackState |-> None, ackComplete |-> <<>>,
                delay |-> None, assumed |-> None, consUntil |-> 0, skipped |-> 0, lastQ |-> 64]

Known(s) == ToSet(s.known) \cup {s.init}
SentFragments(s) == IF s.n = 0 THEN 0 ELSE s.cum[s.n]
Seq0(s, a) == (IF a.fno = 0 THEN 0 ELSE s.cum[a.fno]) + a.frag

(* acknowledgements: newest wins; equal sequence numbers are news too *)
OnAck(s, a) ==
  IF s.acked /\ Seq0(s, a) < s.ackSeq THEN s
  ELSE [s EXCEPT !.acked = TRUE, !.ackSeq = Seq0(s, a), !.ackState = a.cur, !.ackComplete = a.complete, !.delay = a.delay]

(* forget old states once the receiver is known to be in a known one *)
Cleanup(s) ==
  IF ~s.acked \/ s.ackState = s.init \/ s.ackState \notin Known(s) THEN s
  ELSE LET idx == {i \in 1..Len(s.known) : s.known[i] \in {s.ackState, s.assumed}}
           k   == IF idx = {} THEN Len(s.known) + 1 ELSE Min(idx)
       IN [s EXCEPT !.known = SubSeq(@, k, Len(@))]

(* where to restart from when the receiver is lost: the newest state it lists, if there is one and it is
   still at hand, otherwise the initial state.  `careless` describes a faulty sender that takes a listed
   state for granted: acknowledgements that overtake each other can make it one already forgotten. *)
Fallback(s, careless) ==
  LET c == s.ackComplete
  IN IF c = <<>> THEN s.init
     ELSE IF careless \/ c[Len(c)] \in Known(s) THEN c[Len(c)] ELSE s.init
Bad(s) == s.acked /\ s.ackState \notin Known(s)
(* source state for the frame captured at `now`, and the new end of the conservative period *)
Select(s, now, period, careless) ==
  IF now < s.consUntil THEN [src |-> Fallback(s, careless), s |-> s]
  ELSE IF Bad(s) THEN [src |-> Fallback(s, careless), s |-> [s EXCEPT !.consUntil = now + period]]
  ELSE IF s.assumed = None THEN [src |-> s.init, s |-> s]
  ELSE [src |-> s.assumed, s |-> s]

(* rate: bytes that may be sent now.  A delay of zero counts as one. *)
Unlimited == 2000000000
Capacity(s, payload, maxDelay) ==
  IF s.delay = None THEN Unlimited
  ELSE LET d == IF s.delay = 0 THEN 1 ELSE s.delay
           c == (maxDelay \div d) - (SentFragments(s) - s.ackSeq)
       IN IF c < 0 THEN 0 ELSE IF c > 100000 THEN Unlimited ELSE payload * c

(* which of the encodings to send: the largest that fits, 0 to skip the frame *)
Fits(sizes, cap) == {i \in 1..Len(sizes) : sizes[i] <= cap}
Best(sizes, cap) == {i \in Fits(sizes, cap) : \A j \in Fits(sizes, cap) : sizes[j] <= sizes[i]}
ToSend(s, sizes, cap, maxSkip) ==
  IF Fits(sizes, cap) # {} THEN Best(sizes, cap)
  ELSE IF s.skipped < maxSkip THEN {0} ELSE {Len(sizes)}

Clamp(q) == IF q < 3 THEN 3 ELSE IF q > 127 THEN 127 ELSE q
Quantizers(s) == <<Clamp(s.lastQ - 17), Clamp(s.lastQ + 23)>>

Skip(s) == [s EXCEPT !.skipped = @ + 1]
Send(s, tgt, nfrag, q) ==
  [s EXCEPT !.n = @ + 1, !.cum = Append(@, SentFragments(s) + nfrag), !.known = Append(@, tgt),
            !.assumed = tgt, !.skipped = 0, !.lastQ = q]
InterSend(s) == IF s.delay = None THEN 2000
                ELSE IF s.delay \div 5 < 500 THEN 500 ELSE IF s.delay \div 5 > 2000 THEN 2000 ELSE s.delay \div 5
=============================================================================
