------------------------------ MODULE Encoder -------------------------------
(* Encoders and the decoders that follow them. An encoder keeps what its     *)
(* decoder will hold (references, probabilities, filter deltas) and, for its *)
(* own use, the last quantizer; it tries quantizers and filter levels out on *)
(* that very state before it settles, and estimates sizes on a state put     *)
(* aside. Every frame is made for one state of the decoder; decoded from any *)
(* other it gives something else.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, MaxOps, MaxTrials, Logging

VARIABLES enc,    \* name -> [has, d, lq, rt]; d: [r, p, f]: references, probabilities, filter deltas
          fol,    \* name -> [r, p, f]: a decoder fed with everything that encoder wrote
          busy,   \* <<>> or <<name, purpose, put aside>>: the operation under way
          trials, ops, log
vars == <<enc, fol, busy, trials, ops, log>>

Mod == 31
Fresh == [r |-> 0, p |-> 0, f |-> 0]
Name(d) == ((d.r * 3) + (d.p * 5) + (d.f * 7)) % Mod
(* A frame: made for state `on`; key frames for any.                         *)
Frame(key, d, c, q, f) == [key |-> key, on |-> IF key THEN 0 ELSE Name(d), c |-> c, q |-> q, f |-> f, save |-> c % 2 = 0]
Decoded(d, x) ==
  LET b == IF x.key THEN Fresh ELSE d IN
  [r |-> ((IF x.key THEN 0 ELSE Name(d)) + (x.c * 11) + x.q + x.on + x.f) % Mod,
   p |-> IF x.save THEN (b.p + x.c + 1) % Mod ELSE b.p,
   f |-> x.f]
Step(op) == ops < MaxOps /\ busy = <<>> /\ ops' = ops + 1 /\ log' = IF Logging THEN Append(log, op) ELSE log
Idle == busy' = <<>> /\ trials' = 0
Init == enc = <<>> /\ fol = <<>> /\ busy = <<>> /\ trials = 0 /\ ops = 0 /\ log = <<>>

New(n, rt) ==
  /\ Step([op |-> "new", a |-> n, rt |-> rt]) /\ Idle
  /\ enc' = (n :> [has |-> FALSE, d |-> Fresh, lq |-> -1, rt |-> rt]) @@ enc
  /\ fol' = (n :> Fresh) @@ fol
(* From the decoder following m.                                             *)
From(m, n, rt) ==
  /\ m \in DOMAIN fol /\ m # n
  /\ Step([op |-> "from", a |-> m, b |-> n, rt |-> rt]) /\ Idle
  /\ enc' = (n :> [has |-> TRUE, d |-> fol[m], lq |-> -1, rt |-> rt]) @@ enc
  /\ fol' = (n :> fol[m]) @@ fol
Fork(m, n) ==
  /\ m \in DOMAIN enc /\ m # n
  /\ Step([op |-> "fork", a |-> m, b |-> n]) /\ Idle
  /\ enc' = (n :> enc[m]) @@ enc /\ fol' = (n :> fol[m]) @@ fol
Drop(n) ==
  /\ n \in DOMAIN enc
  /\ Step([op |-> "drop", a |-> n]) /\ Idle
  /\ enc' = [x \in DOMAIN enc \ {n} |-> enc[x]] /\ fol' = [x \in DOMAIN fol \ {n} |-> fol[x]]
(* Operations of several steps: what for, the picture.                       *)
Begin(n, what, c) ==
  /\ n \in DOMAIN enc /\ (what = "re" => enc[n].has)
  /\ Step([op |-> what, a |-> n, c |-> c])
  /\ busy' = <<n, what, c, enc[n].d>> /\ trials' = 0
  /\ UNCHANGED <<enc, fol>>
(* Trying: the filter deltas (and, estimating, everything) are overwritten.  *)
Try ==
  /\ busy # <<>> /\ trials < MaxTrials
  /\ trials' = trials + 1
  /\ enc' = [enc EXCEPT ![busy[1]].d = IF busy[2] = "est" THEN [r |-> @.r, p |-> 0, f |-> trials + 1] ELSE [@ EXCEPT !.f = trials + 1]]
  /\ UNCHANGED <<fol, busy, ops, log>>
(* Settling: the frame is written for the state of before; its header says   *)
(* what the deltas are to be.                                                *)
Settle ==
  /\ busy # <<>> /\ trials > 0
  /\ LET n == busy[1]  e == enc[n] IN
     IF busy[2] = "est" THEN enc' = [enc EXCEPT ![n].d = busy[4]] /\ UNCHANGED fol
     ELSE \E q \in {0, 1} :
       LET x == Frame(~e.has, busy[4], busy[3], q, e.d.f) IN
       /\ enc' = [enc EXCEPT ![n] = [@ EXCEPT !.has = TRUE, !.d = Decoded(busy[4], x), !.lq = IF e.rt THEN q ELSE -1]]
       /\ fol' = [fol EXCEPT ![n] = Decoded(@, x)]
  /\ Idle /\ UNCHANGED <<ops, log>>
Next ==
  \/ \E n \in Names, rt \in BOOLEAN : New(n, rt) \/ \E m \in Names : From(m, n, rt)
  \/ \E m, n \in Names : Fork(m, n)
  \/ \E n \in Names : Drop(n)
  \/ \E n \in Names, w \in {"q", "s", "t", "est", "re"}, c \in 1..2 : Begin(n, w, c)
  \/ Try \/ Settle
Spec == Init /\ [][Next]_vars

LockStep == \A n \in DOMAIN enc : (busy = <<>> \/ busy[1] # n) => enc[n].d = fol[n]
Others == [][busy # <<>> => \A n \in DOMAIN enc \ {busy[1]} : enc'[n] = enc[n]]_vars
FirstIsKey == \A n \in DOMAIN enc : ~enc[n].has => fol[n] = Fresh
EstimatesLeaveNothing == [][busy # <<>> /\ busy[2] = "est" /\ busy' = <<>> => enc'[busy[1]].d = busy[4]]_vars
Emit == ops = MaxOps /\ busy = <<>> => PrintT(<<"SCHED", ToJson(log)>>)
View == <<enc, fol, busy, trials, ops>>
=============================================================================
