------------------------------- MODULE Search -------------------------------
(* How the encoder looks for a quantizer: by halving, over a range, asking   *)
(* each time whether the one in the middle will do. What the sizes and       *)
(* qualities of quantizers are is not in its hands: nothing says that they   *)
(* are ordered, so every table is considered.                                *)
EXTENDS Integers, TLC
CONSTANT N
VARIABLES kind,    \* "size": finest that fits; "quality": coarsest that reaches
          first, last, ok, lo, hi, best, asked, done
vars == <<kind, first, last, ok, lo, hi, best, asked, done>>
Init ==
  /\ kind \in {"size", "quality"} /\ first \in 0..N /\ last \in first..N
  /\ ok \in [first..last -> BOOLEAN]
  /\ lo = first /\ hi = last /\ best = -1 /\ asked = 0 /\ done = FALSE
Mid == (lo + hi) \div 2
Better(q) == IF kind = "size" THEN lo' = lo /\ hi' = q - 1 ELSE lo' = q + 1 /\ hi' = hi
Worse(q) == IF kind = "size" THEN lo' = q + 1 /\ hi' = hi ELSE lo' = lo /\ hi' = q - 1
Ask ==
  /\ ~done /\ lo <= hi
  /\ asked' = asked + 1
  /\ IF ok[Mid] THEN best' = Mid ELSE best' = IF lo = hi /\ best = -1 THEN Mid ELSE best
  /\ IF kind = "quality" /\ lo = hi THEN lo' = lo /\ hi' = hi - 1 ELSE IF ok[Mid] \/ (lo = hi /\ best = -1 /\ kind = "size") THEN Better(Mid) ELSE Worse(Mid)
  /\ UNCHANGED <<kind, first, last, ok, done>>
End ==
  /\ ~done /\ lo > hi /\ done' = TRUE
  /\ best' = IF best = -1 THEN first ELSE best    \* quality: the finest is used when nothing reaches it
  /\ UNCHANGED <<kind, first, last, ok, lo, hi, asked>>
Next == Ask \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Monotone == IF kind = "size" THEN \A a, b \in first..last : a < b /\ ok[a] => ok[b] ELSE \A a, b \in first..last : a < b /\ ok[b] => ok[a]
(* What can be told of the outcome whatever the table.                       *)
Result == done =>
  IF kind = "size" THEN \/ ok[best] /\ (best = first \/ ~ok[best - 1])
                        \/ best = last /\ ~ok[last]
  ELSE \/ ok[best] /\ (best = last \/ ~ok[best + 1])
       \/ best = first /\ ~ok[first]
(* In an ordered table it is the best.                                       *)
Best == done /\ Monotone =>
  IF kind = "size" THEN \A q \in first..last : ok[q] => ok[best] /\ best <= q
  ELSE \A q \in first..last : ok[q] => ok[best] /\ best >= q
Honoured == done => IF kind = "size" THEN ok[last] => ok[best] ELSE ok[first] => ok[best]
Few == asked <= 8
Terminates == <>done
=============================================================================
