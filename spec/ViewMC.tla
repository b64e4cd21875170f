------------------------------- MODULE ViewMC -------------------------------
(* Assignment between holders as the steps it is made of (destroy, construct, *)
(* set the flag), any copy of which may fail: no object is made where one     *)
(* is, destroyed twice or used when gone.  The program that sets the flag     *)
(* before the copy (Early), or does not look whether it is assigned to itself *)
(* (Blind), does not have these properties.                                   *)
EXTENDS View
CONSTANTS Slots, Early, Blind, Ops
VARIABLES flag, there, pc, from, to, wrong, n
vars == <<flag, there, pc, from, to, wrong, n>>
Init == flag = [s \in Slots |-> FALSE] /\ there = flag /\ pc = "idle" /\ from = (CHOOSE s \in Slots : TRUE) /\ to = from /\ wrong = FALSE /\ n = 0
Kill(s) == there' = [there EXCEPT ![s] = FALSE] /\ wrong' = (wrong \/ ~there[s])
Fill(s) == pc = "idle" /\ n < Ops /\ ~flag[s] /\ flag' = [flag EXCEPT ![s] = TRUE] /\ there' = [there EXCEPT ![s] = TRUE] /\ wrong' = (wrong \/ there[s]) /\ n' = n + 1 /\ UNCHANGED <<pc, from, to>>
Clear(s) == /\ pc = "idle" /\ n < Ops /\ n' = n + 1 /\ flag' = [flag EXCEPT ![s] = FALSE]
            /\ IF flag[s] THEN Kill(s) ELSE UNCHANGED <<there, wrong>>
            /\ UNCHANGED <<pc, from, to>>
Begin(s, t) == /\ pc = "idle" /\ n < Ops /\ n' = n + 1 /\ from' = s /\ to' = t
               /\ IF s = t /\ ~Blind THEN pc' = "idle" /\ UNCHANGED <<flag, there, wrong>>
                  ELSE /\ pc' = "destroyed"
                       /\ IF flag[t] THEN Kill(t) ELSE UNCHANGED <<there, wrong>>
                       /\ flag' = [flag EXCEPT ![t] = IF Early THEN flag[s] ELSE IF Blind /\ s = t THEN @ ELSE FALSE]
Copy == /\ pc = "destroyed" /\ pc' = "idle" /\ UNCHANGED <<from, to, n>>
        /\ IF flag[from] THEN \/ there' = [there EXCEPT ![to] = TRUE] /\ wrong' = (wrong \/ there[to] \/ ~there[from]) /\ flag' = [flag EXCEPT ![to] = TRUE]
                              \/ UNCHANGED <<there, wrong, flag>>                                     \* the copy fails
           ELSE UNCHANGED <<there, wrong, flag>>
Next == \E s \in Slots : Fill(s) \/ Clear(s) \/ Copy \/ \E t \in Slots : Begin(s, t)
Spec == Init /\ [][Next]_vars
Once == ~wrong /\ (pc = "idle" => flag = there)
(* parts of parts are parts; bits and bytes agree *)
Bs == UNION {[1..k -> {0, 1, 255}] : k \in 0..4}
ASSUME \A b \in Bs : \A o, l, p, m \in 0..4 : Fits(b, o, l) /\ Fits(Part(b, o, l), p, m) => Fits(b, o + p, m) /\ Part(Part(b, o, l), p, m) = Part(b, o + p, m)
ASSUME \A b \in Bs : \A o \in 0..12, l \in 1..12 : BitsGood(b, o, l) => \A k \in 1..l : Bits(b, o, l)[k] = Bits(b, o + k - 1, 1)[1]
=============================================================================
