------------------------------- MODULE Pacer --------------------------------
(* The queue that paces outgoing packets.  Times in microseconds.             *)
EXTENDS Integers, Sequences
PInit == [q |-> <<>>, now |-> 0]
DueOf(p, delay) == IF p.q = <<>> THEN p.now ELSE p.q[Len(p.q)].due + delay
Push(p, id, delay) == [p EXCEPT !.q = Append(@, [id |-> id, due |-> DueOf(p, delay)])]
Tick(p, dt) == [p EXCEPT !.now = @ + dt]
Pop(p) == [p EXCEPT !.q = Tail(@)]
(* whole milliseconds until the first packet is due; an arbitrary second when there is none *)
Wait(p) == IF p.q = <<>> THEN 1000
           ELSE LET d == Head(p.q).due - p.now IN IF d <= 0 THEN 0 ELSE d \div 1000
Ready(p) == p.q # <<>> /\ Wait(p) = 0
=============================================================================
