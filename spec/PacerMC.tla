------------------------------ MODULE PacerMC -------------------------------
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS MaxPush, Delays, Ticks, EmitLen, MaxTick
P == INSTANCE Pacer
VARIABLES p, n, out, hist, log, t
vars == <<p, n, out, hist, log, t>>
(* hist: for each packet queued, when it was queued, with which delay, and whether the queue was empty;
   out: packets that left, with the time *)
Init == p = P!PInit /\ n = 0 /\ out = <<>> /\ hist = <<>> /\ log = <<>> /\ t = 0
Push == /\ n < MaxPush
        /\ \E d \in Delays :
             /\ p' = P!Push(p, n + 1, d)
             /\ hist' = Append(hist, [at |-> p.now, delay |-> d, alone |-> p.q = <<>>])
             /\ log' = Append(log, <<"push", n + 1, d>>)
        /\ n' = n + 1 /\ UNCHANGED <<out, t>>
Tick == t < MaxTick /\ t' = t + 1 /\ \E d \in Ticks : p' = P!Tick(p, d) /\ log' = Append(log, <<"tick", d, 0>>) /\ UNCHANGED <<n, out, hist>>
Pop == /\ P!Ready(p) /\ p' = P!Pop(p) /\ out' = Append(out, [id |-> Head(p.q).id, at |-> p.now])
       /\ log' = Append(log, <<"pop", 0, 0>>) /\ UNCHANGED <<n, hist, t>>
Next == Push \/ Tick \/ Pop
Spec == Init /\ [][Next]_vars
View == <<p, n, out, hist>>
(* in order, none lost or repeated *)
InOrder == /\ \A i \in 1..Len(out) : out[i].id = i
           /\ \A i \in 1..Len(p.q) : p.q[i].id = Len(out) + i
           /\ Len(out) + Len(p.q) = n
(* never a whole millisecond early; spaced from the packet before it *)
Paced == \A i \in 1..Len(p.q) : IF hist[p.q[i].id].alone THEN p.q[i].due = hist[p.q[i].id].at
                                 ELSE i > 1 => p.q[i].due = p.q[i - 1].due + hist[p.q[i].id].delay
NotEarly == \A i \in 1..Len(out) : out[i].at >= hist[out[i].id].at
(* it waits no longer than until the packet is due *)
NoOversleep == p.q # <<>> /\ Head(p.q).due >= p.now => p.now + 1000 * P!Wait(p) <= Head(p.q).due
Emit == Len(log) = EmitLen => PrintT(<<"SCHED", ToJson(log)>>)
=============================================================================
