----------------------------- MODULE PacerTrace -----------------------------
EXTENDS TraceKit
P == INSTANCE Pacer
VARIABLE p
vars == <<tid, l, p>>
Init == TInit /\ p = P!PInit
Look(q) == /\ Ev.ms = P!Wait(q) /\ Ev.size = Len(q.q) /\ Ev.empty = (q.q = <<>>)
           /\ Ev.front = IF q.q = <<>> THEN "" ELSE Head(q.q).id
Next == \/ IsEvent("new") /\ p' = p /\ Look(p')
        \/ IsEvent("push") /\ p' = P!Push(p, Ev.id, Ev.delay) /\ Look(p')
        \/ IsEvent("tick") /\ p' = P!Tick(p, Ev.dt) /\ Look(p')
        \/ IsEvent("pop") /\ p.q # <<>> /\ Ev.id = Head(p.q).id /\ p' = P!Pop(p) /\ Look(p')
TraceSpec == Init /\ [][Next]_vars
=============================================================================
