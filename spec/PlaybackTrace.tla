---------------------------- MODULE PlaybackTrace ---------------------------
EXTENDS TraceKit
P == INSTANCE Playback
VARIABLES plan, n, ready, reading, s
vars == <<tid, l, plan, n, ready, reading, s>>
None == [out |-> <<>>, stop |-> {}, begins |-> <<>>]
Init == TInit /\ plan = None /\ n = 0 /\ ready = 0 /\ reading = 0 /\ s = [fps |-> 1, over |-> 0, valid |-> FALSE]
File == /\ IsEvent("file")
        /\ plan' = (IF Ev.valid THEN P!Plan(Ev.file, Ev.fps) ELSE [None EXCEPT !.stop = {"error"}])
        /\ s' = [fps |-> Ev.fps, over |-> Ev.over, valid |-> Ev.valid]
        /\ n' = 0 /\ ready' = 0 /\ reading' = 0
Start == IsEvent("start") /\ UNCHANGED <<plan, n, ready, reading, s>>
Read == IsEvent("read") /\ reading' = reading + Ev.us /\ UNCHANGED <<plan, n, ready, s>>
OnTime(k, at) == /\ at >= P!Soonest(k - 1, s.fps)
                 /\ at <= P!Larger(P!Latest(k - 1, s.fps) + s.over, ready) + reading
Write == /\ IsEvent("write")
         /\ LET m == Len(Ev.b) IN
            /\ m > 0 /\ n + m <= Len(plan.out) /\ Ev.b = SubSeq(plan.out, n + 1, n + m)
            /\ \A k \in 1..Len(plan.begins) : plan.begins[k] \in (n + 1)..(n + m) => OnTime(k, Ev.at)
            /\ n' = n + m
         /\ ready' = Ev.done /\ reading' = 0 /\ UNCHANGED <<plan, s>>
Exit == /\ IsEvent("exit") /\ n = Len(plan.out)
        /\ (IF Ev.ok THEN "end" ELSE "error") \in plan.stop
        /\ UNCHANGED <<plan, n, ready, reading, s>>
Next == File \/ Start \/ Read \/ Write \/ Exit
TraceSpec == Init /\ [][Next]_vars
=============================================================================
