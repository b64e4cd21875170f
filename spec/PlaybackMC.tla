----------------------------- MODULE PlaybackMC -----------------------------
(* The player (sleep until due, read, write) against a reader that takes its  *)
(* time.  Due counts from the start; a player that counts from when it woke   *)
(* (Drift) is late for ever after one delay, one that drops what is overdue   *)
(* (Skip) loses pictures.                                                     *)
EXTENDS Integers, Sequences
CONSTANTS Pictures, Gap, Slow, Over, Player      \* Player: "fixed", "drift", "skip"
VARIABLES now, due, next, log, ready, pc, k
vars == <<now, due, next, log, ready, pc, k>>
Init == now = 0 /\ due = 0 /\ next = 1 /\ log = <<>> /\ ready = 0 /\ pc = "sleep" /\ k = 0
Sleep == /\ pc = "sleep" /\ pc' = "read"
         /\ \E o \in 0..Over : now' = IF now < due THEN due + o ELSE now
         /\ due' = IF Player = "drift" THEN now' + Gap ELSE due + Gap
         /\ UNCHANGED <<next, log, ready, k>>
Read == /\ pc = "read"
        /\ IF next > Pictures THEN pc' = "end" /\ UNCHANGED <<next, k>>
           ELSE pc' = "write" /\ next' = (IF Player = "skip" /\ now >= due /\ next < Pictures THEN next + 2 ELSE next + 1) /\ k' = next' - 1
        /\ UNCHANGED <<now, due, log, ready>>
Write == /\ pc = "write" /\ pc' = "sleep" /\ log' = Append(log, [pic |-> k, at |-> now, ready |-> ready])
         /\ \E d \in Slow : now' = now + d /\ ready' = now + d
         /\ UNCHANGED <<due, next, k>>
Next == Sleep \/ Read \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InOrder == \A i \in 1..Len(log) : log[i].pic = i
NeverEarly == \A i \in 1..Len(log) : log[i].at >= (i - 1) * Gap
Prompt == \A i \in 1..Len(log) : log[i].at <= (IF log[i].ready > (i - 1) * Gap + Over THEN log[i].ready ELSE (i - 1) * Gap + Over)
All == <>(pc = "end" /\ Len(log) = Pictures)
=============================================================================
