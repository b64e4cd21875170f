---------------------------- MODULE PollerTrace -----------------------------
EXTENDS TraceKit
Q == INSTANCE Poller
VARIABLES fds, acts
vars == <<tid, l, fds, acts>>
Init == TInit /\ fds = <<>> /\ acts = <<>>
Next == \/ IsEvent("fd") /\ fds' = Append(fds, Q!NewFd) /\ UNCHANGED acts
        \/ IsEvent("add") /\ acts' = Append(acts, Q!NewAction(Ev.dir, Ev.fd)) /\ UNCHANGED fds
        \/ IsEvent("env") /\ fds' = [fds EXCEPT ![Ev.fd] = Q!Env(@, Ev.op)] /\ UNCHANGED acts
        \/ IsEvent("want") /\ acts' = [acts EXCEPT ![Ev.i].want = Ev.w] /\ UNCHANGED fds
        \/ IsEvent("beh") /\ acts' = [acts EXCEPT ![Ev.i].beh = Ev.b, ![Ev.i].status = Ev.st] /\ UNCHANGED fds
        \/ /\ IsEvent("poll")
           /\ LET t == Q!Turn(fds, acts)
              IN /\ Ev.calls = t.calls /\ Ev.res = t.res /\ Ev.status = t.status
                 /\ fds' = t.fds /\ acts' = t.acts
TraceSpec == Init /\ [][Next]_vars
=============================================================================
