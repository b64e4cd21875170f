------------------------------- MODULE Poller -------------------------------
(* One turn of the event loop.  Descriptors: [data, shut, gone, full, eof];   *)
(* actions, in registration order: [dir, fd, want, beh, status, active].      *)
EXTENDS Integers, Sequences

NewFd == [data |-> FALSE, shut |-> FALSE, gone |-> FALSE, full |-> FALSE, eof |-> FALSE]
NewAction(dir, fd) == [dir |-> dir, fd |-> fd, want |-> TRUE, beh |-> "io", status |-> 0, active |-> TRUE]

Env(f, op) == CASE op = "write" -> [f EXCEPT !.data = TRUE]
                [] op = "shut"  -> [f EXCEPT !.shut = TRUE]
                [] op = "close" -> [f EXCEPT !.gone = TRUE]
                [] op = "fill"  -> [f EXCEPT !.full = TRUE]
                [] op = "drain" -> [f EXCEPT !.full = FALSE]

Asked(fds, a) == a.active /\ a.want /\ ~(a.dir = "in" /\ fds[a.fd].eof)
Ready(fds, a) == IF a.dir = "in" THEN fds[a.fd].data \/ fds[a.fd].shut ELSE ~fds[a.fd].full
Error(fds, a) == fds[a.fd].gone

Does(beh) == beh \notin {"none", "cancelnone", "exitnone"}
Exits(beh) == beh \in {"exit", "exitnone"}
Cancels(beh) == beh \in {"cancel", "cancelnone"}
(* reading takes everything that is there; with nothing left and the other side shut it meets the end *)
AfterIO(f, dir) == IF dir = "in" THEN (IF f.data THEN [f EXCEPT !.data = FALSE] ELSE [f EXCEPT !.eof = TRUE]) ELSE f

(* readiness is that at the start of the turn *)
RECURSIVE Serve(_, _, _, _, _)
Serve(i, fds0, fds, acts, calls) ==
  IF i > Len(acts) THEN [fds |-> fds, acts |-> acts, calls |-> calls, res |-> "ok", status |-> 0]
  ELSE LET a == acts[i] IN
    IF Error(fds0, a) THEN [fds |-> fds, acts |-> acts, calls |-> calls, res |-> "exit", status |-> 1]
    ELSE IF ~(Asked(fds0, a) /\ Ready(fds0, a)) THEN Serve(i + 1, fds0, fds, acts, calls)
    ELSE LET c1 == Append(calls, i)
             f1 == IF Does(a.beh) THEN [fds EXCEPT ![a.fd] = AfterIO(@, a.dir)] ELSE fds
             a1 == IF Cancels(a.beh) THEN [acts EXCEPT ![i].active = FALSE] ELSE acts
         IN IF Exits(a.beh) THEN [fds |-> f1, acts |-> a1, calls |-> c1, res |-> "exit", status |-> a.status]
            ELSE IF ~Does(a.beh) THEN [fds |-> f1, acts |-> a1, calls |-> c1, res |-> "throw", status |-> 0]
            ELSE Serve(i + 1, fds0, f1, a1, c1)

Turn(fds, acts) ==
  IF \A i \in 1..Len(acts) : ~Asked(fds, acts[i])
  THEN [fds |-> fds, acts |-> acts, calls |-> <<>>, res |-> "exit", status |-> 0]
  ELSE IF \A i \in 1..Len(acts) : ~(Error(fds, acts[i]) \/ (Asked(fds, acts[i]) /\ Ready(fds, acts[i])))
  THEN [fds |-> fds, acts |-> acts, calls |-> <<>>, res |-> "timeout", status |-> 0]
  ELSE Serve(1, fds, fds, acts, <<>>)
=============================================================================
