------------------------------ MODULE PollerMC ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NFds, Shapes, MaxSteps, EmitLen, Behs
Q == INSTANCE Poller
VARIABLES fds, acts, steps, last, log
vars == <<fds, acts, steps, last, log>>
Nothing == [calls |-> <<>>, res |-> "none"]
Init == /\ fds = [f \in 1..NFds |-> Q!NewFd]
        /\ \E s \in Shapes : acts = [i \in 1..Len(s) |-> Q!NewAction(s[i][1], s[i][2])]
        /\ steps = 0 /\ last = Nothing
        /\ log = [i \in 1..Len(acts) |-> <<"add", acts[i].dir, acts[i].fd, 0>>]
Live == steps < MaxSteps /\ last.res \notin {"throw", "exit"}
Step == steps' = steps + 1
DoEnv == /\ Live /\ Step
         /\ \E f \in 1..NFds, op \in {"write", "shut", "close", "fill", "drain"} :
              /\ op \in {"write", "shut"} => ~fds[f].shut /\ ~fds[f].gone
              /\ op \in {"close", "fill", "drain"} => ~fds[f].gone
              /\ fds' = [fds EXCEPT ![f] = Q!Env(@, op)]
              /\ log' = Append(log, <<"env", op, f, 0>>)
         /\ UNCHANGED acts /\ last' = Nothing
DoWant == /\ Live /\ Step /\ \E i \in 1..Len(acts) : /\ acts' = [acts EXCEPT ![i].want = ~@]
                                                     /\ log' = Append(log, <<"want", "", i, IF acts[i].want THEN 0 ELSE 1>>)
          /\ UNCHANGED fds /\ last' = Nothing
DoBeh == /\ Live /\ Step /\ \E i \in 1..Len(acts), b \in Behs :
                /\ acts' = [acts EXCEPT ![i].beh = b, ![i].status = i]
                /\ log' = Append(log, <<"beh", b, i, i>>)
         /\ UNCHANGED fds /\ last' = Nothing
Turn == /\ Live /\ Step
        /\ LET t == Q!Turn(fds, acts)
           IN fds' = t.fds /\ acts' = t.acts /\ last' = [calls |-> t.calls, res |-> t.res]
        /\ log' = Append(log, <<"poll", "", 0, 0>>)
Next == DoEnv \/ DoWant \/ DoBeh \/ Turn
Spec == Init /\ [][Next]_vars
View == <<fds, acts, steps, last>>
Range(s) == {s[i] : i \in 1..Len(s)}
(* the property, about every turn *)
Good == [][ last'.res # "none" =>
   LET c == last'.calls IN
     /\ \A i, j \in 1..Len(c) : i < j => c[i] < c[j]                                     \* registration order, once each
     /\ \A i \in Range(c) : Q!Asked(fds, acts[i]) /\ Q!Ready(fds, acts[i]) /\ ~Q!Error(fds, acts[i])   \* ready and wanted only
     /\ last'.res \in {"ok", "timeout"} => Range(c) = {i \in 1..Len(acts) : Q!Asked(fds, acts[i]) /\ Q!Ready(fds, acts[i])}
     /\ \A i \in Range(c) : acts[i].active /\ ~(acts[i].dir = "in" /\ fds[acts[i].fd].eof)
     /\ last'.res = "timeout" => c = <<>>
     /\ (last'.res = "ok") => \A i \in Range(c) : Q!Does(acts[i].beh) /\ ~Q!Exits(acts[i].beh)
   ]_vars
Emit == Len(log) = EmitLen => PrintT(<<"SCHED", ToJson(log)>>)
MCShapes == { <<<<"in", 1>>, <<"in", 2>>, <<"out", 2>>>>, <<<<"in", 1>>, <<"out", 1>>, <<"in", 2>>, <<"in", 3>>>>, <<<<"out", 1>>, <<"in", 1>>>>, <<<<"in", 1>>, <<"in", 2>>, <<"in", 3>>, <<"out", 3>>>> }
=============================================================================
