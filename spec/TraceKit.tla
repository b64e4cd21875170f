------------------------------ MODULE TraceKit ------------------------------
(* Shared by every trace specification.  A run validates several recorded     *)
(* traces at once: `tid` names the trace, `l` the next event of it.  A trace  *)
(* is accepted iff some behaviour of the extended specification consumes all  *)
(* of its events.  Needs -workers 1 (registers).                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
NT == Len(Traces)

VARIABLES tid, l
tvars == <<tid, l>>

Ev == Traces[tid][l]
More == l <= Len(Traces[tid])
IsEvent(e) == More /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid

TInit == tid \in 1..NT /\ l = 1

(* registers tid -> furthest l reached *)
Progress == /\ IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
            /\ TRUE
RegInit == \A t \in 1..NT : TLCSet(t, 0)
ASSUME RegInit

Full(t) == TLCGet(t) > Len(Traces[t])
Accepted ==
  /\ \A t \in 1..NT : IF Full(t) THEN TRUE ELSE PrintT(<<"REJECTED", t, TLCGet(t)>>)
  /\ LET RECURSIVE Cnt(_)
         Cnt(t) == IF t = 0 THEN 0 ELSE (IF Full(t) THEN 1 ELSE 0) + Cnt(t - 1)
     IN PrintT(<<"ACCEPTED", Cnt(NT)>>)
=============================================================================
