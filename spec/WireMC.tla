------------------------------ MODULE WireMC --------------------------------
(* Prints delivery schedules of the Wire design as JSON (for -simulate).      *)
EXTENDS Wire, TLC, Json
MCDatas == {<<1>>, <<1,2>>, <<1,2,3>>, <<1,2,3,4,5>>}
Emit == Len(delivered) = MaxDeliver =>
          PrintT(<<"SCHED", ToJson([frame |-> frame, delivered |-> delivered])>>)
=============================================================================
