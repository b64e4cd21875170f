------------------------------ MODULE Y4mTrace ------------------------------
EXTENDS TraceKit
Q == INSTANCE Y4m
vars == tvars
Init == TInit
Read ==
  /\ IsEvent("read")
  /\ LET hd == Q!ParseHeader(Ev.file)
         r  == Q!Reading(Ev.file, hd)
         n  == Len(Ev.res)
     IN /\ (hd.ok /\ hd.closed => Ev.ok) /\ (Ev.ok => hd.ok)
        /\ Ev.ok =>
             /\ Ev.w = hd.w /\ Ev.h = hd.h /\ Ev.flen = Q!FrameBytes(hd.w, hd.h)
             /\ n = Len(r.pics) + 1
             /\ Ev.res[n].k \in r.stop
             /\ \A i \in 1..Len(r.pics) :
                  LET p == Q!Picture(Ev.file, r.pics[i], hd.w, hd.h) IN
                  /\ Ev.res[i].k = "frame" /\ Ev.res[i].dw = hd.w /\ Ev.res[i].dh = hd.h
                  /\ Ev.res[i].Y = p.Y /\ Ev.res[i].U = p.U /\ Ev.res[i].V = p.V
Write ==
  /\ IsEvent("write") /\ Ev.ok
  /\ Ev.out = Q!Written(Ev, Ev.w, Ev.h)
  /\ LET hd == Q!ParseHeader(Ev.head) IN hd.ok /\ hd.closed /\ hd.w = Ev.w /\ hd.h = Ev.h /\ hd.at = Len(Ev.head) + 1
TraceSpec == Init /\ [][Read \/ Write]_vars
=============================================================================
