----------------------------- MODULE CameraTrace ----------------------------
(* Conformance of the real camera class: events of harness/cam.cc.            *)
EXTENDS TraceKit
C == INSTANCE Camera
VARIABLE cam     \* <<>> or the one open: format, size, buffers, what each filled one holds, pictures so far
vars == <<cam, tid, l>>
NBuf == 4
Agree(what, cond) == IF cond THEN TRUE ELSE PrintT(<<"DIFF", what, tid, l>>) /\ FALSE
Holds(q, d) == Agree("buffers", Ev.queued = q /\ Ev.done = d /\ Ev.wrong = 0)
Open ==
  /\ IsEvent("open") /\ cam = <<>>
  /\ IF Ev.f \in C!Formats /\ Ev.caps /\ Ev.fmtback /\ Ev.cntback
     THEN /\ Agree("open", Ev.ok /\ Ev.on /\ Ev.aw = Ev.w /\ Ev.ah = Ev.h /\ Ev.af /\ Ev.dw = Ev.w /\ Ev.dh = Ev.h /\ Ev.wrong = 0)
          /\ Agree("buffers", Len(Ev.queued) = NBuf /\ {Ev.queued[i] : i \in 1..NBuf} = 0..NBuf - 1)
          /\ cam' = [f |-> Ev.f, w |-> Ev.w, h |-> Ev.h, q |-> Ev.queued, d |-> <<>>, held |-> <<>>, n |-> 0]
     ELSE Agree("refused", ~Ev.ok /\ ~Ev.on) /\ UNCHANGED cam
Arrive(x) ==
  IF cam = <<>> THEN UNCHANGED cam
  ELSE LET r == C!Fill(cam.q, cam.d) IN
       /\ Holds(r[1], r[2])
       /\ cam' = [cam EXCEPT !.q = r[1], !.d = r[2], !.held = IF cam.q = <<>> THEN @ ELSE Append(@, x)]
Raw == IsEvent("fill") /\ Arrive([by |-> Ev.by])
Pic == IsEvent("jpeg") /\ Arrive([cut |-> Ev.cut, good |-> Ev.readable /\ Ev.sub = "211111", w |-> Ev.w, h |-> Ev.h, y |-> Ev.y, u |-> Ev.u, v |-> Ev.v])
Get ==
  /\ IsEvent("get")
  /\ LET x == Head(cam.held)
         r == C!Cycle(cam.q, cam.d)
         mj == cam.f = "MJPG"
         first == mj /\ cam.n = 0     \* the first of them may be anything
         any == mj /\ ~first /\ x.cut
         refuse == mj /\ ~first /\ ~any /\ (~x.good \/ x.w # cam.w \/ x.h # cam.h)
     IN IF refuse THEN Agree("refused", ~Ev.ok) /\ cam' = <<>>
        ELSE IF any /\ ~Ev.ok THEN cam' = <<>>
        ELSE /\ Agree("given", Ev.ok /\ Ev.got)
             /\ Holds(r[1], r[2])
             /\ IF first \/ any THEN TRUE ELSE LET p == C!Picture(cam.f, IF mj THEN x ELSE x.by, cam.w, cam.h) IN Agree("picture", Ev.y = p.y /\ Ev.u = p.u /\ Ev.v = p.v)
             /\ cam' = [cam EXCEPT !.q = r[1], !.d = r[2], !.held = Tail(@), !.n = @ + 1]
Close == IsEvent("close") /\ Agree("off", ~Ev.on /\ Ev.wrong = 0) /\ cam' = <<>>
TraceInit == TInit /\ cam = <<>>
TraceSpec == TraceInit /\ [][Open \/ Raw \/ Pic \/ Get \/ Close]_vars
=============================================================================
