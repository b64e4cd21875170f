---------------------------- MODULE ReceiverTrace ---------------------------
(* A recorded run of the real receiver checked against the receiver           *)
(* specification.  Focus selects the clauses of one property, so that each    *)
(* check judges its own property only:                                        *)
(*  C01 what acknowledgements claim, C02 order of application and the          *)
(*  acknowledgement of packets, C03 the list of restorable states, C06 the     *)
(*  pictures shown, ALL everything at once (step-by-step conformance).         *)
(* Each "pkt" event carries the packet and, in order, the decodings (state    *)
(* before, frame, leading fragments, state after) and acknowledgements the    *)
(* receiver made because of it; honest says whether the announced target is   *)
(* the one decoding leads to.                                                 *)
EXTENDS TraceKit
CONSTANT Focus
R == INSTANCE Receiver
VARIABLES r, pics, truth, done, listed
vars == <<tid, l, r, pics, truth, done, listed>>
(* r: the specification's receiver (for C01, C03, C06 only its packet buffer counts);
   truth: state after the last decoding that really happened; done: states reached exactly as announced by
   whole frames; listed: the last acknowledged list *)
In(f) == Focus = f \/ Focus = "ALL"
Last(q) == q[Len(q)]

Found(a, g, k) == {i \in 1..Len(Ev.D) : Ev.D[i].a = a /\ Ev.D[i].g = g /\ Ev.D[i].k = k}
Missing == -7
Dec(a, g, k) == IF Found(a, g, k) = {} THEN Missing ELSE Ev.D[CHOOSE i \in Found(a, g, k) : TRUE].b
Blind(a, g, k) == 0

Init == /\ TInit /\ r = R!RInit(Traces[tid][1].s) /\ pics = <<>> /\ truth = Traces[tid][1].s
        /\ done = {} /\ listed = <<>>
First == IsEvent("init") /\ UNCHANGED <<r, pics, truth, done, listed>>

Pkt ==
  /\ IsEvent("pkt")
  /\ LET full  == R!RecvStep(r, Ev, Ev.t, Dec, FALSE)
         blind == R!RecvStep(r, Ev, Ev.t, Blind, FALSE)          \* which frames are applied does not depend on states
         st    == IF Focus = "ALL" THEN full ELSE blind
         plan  == [i \in 1..Len(st.applied) |-> <<st.applied[i].g, st.applied[i].k>>]
         real  == [i \in 1..Len(Ev.D) |-> <<Ev.D[i].g, Ev.D[i].k>>]
         truth1 == IF Ev.D = <<>> THEN truth ELSE Last(Ev.D).b
         whole == {i \in 1..Len(Ev.D) : Ev.D[i].g = Ev.g /\ Ev.D[i].k = Ev.n}
         hit   == {i \in whole : Ev.D[i].b = Ev.tgt /\ Ev.tgt # r.init}
         init  == r.init
     IN (* C02 *)
        /\ In("C02") =>
             /\ real = plan
             /\ IF ~st.acked THEN Ev.acks = <<>>
                ELSE /\ Len(Ev.acks) = 1
                     /\ Ev.acks[1].conn = 1337 /\ Ev.acks[1].fno = Ev.fno /\ Ev.acks[1].frag = Ev.frag
                     /\ R!DelayOk(st.r, Ev.acks[1].delay)
        (* C01 *)
        /\ In("C01") => \A i \in 1..Len(Ev.acks) :
             LET a == Ev.acks[i]
             IN /\ a.cur = truth1
                /\ \A j \in 1..Len(a.complete) : a.complete[j] # init /\ a.complete[j] \in done \cup {Ev.D[h].b : h \in hit}
        (* C03 *)
        /\ In("C03") =>
             /\ \A i \in whole :
                  LET s0 == IF i = 1 THEN truth ELSE Ev.D[i - 1].b
                  IN /\ Ev.src \in R!ToSet(listed) \cup {init} => Ev.D[i].a = Ev.src /\ (Ev.honest => Ev.D[i].b = Ev.tgt)
                     /\ Ev.src \notin R!ToSet(listed) \cup {init} => Ev.D[i].a = s0
             /\ \A i \in 1..Len(Ev.acks) :
                  LET based == \E h \in whole : Ev.D[h].a = Ev.src /\ Ev.src # init
                      kept  == IF based THEN SubSeq(listed, R!Dropped(listed, Ev.src) + 1, Len(listed)) ELSE listed
                  IN Ev.acks[i].complete = IF hit # {} THEN Append(kept, Ev.tgt) ELSE kept
        (* C06: a frame finished in its announced state shows the sender's own picture *)
        /\ In("C06") => \A i \in whole : (Ev.D[i].b = Ev.tgt /\ Ev.D[i].shown) => Ev.D[i].pic = Ev.want
        (* everything *)
        /\ Focus = "ALL" =>
             /\ \A i \in 1..Len(st.applied) : st.applied[i].to # Missing
             /\ st.acked => LET w == R!AckOf(st.r, Ev) IN Ev.acks[1].cur = w.cur /\ Ev.acks[1].complete = w.complete
        /\ r' = st.r
        /\ pics' = pics \o [i \in 1..Len(SelectSeq(Ev.D, LAMBDA x : x.shown)) |-> SelectSeq(Ev.D, LAMBDA x : x.shown)[i].pic]
        /\ truth' = truth1
        /\ done' = done \cup {Ev.D[h].b : h \in hit}
        /\ listed' = IF Ev.acks = <<>> THEN listed ELSE Last(Ev.acks).complete
End == IsEvent("end") /\ (In("C02") \/ In("C06") => Ev.draws = pics) /\ UNCHANGED <<r, pics, truth, done, listed>>
(* after a clean period the receiver is in step with the sender *)
InSync == IsEvent("insync") /\ (In("C06") => truth = Ev.tgt) /\ UNCHANGED <<r, pics, truth, done, listed>>
Next == First \/ Pkt \/ End \/ InSync
TraceSpec == Init /\ [][Next]_vars
=============================================================================
