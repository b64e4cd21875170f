----------------------------- MODULE SenderTrace ----------------------------
(* A recorded run of the real sender explained by the sender specification.   *)
(* Focus: C04 source states, C05 acknowledgements and rate, C08 order of sending, ALL everything *)
EXTENDS TraceKit
CONSTANT Focus
S == INSTANCE Sender
VARIABLES s, queue, lastSent, job
vars == <<tid, l, s, queue, lastSent, job>>
(* queue: packets paced out; job: what is being encoded *)
Payload == 1400
MaxDelay == 100000
MaxSkip == 3
Period == 5000000
NoJob == [src |-> -1, raster |-> -1]
Conventional == Traces[tid][1].mode = "conventional"

In(f) == Focus = f \/ Focus = "ALL"
Init == /\ TInit /\ s = S!SInit(Traces[tid][1].s) /\ queue = <<>> /\ job = NoJob /\ lastSent = Traces[tid][1].t
First == IsEvent("init") /\ UNCHANGED <<s, queue, lastSent, job>>
Start == /\ IsEvent("start") /\ job = NoJob /\ Ev.src # <<>>
         /\ LET sel == S!Select(S!Cleanup(s), Ev.t, Period, FALSE)
            IN /\ In("C04") => \A i \in 1..Len(Ev.src) : Ev.src[i] = sel.src
               /\ s' = sel.s
               /\ job' = [src |-> Ev.src[1], raster |-> Ev.raster]
         /\ UNCHANGED <<queue, lastSent>>
Ack == /\ IsEvent("ack")
       /\ s' = IF Ev.conn # Traces[tid][1].conn THEN s ELSE S!OnAck(s, Ev)
       /\ UNCHANGED <<queue, lastSent, job>>
NFrag(size) == (size + Payload - 1) \div Payload
(* encodings are sorted by quantizer: the better one first *)
Finish ==
  /\ IsEvent("finish") /\ job # NoJob
  /\ LET e == Ev.encs
         sizes == [i \in 1..Len(e) |-> e[i].size]
         cap == S!Capacity(s, Payload, MaxDelay)
     IN /\ In("C04") => \A i \in 1..Len(e) :
             /\ e[i].src = job.src
             /\ e[i].dtgt = e[i].tgt                      \* decodes from the source to the target
        /\ In("C05") =>
             /\ \A i \in 1..Len(e) : e[i].raster = job.raster /\ e[i].size > 0
             /\ IF Conventional THEN Len(e) = 1
                ELSE Len(e) = 2 /\ <<e[1].q, e[2].q>> = S!Quantizers(s)
        /\ \E c \in (IF ~In("C05") THEN 0..Len(e)
                      ELSE IF Conventional THEN {1} ELSE S!ToSend(s, sizes, cap, MaxSkip)) :
             IF c = 0 THEN s' = S!Skip(s) /\ UNCHANGED <<queue, lastSent>>
             ELSE LET n == NFrag(e[c].size)
                      ps == [i \in 1..n |-> [src |-> job.src, tgt |-> e[c].tgt, fno |-> s.n, frag |-> i - 1, n |-> n,
                                             tsl |-> IF i = 1 THEN Ev.t - lastSent ELSE 0, enc |-> e[c].id]]
                  IN /\ s' = S!Send(s, e[c].tgt, n, e[c].q)
                     /\ queue' = queue \o ps
                     /\ lastSent' = Ev.t
        /\ job' = NoJob
Sent == /\ IsEvent("sent") /\ queue # <<>>
        /\ \E i \in (IF In("C08") THEN {1} ELSE 1..Len(queue)) :
             LET h == queue[i]
             IN /\ Ev.fno = h.fno /\ Ev.frag = h.frag
                /\ \E j \in 1..Len(Ev.pl) : Ev.pl[j] = h.enc
                /\ In("C04") => Ev.src = h.src /\ Ev.tgt = h.tgt
                /\ In("C05") => Ev.conn = Traces[tid][1].conn /\ Ev.n = h.n /\ Ev.tsl = h.tsl
                /\ queue' = S!RemoveAt(queue, i)
        /\ UNCHANGED <<s, lastSent, job>>
(* the program sleeps: nothing is left to send *)
Idle == IsEvent("idle") /\ queue = <<>> /\ UNCHANGED <<s, queue, lastSent, job>>
(* the sender's view after a clean period *)
Agree == IsEvent("agree") /\ s.ackState = Ev.cur /\ s.ackState \in S!Known(s) /\ UNCHANGED <<s, queue, lastSent, job>>
Next == First \/ Start \/ Ack \/ Finish \/ Sent \/ Idle \/ Agree
TraceSpec == Init /\ [][Next]_vars
=============================================================================
