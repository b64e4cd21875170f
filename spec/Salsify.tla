------------------------------ MODULE Salsify -------------------------------
(* A sender and a receiver joined by a network that loses, repeats and        *)
(* reorders datagrams in both directions, until it turns clean.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFrames,     \* frames sent in all
          MaxFrag,       \* fragments per frame
          Period,        \* length of the conservative period, in frames
          CleanFrames,   \* frames after which recovery is demanded on a clean network
          CarelessR, CarelessS,   \* known-faulty variants, to show the invariants bite
          AckBound       \* acknowledgements in flight

R == INSTANCE Receiver
S == INSTANCE Sender

VARIABLES s, r, frames, data, acks, now, clean, log
vars == <<s, r, frames, data, acks, now, clean, log>>
(* frame record: src, tgt, n, key, noop, early (its last fragment carries nothing that matters) *)

Junk(st, g, k) == 1000 + 100 * g + 10 * k + (st % 10)
Dec(st, g, k) ==
  LET f == frames[g + 1]
      whole == k = f.n \/ (f.early /\ k = f.n - 1)
  IN IF ~whole THEN Junk(st, g, k)
     ELSE IF f.key \/ st = f.src THEN f.tgt
     ELSE IF f.noop THEN st ELSE Junk(st, g, k)

Init == /\ s = S!SInit(0) /\ r = R!RInit(0)
        /\ frames = <<>> /\ data = {} /\ acks = {} /\ now = 0
        /\ clean = -1 /\ log = <<>>

(* possible target states of a new frame: a fresh one, the source itself (nothing changed),
   or, from the initial state, the result of an earlier key frame (same picture again) *)
Targets(src) == {Len(frames) + 1}
                \cup (IF src # 0 THEN {src} ELSE {})
                \cup (IF src = 0 THEN {frames[i].tgt : i \in {j \in 1..Len(frames) : frames[j].key}} ELSE {})

Encode ==
  /\ Len(frames) < MaxFrames
  /\ clean >= 0 => data = {} /\ acks = {}       \* on a clean network everything arrives before the next frame
  /\ LET s1  == S!Cleanup(s)
         sel == S!Select(s1, now, Period, CarelessS)
     IN /\ \E n \in 1..MaxFrag, tgt \in Targets(sel.src), early \in BOOLEAN :
             /\ early => n > 1
             /\ frames' = Append(frames, [src |-> sel.src, tgt |-> tgt, n |-> n, key |-> sel.src = 0,
                                          noop |-> tgt = sel.src, early |-> early])
             /\ s' = S!Send(sel.s, tgt, n, 64)
             /\ data' = data \cup {[g |-> Len(frames), fno |-> Len(frames), frag |-> i, n |-> n,
                                    src |-> sel.src, tgt |-> tgt, grace |-> 0] : i \in 0..(n - 1)}
             /\ log' = Append(log, [k |-> "F", a |-> Len(frames), b |-> n])
        /\ now' = now + 1
        /\ UNCHANGED <<r, acks, clean>>

(* a datagram that is never delivered is lost; those that can no longer have an effect are forgotten *)
Deliver ==
  \E p \in data :
    /\ clean >= 0 => \A q \in data : q.fno > p.fno \/ (q.fno = p.fno /\ q.frag >= p.frag)
    /\ LET st == R!RecvStep(r, p, 0, Dec, CarelessR)
           a  == R!AckOf(st.r, p) @@ [delay |-> 0]
       IN /\ r' = [st.r EXCEPT !.av = -1]
          /\ \/ clean = -1 /\ acks' = acks
             \/ st.acked /\ (clean = -1 => Cardinality(acks) < AckBound) /\ acks' = acks \cup {a}
             \/ ~st.acked /\ acks' = acks
          /\ data' = IF clean >= 0 THEN data \ {p} ELSE {q \in data : q.fno >= st.r.next}
          /\ log' = Append(log, [k |-> "D", a |-> p.fno, b |-> p.frag])
    /\ UNCHANGED <<s, frames, now, clean>>

Ack ==
  \E a \in acks :
    /\ clean >= 0 => \A q \in acks : S!Seq0(s, q) >= S!Seq0(s, a)
    /\ s' = S!OnAck(s, a)
    /\ acks' = {q \in acks : q # a /\ S!Seq0(s', q) >= s'.ackSeq}
    /\ log' = Append(log, [k |-> "A", a |-> a.fno, b |-> a.frag])
    /\ UNCHANGED <<r, frames, data, now, clean>>

(* what was in flight is gone; from now on everything sent arrives, in order *)
TurnClean == /\ clean = -1 /\ clean' = Len(frames) /\ data' = {} /\ acks' = {}
             /\ UNCHANGED <<s, r, frames, now, log>>

Next == Encode \/ Deliver \/ Ack \/ TurnClean
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* C01 *)
TruthfulState == r.cur = r.player
TruthfulComplete == \A i \in 1..Len(r.complete) :
     /\ r.complete[i] # 0
     /\ \E f \in 1..Len(frames) : frames[f].tgt = r.complete[i] /\ f <= r.next
(* C02 *)
InOrder == [][r'.next >= r.next]_vars
(* C03: whatever is listed can be restored; the initial state always can *)
Restorable == {r.complete[i] : i \in 1..Len(r.complete)} \cup {0} \subseteq r.stored
(* ... and nothing else is kept *)
NoLeak == r.stored \subseteq {r.complete[i] : i \in 1..Len(r.complete)} \cup {0}
(* C04/C05: the sender always holds the state it is about to encode from *)
SenderCanGoOn == LET s1 == S!Cleanup(s) IN S!Select(s1, now, Period, CarelessS).src \in S!Known(s1)
(* in the conservative mode, or when the receiver is lost, the source is a state the receiver listed *)
ConservativeSource ==
  LET s1 == S!Cleanup(s) sel == S!Select(s1, now, Period, CarelessS)
  IN (now < s.consUntil \/ S!Bad(s1)) => sel.src = S!Fallback(s1, CarelessS)
(* C06: once the network is clean, the receiver is in step again as soon as CleanFrames frames that change
   something were sent.  (Frames that change nothing leave a receiver that missed earlier frames in an older
   state which the sender still recognises.) *)
ChangedSinceClean == Cardinality({i \in (clean + 1)..Len(frames) : ~frames[i].noop})
Recovered == (clean >= 0 /\ data = {} /\ acks = {} /\ Len(frames) > clean) =>
                 /\ ChangedSinceClean >= CleanFrames => r.player = frames[Len(frames)].tgt
                 /\ ChangedSinceClean = 0 => r.player \in S!Known(s) \/ Len(frames) <= clean + 1
(* the frame the receiver completes in its announced state is the frame the sender made *)
(* for generating schedules: what happened, in order *)
CONSTANT EmitLen
Emit == Len(log) = EmitLen => PrintT(<<"SCHED", ToJson([log |-> log, frames |-> frames])>>)
View == <<s, r, frames, data, acks, now, clean>>
=============================================================================
