------------------------------ MODULE CameraMC ------------------------------
(* The ring of buffers with a device that fills, and overwrites what it holds,*)
(* at any time, and a program that takes, reads (line by line) and hands back.*)
(* Late: the faulty program that hands a buffer back before it has read it.   *)
(* Back: conversions there and back again are checked on all tiny pictures.   *)
EXTENDS Camera, TLC
CONSTANTS NBuf, MaxFrames, Lines, Late
VARIABLES queued, done, taken, data, n, got, part, asked
vars == <<queued, done, taken, data, n, got, part, asked>>
None == NBuf      \* no buffer
Init == /\ queued = [i \in 1..NBuf |-> i - 1] /\ done = <<>> /\ taken = None /\ n = 0 /\ got = <<>> /\ part = <<>> /\ asked = FALSE
        /\ data = [i \in 0..NBuf - 1 |-> [f |-> 0, from |-> 0]]
(* the device has frame n + 1; without a buffer it is lost                    *)
Arrive == /\ n < MaxFrames /\ n' = n + 1
          /\ LET r == Fill(queued, done) IN queued' = r[1] /\ done' = r[2]
          /\ data' = IF queued = <<>> THEN data ELSE [data EXCEPT ![Head(queued)] = [f |-> n + 1, from |-> n + 1]]
          /\ UNCHANGED <<taken, got, part, asked>>
Scribble == /\ \E i \in 1..Len(queued) : data' = [data EXCEPT ![queued[i]].f = 0]
            /\ UNCHANGED <<queued, done, taken, n, got, part, asked>>
Take == /\ taken = None /\ done # <<>> /\ taken' = Head(done) /\ done' = Tail(done) /\ part' = <<>>
        /\ queued' = IF Late THEN Append(queued, Head(done)) ELSE queued
        /\ asked' = TRUE /\ UNCHANGED <<data, n, got>>
ReadLine == /\ taken # None /\ Len(part) < Lines /\ part' = Append(part, data[taken].f)
            /\ UNCHANGED <<queued, done, taken, data, n, got, asked>>
Give == /\ taken # None /\ Len(part) = Lines
        /\ got' = Append(got, part) /\ taken' = None /\ part' = <<>> /\ asked' = FALSE
        /\ queued' = IF Late THEN queued ELSE Append(queued, taken)
        /\ UNCHANGED <<done, data, n>>
Next == Arrive \/ Scribble \/ Take \/ ReadLine \/ Give
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(ReadLine) /\ WF_vars(Give)
(* every picture is one frame's, and they come in the order they were taken   *)
Whole == \A i \in 1..Len(got) : \A j \in 1..Lines : got[i][j] = got[i][1] /\ got[i][1] > 0
Ordered == \A i \in 1..Len(got) - 1 : got[i][1] < got[i + 1][1]
(* no buffer is lost or held twice                                            *)
Held == LET s == queued \o done \o (IF taken = None \/ Late THEN <<>> ELSE <<taken>>)
        IN Len(s) = NBuf /\ {s[i] : i \in 1..Len(s)} = 0..NBuf - 1
(* a frame that found a buffer is given out                                   *)
Served == (done # <<>>) ~> (done = <<>> \/ Len(got) > 0)

(* conversions: planes packed the way the device would come back              *)
Vals == {0, 1}
PackY(y, u, v, w, h) == [k \in 1..2 * w * h |-> LET i == k - 1  r == i \div (2 * w)  c == i % (2 * w) IN
   IF c % 2 = 0 THEN y[r * w + c \div 2 + 1] ELSE IF c % 4 = 1 THEN u[(r \div 2) * (w \div 2) + c \div 4 + 1] ELSE v[(r \div 2) * (w \div 2) + c \div 4 + 1]]
PackN(y, u, v, w, h) == y \o [k \in 1..(w * h) \div 2 |-> IF k % 2 = 1 THEN u[(k + 1) \div 2] ELSE v[k \div 2]]
Back == \A w \in {2, 4}, h \in {2} : \A y \in {[i \in 1..w * h |-> i], [i \in 1..w * h |-> (i * 3) % 7]}, u, v \in [1..(w * h) \div 4 -> Vals] :
   LET p == [y |-> y, u |-> u, v |-> v] IN Yuyv(PackY(y, u, v, w, h), w, h) = p /\ Nv12(PackN(y, u, v, w, h), w, h) = p /\ Yu12(y \o u \o v, w, h) = p
ASSUME Back
=============================================================================
