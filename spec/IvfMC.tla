------------------------------- MODULE IvfMC --------------------------------
(* A writer appending frames with plain write calls (which may take only part *)
(* of what they are given) and a store to the mapped header, crashing         *)
(* anywhere.  Early = TRUE is the faulty order: count first.                  *)
EXTENDS Ivf, TLC
CONSTANTS MaxFrames, Early, EmitLen
VARIABLES file, m, done, todo, pend, counted, log
vars == <<file, m, done, todo, pend, counted, log>>
Metas == [fourcc : {<<86, 80, 56, 48>>}, w : {7}, h : {300}, rate : {<<1, 0, 0, 0>>}, scale : {<<1, 0, 0, 200>>}, hash : {<<0, 0, 0, 0>>}]
Payloads == {<<>>, <<9>>, <<5, 6>>, <<12, 0, 0, 0>>}
Init == /\ m \in Metas /\ file = Header(m, 0) /\ done = <<>> /\ todo = <<>> /\ pend = <<>> /\ counted = TRUE /\ log = <<>>
SetCount(f, n) == SubSeq(f, 1, 24) \o Le4(n) \o SubSeq(f, 29, Len(f))
Begin(p) == /\ pend = <<>> /\ counted /\ Len(done) < MaxFrames
            /\ todo' = p /\ pend' = Le4(Len(p)) \o Zeros(8) \o p /\ counted' = FALSE
            /\ file' = IF Early THEN SetCount(file, Len(done) + 1) ELSE file
            /\ log' = Append(log, <<"append", Len(p)>>) /\ UNCHANGED <<m, done>>
Write(k) == /\ pend # <<>> /\ k \in 1..Len(pend)
            /\ file' = file \o SubSeq(pend, 1, k) /\ pend' = SubSeq(pend, k + 1, Len(pend))
            /\ UNCHANGED <<m, done, todo, counted, log>>
Bump == /\ pend = <<>> /\ ~counted /\ file' = SetCount(file, Len(done) + 1) /\ done' = Append(done, todo) /\ counted' = TRUE
        /\ UNCHANGED <<m, todo, pend, log>>
SetHash(v) == /\ counted /\ m.hash # v /\ m' = [m EXCEPT !.hash = v] /\ file' = SubSeq(file, 1, 28) \o v \o SubSeq(file, 33, Len(file))
              /\ log' = Append(log, <<"hash", v[1]>>) /\ UNCHANGED <<done, todo, pend, counted>>
Next == \/ \E p \in Payloads : Begin(p)
        \/ \E k \in 1..16 : Write(k)
        \/ Bump
        \/ \E v \in {<<7, 0, 0, 255>>, <<0, 0, 0, 0>>} : SetHash(v)
Spec == Init /\ [][Next]_vars
(* whatever the crash point, the file opens with exactly the completed frames *)
CrashSafe == /\ Whole(file)
             /\ LET fr == Frames(file).frames IN [i \in 1..Len(fr) |-> fr[i].b] = done
             /\ U16(file, 12) = m.w /\ U16(file, 14) = m.h /\ U32(file, 16) = m.rate /\ U32(file, 20) = m.scale /\ U32(file, 28) = m.hash
Emit == IF Len(log) = EmitLen /\ counted THEN PrintT(<<"SCHED", ToString(log)>>) ELSE TRUE
View == <<file, m, done, todo, pend, counted>>
=============================================================================
