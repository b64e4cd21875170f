--------------------------- MODULE SavedStateMC ---------------------------
(* Saving, damage to the file (cut anywhere, a byte changed anywhere, more   *)
(* appended), loading, saving again: over all small states.                  *)
EXTENDS SavedState
CONSTANTS Sizes, Vals, Bytes
VARIABLES state, file, damage, loaded
vars == <<state, file, damage, loaded>>
Tab(n, a, b) == [i \in 1..n |-> IF i % 2 = 1 THEN a ELSE b]
Tabs(n) == {Tab(n, a, b) : a \in Vals, b \in Vals}
Signed == {S8(v) : v \in Vals}
STab(n, a) == [i \in 1..n |-> IF i % 2 = 1 THEN a ELSE -a]
Segs(w, h) == {[on |-> FALSE]} \cup {[on |-> TRUE, abs |-> a, w |-> w, h |-> h, q |-> STab(SegN, x), lf |-> STab(SegN, -x), map |-> [i \in 1..(w * h) |-> IF i = k THEN SegN - 1 ELSE 0]]
                                      : a \in BOOLEAN, x \in {0, 63}, k \in 0..1}
Adjs == {[on |-> FALSE]} \cup {[on |-> TRUE, ref |-> STab(AdjN, x), mode |-> STab(AdjN, y)] : x \in {0, -63}, y \in {5}}
Refs(w, h) == {[w |-> w, h |-> h, y |-> t, u |-> Tab(Chroma(w, h), x, x), v |-> Tab(Chroma(w, h), 9, 9)] : t \in Tabs(Luma(w, h)), x \in Vals}
States == UNION {{[w |-> w, h |-> h, coef |-> c, ym |-> Tab(YmN, 1, 2), uvm |-> Tab(UvN, 3, 4), mv |-> m, seg |-> g, lfd |-> a, ref |-> r]
                  : c \in Tabs(CoefN), m \in Tabs(MvN), g \in Segs(w, h), a \in Adjs, r \in Refs(w, h)} : w \in Sizes, h \in Sizes}
Init == state \in States /\ file = <<>> /\ damage = "" /\ loaded = <<>>
Save == damage = "" /\ file' = Write(state) /\ damage' = "none" /\ UNCHANGED <<state, loaded>>
Shorten == damage = "none" /\ \E n \in 0..(Len(file) - 1) : file' = SubSeq(file, 1, n) /\ damage' = "cut" /\ UNCHANGED <<state, loaded>>
Longer == damage = "none" /\ \E b \in Bytes : file' = Append(file, b) /\ damage' = "long" /\ UNCHANGED <<state, loaded>>
Change == damage = "none" /\ \E i \in 1..Len(file), b \in Bytes : b # file[i] /\ file' = [file EXCEPT ![i] = b] /\ damage' = "byte" /\ UNCHANGED <<state, loaded>>
Load == damage # "" /\ loaded = <<>> /\ loaded' = Parse(file) /\ UNCHANGED <<state, file, damage>>
Next == Save \/ (loaded = <<>> /\ (Shorten \/ Longer \/ Change)) \/ Load
Spec == Init /\ [][Next]_vars
Done == loaded # <<>>
RoundTrip == Done /\ damage = "none" => loaded[1] /\ loaded[2] /\ loaded[3] = state /\ Write(loaded[3]) = file
CutRefused == Done /\ damage = "cut" => ~loaded[1]
LongRefused == Done /\ damage = "long" => ~loaded[1]
(* A changed byte is never taken for the state that was saved, and what is   *)
(* read as a file some writer wrote is that writer's state.                  *)
ChangeSeen == Done /\ damage = "byte" => /\ (loaded[1] /\ loaded[2] => loaded[3] # state)
                                         /\ (loaded[1] /\ loaded[2] => Write(loaded[3]) = file)
=============================================================================
