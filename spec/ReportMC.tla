------------------------------ MODULE ReportMC ------------------------------
(* Two states changed step by step, part by part: the report about them is   *)
(* empty exactly when they are the same, is the same both ways, and names    *)
(* exactly the parts in which they differ. Likeness: a picture is like       *)
(* itself, and as like another as that is like it.                           *)
EXTENDS Report
VARIABLES a, b, pa, pb, n
vars == <<a, b, pa, pb, n>>
CONSTANT MaxSteps
P0 == [coef |-> <<1>>, ym |-> <<1>>, uvm |-> <<1>>, mv |-> <<1>>]
S0 == [probs |-> P0, seg |-> NoSeg(1), lfd |-> NoLfd]
Init == a = S0 /\ b = S0 /\ pa = 0 /\ pb = 0 /\ n = 0
Flip(x) == {[x EXCEPT !.probs.coef = <<3 - @[1]>>], [x EXCEPT !.probs.ym = <<3 - @[1]>>], [x EXCEPT !.probs.uvm = <<3 - @[1]>>], [x EXCEPT !.probs.mv = <<3 - @[1]>>],
            [x EXCEPT !.seg.on = ~@], [x EXCEPT !.seg.q[1] = 1 - @], [x EXCEPT !.seg.map[1] = 1 - @], [x EXCEPT !.lfd.on = ~@], [x EXCEPT !.lfd.mode[2] = 1 - @]}
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ a' \in Flip(a) /\ UNCHANGED <<b, pa, pb>>
           \/ b' \in Flip(b) /\ UNCHANGED <<a, pa, pb>>
           \/ pa' = 1 - pa /\ UNCHANGED <<a, b, pb>>
Spec == Init /\ [][Next]_vars
Same == a.probs = b.probs /\ pa = pb /\ NormSeg(a.seg) = NormSeg(b.seg) /\ NormLfd(a.lfd) = NormLfd(b.lfd)
D == Differ(a, b, pa, pb)
Laws == /\ D = {} <=> Same
        /\ D = Differ(b, a, pb, pa)
        /\ ("state" \in D) = (D \cap {"coef", "ym", "uvm", "mv", "seg", "lfd"} # {})
        /\ ("probs" \in D) = (D \cap {"coef", "ym", "uvm", "mv"} # {})
(* likeness on some planes of 16 x 8 samples *)
Pl(k) == [i \in 1..128 |-> CASE k = 0 -> 0 [] k = 1 -> 255 [] k = 2 -> (i * 37) % 256 [] k = 3 -> ((i * 37) + (i % 3)) % 256 [] k = 4 -> 255 - ((i * 37) % 256) [] k = 5 -> (i * i) % 256]
ASSUME \A j, k \in 0..5 : LET s == Sm!Ssim(Pl(j), Pl(k), 16, 8) IN
         /\ Sm!Within(s, Sm!Ssim(Pl(k), Pl(j), 16, 8))
         /\ s <= 1002500 /\ s >= -1002500
         /\ j = k => Sm!Within(s, 1000000)
ASSUME BitsDiffer(<<1, 255, 3>>, <<0, 255>>) = 9 /\ BitsDiffer(<<>>, <<>>) = 0 /\ BitsDiffer(<<170>>, <<85, 0>>) = 16
=============================================================================
