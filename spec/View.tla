-------------------------------- MODULE View --------------------------------
(* Byte strings seen in part, and values that may be missing.                 *)
EXTENDS Integers, Sequences, SequencesExt
(* ---- parts ---- *)
Fits(b, off, len) == off <= Len(b) /\ len <= Len(b) - off
Part(b, off, len) == SubSeq(b, off + 1, off + len)
(* the first n bytes, and zeros up to eight: a number's little-endian bytes *)
Little(b, n) == [k \in 1..8 |-> IF k <= n THEN b[k] ELSE 0]
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
BitAt(b, k) == (b[k \div 8 + 1] \div Pow2(k % 8)) % 2
Spans(off, len) == (off + len + 7) \div 8                 \* bytes the bits lie in
BitsGood(b, off, len) == Spans(off, len) <= Len(b) /\ Spans(off, len) <= 8 /\ len <= 63
Bits(b, off, len) == [k \in 1..64 |-> IF k <= len THEN BitAt(b, off + k - 1) ELSE 0]

(* ---- a value that may be missing: [has, val]; values moved out are -1, and may be taken for missing ---- *)
Missing == [has |-> FALSE, val |-> 0]
Held(v) == [has |-> TRUE, val |-> v]
AfterMove(x) == IF x.has THEN {Held(-1), Missing, x} ELSE {x}
(* what may be in the target after an assignment whose copy fails: nothing, or what was there *)
AfterFailure(old) == {Missing, old}
=============================================================================
