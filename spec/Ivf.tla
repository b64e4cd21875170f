-------------------------------- MODULE Ivf ---------------------------------
(* IVF files: layout, reading, and writing at the level of system calls.      *)
EXTENDS Integers, Sequences, SequencesExt
HeaderLen == 32
FrameHeaderLen == 12
U16(b, o) == b[o + 1] + 256 * b[o + 2]
U32(b, o) == SubSeq(b, o + 1, o + 4)                       \* kept as four bytes: TLC integers are 32-bit signed
Small(q) == q[4] = 0 /\ q[3] < 64
Val(q) == q[1] + 256 * q[2] + 65536 * q[3]                 \* only where Small
Le4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, 0>>
Le2(n) == <<n % 256, n \div 256>>
Zeros(n) == [i \in 1..n |-> 0]

(* ---- reading ---- *)
Magic == <<68, 75, 73, 70>>
HeaderGood(b) == /\ Len(b) >= HeaderLen /\ SubSeq(b, 1, 4) = Magic /\ U16(b, 4) = 0 /\ U16(b, 6) = HeaderLen
(* one step of the index: [ok, pos, frames]; a frame is <<start, length bytes, fits>> *)
Step(b, acc) ==
  IF ~acc.ok THEN acc
  ELSE IF acc.pos + FrameHeaderLen > Len(b) THEN [acc EXCEPT !.ok = FALSE]
  ELSE LET q == U32(b, acc.pos)
           s == acc.pos + FrameHeaderLen
           fits == Small(q) /\ s + Val(q) <= Len(b)
       IN [ok |-> TRUE, pos |-> IF fits THEN s + Val(q) ELSE Len(b) + 1,
           frames |-> Append(acc.frames, IF fits THEN [ok |-> TRUE, b |-> SubSeq(b, s + 1, s + Val(q))] ELSE [ok |-> FALSE, b |-> <<>>])]
Count(b) == U32(b, 24)
(* more frames than the file has bytes cannot be there *)
Frames(b) == IF ~Small(Count(b)) \/ Val(Count(b)) > Len(b) THEN [ok |-> FALSE, pos |-> 0, frames |-> <<>>]
             ELSE FoldLeft(LAMBDA acc, i : Step(b, acc), [ok |-> TRUE, pos |-> HeaderLen, frames |-> <<>>], [i \in 1..Val(Count(b)) |-> i])
Opens(b) == HeaderGood(b) /\ Frames(b).ok
Whole(b) == Opens(b) /\ \A i \in 1..Len(Frames(b).frames) : Frames(b).frames[i].ok

(* ---- layout of a finished file; presentation times are left open ---- *)
Header(m, n) == Magic \o <<0, 0>> \o Le2(HeaderLen) \o m.fourcc \o Le2(m.w) \o Le2(m.h) \o m.rate \o m.scale \o Le4(n) \o m.hash
FileSize(fs) == FoldLeft(LAMBDA n, f : n + FrameHeaderLen + Len(f), HeaderLen, fs)
=============================================================================
