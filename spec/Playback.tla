------------------------------ MODULE Playback ------------------------------
(* Playing raw video as a camera would take it: picture k (from 0) is begun   *)
(* no earlier than k/F after the start, and no later than can be: when it is  *)
(* due, or when the one before it is out and it is read.  Nothing is skipped; *)
(* after a delay pictures follow each other without waiting until the         *)
(* schedule is met again.  Times are microseconds from the start.             *)
EXTENDS Integers, Sequences, SequencesExt
Y == INSTANCE Y4m
Million == 1000000
(* a whole number of microseconds is waited between pictures, or the exact time *)
Soonest(k, f) == k * (Million \div f)
Latest(k, f) == (k * Million + f - 1) \div f
Larger(a, b) == IF a > b THEN a ELSE b

RECURSIVE Dec(_)
Dec(n) == (IF n < 10 THEN <<>> ELSE Dec(n \div 10)) \o <<48 + (n % 10)>>
(* YUV4MPEG2 Ww Hh Ff:1 Ip A1:1 C420 XYSCSS=420 *)
HeaderLine(w, h, f) ==
  Y!Magic \o <<32, 87>> \o Dec(w) \o <<32, 72>> \o Dec(h) \o <<32, 70>> \o Dec(f) \o <<58, 49, 32, 73, 112, 32, 65, 49, 58, 49, 32>>
  \o Y!C420 \o <<32, 88, 89, 83, 67, 83, 83, 61, 52, 50, 48, 10>>
(* what is to come out, and where each picture begins in it *)
Plan(file, f) ==
  LET hd == Y!ParseHeader(file)
      r == IF hd.ok THEN Y!Reading(file, hd) ELSE [pics |-> <<>>, stop |-> {"error"}]
      n == IF hd.ok THEN Y!FrameBytes(hd.w, hd.h) ELSE 0
      line == IF r.pics = <<>> THEN <<>> ELSE HeaderLine(hd.w, hd.h, f)
      body == FoldLeft(LAMBDA acc, o : acc \o Y!Marker \o SubSeq(file, o, o + n - 1), line, r.pics)
  IN [out |-> body, stop |-> r.stop,
      \* the first picture begins with the header line
      begins |-> [k \in 1..Len(r.pics) |-> IF k = 1 THEN 1 ELSE Len(line) + (k - 1) * (6 + n) + 1]]
=============================================================================
