-------------------------------- MODULE Y4m ---------------------------------
(* YUV4MPEG raw video, 8-bit 4:2:0: parsing a byte string into pictures and   *)
(* writing pictures.  A picture has planes Y, U, V as row-major sequences.    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Half(n) == (n + 1) \div 2
Up16(n) == 16 * ((n + 15) \div 16)

(* ---- header line ---- *)
Digit(c) == c >= 48 /\ c <= 57
IsNumber(t) == t # <<>> /\ Len(t) <= 9 /\ \A i \in 1..Len(t) : Digit(t[i])
Number(t) == FoldLeft(LAMBDA n, c : 10 * n + c - 48, 0, t)
Colon(t) == {i \in 1..Len(t) : t[i] = 58}
IsFraction(t) == Colon(t) # {} /\ LET i == CHOOSE i \in Colon(t) : \A j \in Colon(t) : i <= j
                                  IN IsNumber(SubSeq(t, 1, i - 1)) /\ IsNumber(SubSeq(t, i + 1, Len(t)))
Tokens(s) == LET step(acc, c) == IF c = 32 THEN Append(acc, <<>>) ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)]
             IN SelectSeq(FoldLeft(step, << <<>> >>, s), LAMBDA t : t # <<>>)
Magic == <<89, 85, 86, 52, 77, 80, 69, 71, 50>>                          \* YUV4MPEG2
C420 == <<67, 52, 50, 48>>
Spaces == {C420, C420 \o <<106, 112, 101, 103>>, C420 \o <<109, 112, 101, 103, 50>>, C420 \o <<112, 97, 108, 100, 118>>}
Tail1(t) == SubSeq(t, 2, Len(t))
TokenGood(t) ==
  CASE t[1] = 87 -> IsNumber(Tail1(t)) /\ Number(Tail1(t)) <= 65535
    [] t[1] = 72 -> IsNumber(Tail1(t)) /\ Number(Tail1(t)) <= 65535
    [] t[1] = 70 -> IsFraction(Tail1(t))
    [] t[1] = 65 -> IsFraction(Tail1(t))
    [] t[1] = 73 -> Len(t) >= 2 /\ t[2] \in {112, 116, 98, 109}
    [] t[1] = 67 -> t \in Spaces
    [] t[1] = 88 -> TRUE
    [] OTHER -> FALSE
LastNum(ts, letter) == FoldLeft(LAMBDA n, t : IF t[1] = letter THEN Number(Tail1(t)) ELSE n, 0, ts)
LineEnd(b, from) == LET nl == {i \in from..Len(b) : b[i] = 10} IN IF nl = {} THEN 0 ELSE CHOOSE i \in nl : \A j \in nl : i <= j
ParseHeader(b) ==
  LET e == LineEnd(b, 1)
      line == IF e = 0 THEN b ELSE SubSeq(b, 1, e - 1)
      ts == Tokens(line)
      rest == IF ts = <<>> THEN <<>> ELSE Tail(ts)
      good == ts # <<>> /\ ts[1] = Magic /\ (\A i \in 1..Len(rest) : TokenGood(rest[i]))
      w == IF good THEN LastNum(rest, 87) ELSE 0
      h == IF good THEN LastNum(rest, 72) ELSE 0
  IN [ok |-> good /\ w > 0 /\ h > 0, closed |-> e > 0, w |-> w, h |-> h, at |-> e + 1]

(* ---- pictures ---- *)
FrameBytes(w, h) == w * h + 2 * Half(w) * Half(h)
(* plane of w x h samples starting at b[o], extended to aw x ah by repeating its edge *)
Extend(b, o, w, h, aw, ah) ==
  [k \in 1..(aw * ah) |-> LET x == (k - 1) % aw  y == (k - 1) \div aw
                              cx == IF x < w THEN x ELSE w - 1  cy == IF y < h THEN y ELSE h - 1
                          IN b[o + cy * w + cx]]
Picture(b, o, w, h) ==
  LET aw == Up16(w)  ah == Up16(h)  cw == Half(w)  ch == Half(h) IN
  [Y |-> Extend(b, o, w, h, aw, ah), U |-> Extend(b, o + w * h, cw, ch, aw \div 2, ah \div 2),
   V |-> Extend(b, o + w * h + cw * ch, cw, ch, aw \div 2, ah \div 2)]
Marker == <<70, 82, 65, 77, 69, 10>>
(* offsets of the pictures in the file and how reading ends: "end", "error" or "either" (a cut marker) *)
RECURSIVE Walk(_, _, _, _, _)
Walk(b, at, w, h, acc) ==
  LET rest == Len(b) - at + 1 IN
  IF rest = 0 THEN [pics |-> acc, stop |-> {"end"}]
  ELSE IF LineEnd(b, at) = 0 THEN [pics |-> acc, stop |-> {"end", "error"}]
  ELSE IF rest < 6 \/ SubSeq(b, at, at + 5) # Marker THEN [pics |-> acc, stop |-> {"error"}]
  ELSE IF rest - 6 < FrameBytes(w, h) THEN [pics |-> acc, stop |-> {"error"}]
  ELSE Walk(b, at + 6 + FrameBytes(w, h), w, h, Append(acc, at + 6))
Reading(b, hd) == IF hd.closed THEN Walk(b, hd.at, hd.w, hd.h, <<>>) ELSE [pics |-> <<>>, stop |-> {"end", "error"}]

(* ---- writing the displayed area of a picture with planes of aligned size ---- *)
Crop(p, aw, w, h) == [k \in 1..(w * h) |-> p[((k - 1) \div w) * aw + ((k - 1) % w) + 1]]
Written(p, w, h) == Marker \o Crop(p.Y, Up16(w), w, h) \o Crop(p.U, Up16(w) \div 2, Half(w), Half(h)) \o Crop(p.V, Up16(w) \div 2, Half(w), Half(h))
=============================================================================
