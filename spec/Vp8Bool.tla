------------------------------ MODULE Vp8Bool ------------------------------
(* The VP8 arithmetic ("bool") coder, RFC 6386 section 7.                    *)
(*                                                                           *)
(* Writing. The bytes written so far and the low end of the current interval *)
(* form one big binary number; a carry out of the low end goes into the      *)
(* bytes. An encoder is <<out, low, m, range>>: low has 8 + m bits, the last *)
(* 8 of them at the scale of the range.                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, Vp8Tables, TLC

Split(range, prob) == 1 + (((range - 1) * prob) \div 256)

EncInit == <<<<>>, 0, 0, 255>>

(* The big number plus one.                                                  *)
AddOne(out) ==
  LET k == Max({0} \cup {i \in 1..Len(out) : out[i] # 255})   \* the last byte that can take it
  IN [i \in 1..Len(out) |-> IF i < k THEN out[i] ELSE IF i = k THEN out[i] + 1 ELSE 0]

Narrowed(out, low, m, range, n) ==   \* n: how far to shift
  IF m + n < 8 THEN <<out, low * Pow2[n + 1], m + n, range * Pow2[n + 1]>>
  ELSE LET k == 8 - m   \* after k shifts the low end has 16 bits: the first 8 are done
           w == low * Pow2[k + 1]
           rest == (w % 256) * Pow2[n - k + 1]
       IN <<Append(out, w \div 256), rest, m + n - 8, range * Pow2[n + 1]>>

Put(e, bit, prob) ==
  LET split == Split(e[4], prob)
      r == IF bit = 1 THEN e[4] - split ELSE split
      v == IF bit = 1 THEN e[2] + split ELSE e[2]
      full == 256 * Pow2[e[3] + 1]
      carry == v >= full
  IN Narrowed(IF carry THEN TLCEval(AddOne(e[1])) ELSE e[1], IF carry THEN v - full ELSE v, e[3], r, NormShift[r])

(* The end: 32 zeros at even odds; the last two whole bytes stay unwritten.  *)
Finish(e) ==
  LET f == TLCEval(FoldLeft(LAMBDA a, i : TLCEval(Put(a, 0, 128)), e, [i \in 1..32 |-> i])) IN SubSeq(f[1], 1, Len(f[1]) - 2)
EncodeAll(syms) == FoldLeft(LAMBDA a, s : TLCEval(Put(a, s[2], s[1])), EncInit, syms)   \* syms: <<probability, bit>>
Encoded(syms) == Finish(TLCEval(EncodeAll(syms)))

(* Reading. A byte string being read is [by, lo, hi, enc]: bytes lo..hi of   *)
(* the sequence by. A decoder is the tuple <<result, value, range, bits,     *)
(* next>>: the result of the last read, the two-byte window, the range, how  *)
(* many bits of the window have been shifted out since the last byte was     *)
(* loaded, and the index of the next byte. Bytes past the end read as zero.  *)
(* (The window stays below the range for everything a coder produces;        *)
(* otherwise its top bits are lost.) With enc, an encoder is carried along,  *)
(* in places 6 to 8, that writes every symbol read.                          *)
ByteAt(b, i) == IF i <= b.hi THEN b.by[i] ELSE 0

BoolInit(b) ==
  LET d == <<0, ByteAt(b, b.lo) * 256 + ByteAt(b, b.lo + 1), 255, 0, b.lo + 2>>
  IN IF b.enc THEN d \o <<<<>>, 0, 0>> ELSE d

Get(b, d, prob) ==
  LET split == Split(d[3], prob)
      one == d[2] >= split * 256
      r == IF one THEN d[3] - split ELSE split
      v == IF one THEN d[2] - split * 256 ELSE d[2]
      n == NormShift[r]
      k == d[4] + n
      res == IF one THEN 1 ELSE 0
      g == IF n = 0 THEN <<res, v, r, k, d[5]>>
           ELSE IF k < 8 THEN <<res, (v * Pow2[n + 1]) % 65536, r * Pow2[n + 1], k, d[5]>>
           ELSE <<res, ((v * Pow2[n + 1]) + (ByteAt(b, d[5]) * Pow2[k - 7])) % 65536, r * Pow2[n + 1], k - 8, d[5] + 1>>
  IN IF ~b.enc THEN g
     ELSE LET e == TLCEval(Put(<<d[6], d[7], d[8], d[3]>>, res, prob)) IN g \o <<e[1], e[2], e[3]>>
(* Bytes that no carry can reach any more leave the decoder: <<bytes,        *)
(* decoder>>.                                                                *)
Drained(d) ==
  IF Len(d) = 5 THEN <<<<>>, d>>
  ELSE LET k == Max({0} \cup {i \in 1..Len(d[6]) : d[6][i] # 255})
       IN IF k <= 1 THEN <<<<>>, d>> ELSE <<SubSeq(d[6], 1, k - 1), [d EXCEPT ![6] = SubSeq(d[6], k, Len(d[6]))]>>
(* What has been read, written anew; done: the bytes that had left.          *)
Rewritten(done, d) == done \o Finish(<<d[6], d[7], d[8], d[3]>>)

SetRes(d, x) == IF Len(d) = 5 THEN <<x, d[2], d[3], d[4], d[5]>> ELSE <<x, d[2], d[3], d[4], d[5], d[6], d[7], d[8]>>

(* An unsigned n-bit literal, most significant bit first; acc collects it.   *)
RECURSIVE LitAcc(_, _, _, _)
LitAcc(b, d, n, acc) ==
  IF n = 0 THEN SetRes(d, acc)
  ELSE LET e == TLCEval(Get(b, d, 128)) IN LitAcc(b, e, n - 1, (acc * 2) + e[1])
Lit(b, d, n) == LitAcc(b, d, n, 0)

(* A magnitude of n bits followed by a sign.                                 *)
SLit(b, d, n) ==
  LET m == TLCEval(Lit(b, d, n))
      s == TLCEval(Get(b, m, 128))
  IN SetRes(s, IF s[1] = 1 THEN -m[1] ELSE m[1])

(* flag; if set, the signed literal, otherwise `dflt`.                       *)
FlaggedS(b, d, n, dflt) ==
  LET f == TLCEval(Get(b, d, 128)) IN IF f[1] = 1 THEN SLit(b, f, n) ELSE SetRes(f, dflt)
FlaggedU(b, d, n, dflt) ==
  LET f == TLCEval(Get(b, d, 128)) IN IF f[1] = 1 THEN Lit(b, f, n) ELSE SetRes(f, dflt)

(* A value of a tree; node pair i uses probability probs[off + i/2 + 1].      *)
RECURSIVE TreeAt(_, _, _, _, _, _)
TreeAt(b, d, tree, probs, off, i) ==
  LET e == TLCEval(Get(b, d, probs[off + (i \div 2) + 1]))
      nx == tree[i + e[1] + 1]
  IN IF nx < 0 THEN SetRes(e, -1 - nx) ELSE TreeAt(b, e, tree, probs, off, nx)
TreeGet(b, d, tree, probs, off) == TreeAt(b, d, tree, probs, off, 0)
=============================================================================
