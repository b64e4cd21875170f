----------------------------- MODULE Vp8CoderMC -----------------------------
(* The arithmetic coder on its own: what is written is what is read, for     *)
(* every sequence of symbols up to a length, from the beginning and from     *)
(* states in which a carry would run far back.                               *)
EXTENDS Vp8Bool, Json, IOUtils

CONSTANTS N,        \* symbols
          Probs,    \* probabilities to choose from
          Before  \* sequences of <<probability, bit>> written before

(* One step keeps the range in order whatever the probability: both parts of *)
(* the interval are non-empty and normalization returns it to 128..255.      *)
ASSUME \A range \in 128..255, prob \in 0..255 :
  LET s == Split(range, prob) IN
  /\ s \in 1..(range - 1)
  /\ \A r \in {s, range - s} : r * Pow2[NormShift[r] + 1] \in 128..255

VARIABLES syms, e, n
vars == <<syms, e, n>>
Init == \E p \in Before : syms = p /\ e = EncodeAll(p) /\ n = 0
Next == \E p \in Probs, b \in 0..1 : n < N /\ syms' = Append(syms, <<p, b>>) /\ e' = Put(e, b, p) /\ n' = n + 1
Spec == Init /\ [][Next]_vars

Str(by) == [by |-> by, lo |-> 1, hi |-> Len(by), enc |-> FALSE, soft |-> FALSE]
(* Reading syms' probabilities from the bytes by gives syms' bits.           *)
ReadsBack(by) ==
  LET b == Str(by)
      r == FoldLeft(LAMBDA a, s : IF ~a.ok THEN a ELSE LET d == TLCEval(Get(b, a.d, s[1])) IN [ok |-> d[1] = s[2], d |-> d],
                    [ok |-> TRUE, d |-> BoolInit(b)], syms)
  IN r.ok
Lossless == LET by == TLCEval(Finish(e)) IN
  /\ ReadsBack(by)
  /\ by # <<>> /\ by[1] # 255
  \* the padding is never needed: reading past the end gives zeros
  /\ ReadsBack(SubSeq(by, 1, Max({1} \cup {i \in 1..Len(by) : by[i] # 0})))
Shape == e[4] \in 128..255 /\ e[2] >= 0 /\ e[3] \in 0..7 /\ e[2] < 256 * Pow2[e[3] + 1]
(* Rewriting what a decoder reads gives the same bytes.                      *)
Same == LET by == TLCEval(Finish(e))
            b == [Str(by) EXCEPT !.enc = TRUE]
            d == FoldLeft(LAMBDA a, s : TLCEval(Get(b, a, s[1])), BoolInit(b), syms)
        IN Rewritten(<<>>, d) = by
MCBefore == ToSet(JsonDeserialize(IOEnv.PREFIXES))
=============================================================================
