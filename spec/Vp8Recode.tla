----------------------------- MODULE Vp8Recode ------------------------------
(* A frame written anew from what was parsed out of it.                      *)
EXTENDS Vp8Decode

(* What a frame says: [err] or [err |-> "", tag, hdr, mbs, blocks, trail,    *)
(* by]: blocks: the coefficients; trail: whether some block spells out zeros *)
(* to its very end instead of ending (no coder does); by: the frame as the   *)
(* coder writes these symbols.                                               *)
Le3(n) == <<n % 256, (n \div 256) % 256, n \div 65536>>
Said(by, w, h, st) ==
  LET r == TLCEval(DecodeAll(by, w, h, st, TRUE, TRUE)) IN
  IF r.err # "" THEN r
  ELSE
  LET t == TLCEval(AllTokens(r.parts, r.P.coef, r.mbs, MbDim(w), MbDim(h)))
      first == TLCEval(Rewritten(r.done, r.d))
      parts == TLCEval([p \in 1..Len(r.parts) |-> Rewritten(t.done[p], t.d[p])])
      v == (IF r.hdr.key THEN 0 ELSE 1) + (IF r.shown THEN 16 ELSE 0) + (32 * Len(first))
      head == Le3(v) \o (IF r.hdr.key THEN <<157, 1, 42, w % 256, w \div 256, h % 256, h \div 256>> ELSE <<>>)
      sizes == FoldLeft(LAMBDA a, p : a \o Le3(Len(parts[p])), <<>>, [p \in 1..(Len(parts) - 1) |-> p])
  IN [err |-> "", show |-> r.shown, hdr |-> r.hdr, mbs |-> r.mbs, st |-> r.st,
      blocks |-> TLCEval([i \in 1..Len(t.r) |-> t.r[i].c]), trail |-> \E i \in 1..Len(t.r) : t.r[i].trail,
      deep |-> \E i \in 1..Len(t.r) : t.r[i].deep,
      by |-> head \o first \o sizes \o FoldLeft(LAMBDA a, p : a \o p, <<>>, parts)]
SameSaying(a, b) == a.show = b.show /\ a.hdr = b.hdr /\ a.mbs = b.mbs /\ a.blocks = b.blocks
=============================================================================
