----------------------------- MODULE Vp8DamageMC -----------------------------
(* Frames cut anywhere: a receiver that gets a sequence of frames whole, and *)
(* then any prefix of the next one, with and without error concealment.      *)
(* FRAMES: a JSON list of [w, h, frames].                                    *)
EXTENDS Vp8Decode, Json, IOUtils
Seqs == JsonDeserialize(IOEnv.FRAMES)
Fresh(w, h) == [probs |-> DefaultProbs, seg |-> NoSeg(MbDim(w) * MbDim(h)), lfd |-> NoLfd]

VARIABLES q, i, k, st     \* sequence, frame of it, length of its prefix (-1: none yet); the state before the frame
vars == <<q, i, k, st>>
S == Seqs[q]
By == S.frames[i]
Init == q \in 1..Len(Seqs) /\ i = 1 /\ k = -1 /\ st = Fresh(Seqs[q].w, Seqs[q].h)
Cut == k = -1 /\ k' \in 0..Len(By) /\ UNCHANGED <<q, i, st>>
Whole == k = -1 /\ i < Len(S.frames) /\ i' = i + 1 /\ st' = DecodeState(By, S.w, S.h, st, FALSE).st /\ UNCHANGED <<q, k>>
Next == Cut \/ Whole
Spec == Init /\ [][Next]_vars

Repeats(m) == m.ref = 1 /\ m.ym = 7 /\ \A n \in 1..16 : m.mvs[n] = <<0, 0>>
Laws ==
  k >= 0 =>
  LET by == SubSeq(By, 1, k)
      all == DecodeState(By, S.w, S.h, st, TRUE)
      hard == DecodeState(by, S.w, S.h, st, TRUE)
      soft == SoftState(by, S.w, S.h, st)
      t == Tag(By)
      first == FirstPart(By) + t.plen
      key == t.key
      ph == ParseHeader([by |-> By, enc |-> FALSE, soft |-> FALSE, lo |-> FirstPart(By) + 1, hi |-> first], key)
      header == ph[2][5] - 1   \* bytes up to the end of the header (and what is read ahead)
  IN
  (* nothing missing is overlooked where the format says how much there is *)
  /\ k < first + (3 * (all.hdr.parts - 1)) => hard.err # ""
  /\ hard.err = "" => hard.st = all.st /\ hard.mbs = all.mbs
  (* concealed, every prefix gives a picture; unless the header is cut and,  *)
  (* completed with zeros, asks for what is not supported                    *)
  /\ soft.err \in {"", "simple filter"}
  /\ k >= header \/ (key /\ k < 10) => soft.err = ""
  /\ soft.err = "" =>
     /\ k = Len(By) => soft.st = all.st /\ soft.mbs = all.mbs
     /\ k > 0 => soft.shown = all.shown
     /\ Len(soft.parts) = soft.hdr.parts
     /\ k >= first => soft.st = all.st /\ soft.mbs = all.mbs
     /\ k >= header => soft.hdr = all.hdr /\ soft.st.probs = all.st.probs /\ soft.st.lfd = all.st.lfd
     (* what is there of an interframe is used, the rest repeats the last picture *)
     /\ ~key /\ k < first =>
          \E g \in 0..Len(soft.mbs) :
            /\ g > 1 => (\A n \in 1..(g - 1) : soft.mbs[n] = all.mbs[n])
            /\ \A n \in (g + 1)..Len(soft.mbs) : Repeats(soft.mbs[n])
            /\ g > 0 => soft.hdr = all.hdr   \* not a macroblock without a header
     (* a key frame cut within its start is taken for an interframe that repeats *)
     /\ key /\ k < FirstPart(By) => ~soft.hdr.key /\ \A n \in 1..Len(soft.mbs) : Repeats(soft.mbs[n])
     /\ key /\ k >= FirstPart(By) => soft.hdr.key
==============================================================================
