------------------------------- MODULE Tools --------------------------------
(* The tools that cut, join and continue coded video, on the contents of     *)
(* files. A chunk: [k |-> "ivf", w, h, x, f]: x: the identity of the decoder *)
(* state it continues from ("": not said), f: its frames; a saved state:      *)
(* [k |-> "st", s]; raw video: [k |-> "y4m", w, h, p].                       *)
(* T(s, f): what decoding frame f in state s gives: [ok, shown, pic, to];    *)
(* H(s): identity of s; D(s): its dimensions; F(w, h): the initial state;    *)
(* K(f): whether f is a key frame.                                           *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Matches(H(_), s, x) == x = "" \/ x = H(s)

(* Frames fs decoded from s, up to the first that cannot be: where that      *)
(* leads and the pictures displayed.                                         *)
Play(T(_, _), s, fs) ==
  FoldLeft(LAMBDA a, f : IF ~a.ok THEN a
                         ELSE LET r == T(a.s, f) IN
                              IF ~r.ok THEN [a EXCEPT !.ok = FALSE]
                              ELSE [ok |-> TRUE, s |-> r.to, pics |-> IF r.shown THEN Append(a.pics, r.pic) ELSE a.pics, n |-> a.n + 1],
           [ok |-> TRUE, s |-> s, pics |-> <<>>, n |-> 0], fs)
No == [k |-> "none"]
StartOf(F(_, _), c, st) == IF st.k = "st" THEN st.s ELSE F(c.w, c.h)

(* A saved state has one reference, standing for all three: states saved     *)
(* where those are not the same are other states, which what continues from  *)
(* them says. (That is what terminating chunks is for.)                      *)
SavedAs(R(_), B(_), s, t) == B(t) = B(s) /\ R(t) = [last |-> R(s).last, golden |-> R(s).last, alt |-> R(s).last]

(* xc-dump: the state after frame n (0-based; -1: the last) is saved.        *)
Dump(T(_, _), H(_), F(_, _), c, st, n) ==
  LET s == StartOf(F, c, st)
      i == IF n = -1 THEN Len(c.f) - 1 ELSE n
  IN IF ~Matches(H, s, c.x) \/ i < 0 \/ i >= Len(c.f) THEN No
     ELSE LET r == Play(T, s, SubSeq(c.f, 1, i + 1)) IN IF r.ok THEN [k |-> "st", s |-> r.s] ELSE No

(* xc-merge: continues from where the first one does.                        *)
Merge(a, b) == IF a.w # b.w \/ a.h # b.h THEN No ELSE [k |-> "ivf", w |-> a.w, h |-> a.h, x |-> a.x, f |-> a.f \o b.f]

(* xc-decode-bundle: the chunks cs one after the other: [ok, pics].          *)
Bundle(T(_, _), H(_), F(_, _), cs, st) ==
  IF cs = <<>> THEN [ok |-> TRUE, pics |-> <<>>]
  ELSE LET r == FoldLeft(LAMBDA a, c : IF ~a.ok \/ ~Matches(H, a.s, c.x) THEN [a EXCEPT !.ok = FALSE]
                                       ELSE LET p == Play(T, a.s, c.f) IN [ok |-> p.ok, s |-> p.s, pics |-> a.pics \o p.pics],
                         [ok |-> TRUE, s |-> StartOf(F, cs[1], st), pics |-> <<>>], cs)
       IN [ok |-> r.ok, pics |-> r.pics]

(* vp8decode (and whatever plays one file): from a state, the whole chunk;   *)
(* without one, from the first key frame on.                                 *)
PlayFile(T(_, _), H(_), D(_), F(_, _), K(_), c, st) ==
  IF st.k = "st"
  THEN IF ~Matches(H, st.s, c.x) \/ D(st.s) # <<c.w, c.h>> THEN [ok |-> FALSE, pics |-> <<>>, hidden |-> FALSE]
       ELSE LET r == Play(T, st.s, c.f) IN [ok |-> r.ok, pics |-> r.pics, hidden |-> Len(c.f) > 0 /\ r.ok /\ ~T(Play(T, st.s, Front(c.f)).s, Last(c.f)).shown]
  ELSE LET i == SelectInSeq(c.f, LAMBDA f : K(f)) IN
       IF i = 0 THEN [ok |-> TRUE, pics |-> <<>>, hidden |-> FALSE]
       ELSE LET fs == SubSeq(c.f, i, Len(c.f))
                r == Play(T, F(c.w, c.h), fs)
            IN [ok |-> r.ok, pics |-> r.pics, hidden |-> r.ok /\ ~T(Play(T, F(c.w, c.h), Front(fs)).s, Last(fs)).shown]

(* xc-terminate-chunk: c to o. R(s): the references of s, B(s): the rest.    *)
Terminates(T(_, _), H(_), F(_, _), R(_), B(_), c, o) ==
  LET s == F(c.w, c.h) IN
  /\ o.w = c.w /\ o.h = c.h /\ o.x = "" /\ Len(o.f) = Len(c.f)
  /\ \A i \in 1..Len(c.f) :
       LET a == T(Play(T, s, SubSeq(c.f, 1, i - 1)).s, c.f[i])
           b == T(Play(T, s, SubSeq(o.f, 1, i - 1)).s, o.f[i])
       IN /\ b.ok /\ b.pic = a.pic /\ b.shown = a.shown
          /\ IF i < Len(c.f) THEN b.to = a.to ELSE B(b.to) = B(a.to) /\ R(b.to) = [last |-> b.pic, golden |-> b.pic, alt |-> b.pic]
Terminable(T(_, _), H(_), F(_, _), c) == Matches(H, F(c.w, c.h), c.x) /\ Play(T, F(c.w, c.h), c.f).ok

(* Encoding np pictures from st (or none) into o.                            *)
Encodes(T(_, _), H(_), F(_, _), K(_), np, w, h, st, o) ==
  /\ o.w = w /\ o.h = h
  /\ o.x \in (IF st.k = "st" THEN {H(st.s)} ELSE {""})
  /\ LET r == Play(T, StartOf(F, o, st), o.f) IN r.ok /\ Len(r.pics) = np
  /\ st.k # "st" /\ np > 0 => K(o.f[1])

(* Coding np pictures again, continuing from st, after the model of chunk p  *)
(* (decoded from ps or from the start) into o, ending in state e; extra: the *)
(* first frame of p belongs to the chunk before.                             *)
Recodable(T(_, _), H(_), D(_), F(_, _), K(_), np, w, h, p, ps, st, extra) ==
  LET s == StartOf(F, p, ps) IN
  Matches(H, s, p.x) /\ Play(T, s, p.f).ok /\ np = Len(p.f) /\ np > 0 /\ D(st.s) = <<w, h>> /\ (extra /\ np > 1 /\ ~K(p.f[2]) => K(p.f[1]))
Recodes(T(_, _), H(_), F(_, _), R(_), K(_), np, w, h, p, ps, st, extra, o, e) ==
  LET s == StartOf(F, p, ps)
      n0 == IF extra THEN 1 ELSE 0
      r == Play(T, st.s, o.f)
  IN /\ o.w = w /\ o.h = h /\ o.x = H(st.s) /\ Len(o.f) = np - n0
     /\ r.ok /\ e = [k |-> "st", s |-> r.s]
     /\ o.f # <<>> => /\ LET q == R(r.s) IN q.last = q.golden /\ q.last = q.alt
                      /\ ~K(o.f[1])   \* it continues
     /\ \A i \in 2..Len(o.f) :
          LET a == T(Play(T, s, SubSeq(p.f, 1, i + n0 - 1)).s, p.f[i + n0])
              b == T(Play(T, st.s, SubSeq(o.f, 1, i - 1)).s, o.f[i])
          IN (K(p.f[i + n0]) => b.pic = a.pic) /\ (a.shown => b.shown)   \* key frames are kept
=============================================================================
