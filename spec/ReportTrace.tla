---------------------------- MODULE ReportTrace -----------------------------
(* Conformance of the reporting tools: what they printed, taken apart by the *)
(* driver (odd: it was not of the form they print).                          *)
EXTENDS TraceKit, Report, FiniteSets
VARIABLE seen
vars == <<seen, tid, l>>

Agree(what, cond) == IF cond THEN TRUE ELSE PrintT(<<"DIFF", what, tid, l>>) /\ FALSE
Start(w, h) == [probs |-> DefaultProbs, seg |-> NoSeg(MbDim(w) * MbDim(h)), lfd |-> NoLfd]

(* ---- xc-dissect: frames before (those that led to the state given) and of *)
(* the file; out: one record for each frame printed.                         *)
Parsed(fs, w, h) ==
  FoldLeft(LAMBDA a, f : IF a.err THEN a ELSE
             LET r == TLCEval(DecodeState(f, w, h, a.st, TRUE))
             IN IF r.err # "" THEN [a EXCEPT !.err = TRUE] ELSE [err |-> FALSE, st |-> r.st, rs |-> Append(a.rs, r)],
           [err |-> FALSE, st |-> Start(w, h), rs |-> <<>>], fs)
FrameIs(o, k, by, r, opt, w, h) ==
  LET toks == TLCEval(IF opt.c THEN AllTokens(r.parts, r.P.coef, r.mbs, MbDim(w), MbDim(h)).r ELSE <<>>)
      deep == opt.c /\ \E i \in 1..Len(toks) : toks[i].deep
  IN /\ Agree("frame", o.n = k /\ o.key = r.hdr.key /\ o.size = Len(by) /\ o.hidden = ~r.shown)
     /\ Agree("header", o.h = HeaderSays(r.hdr))
     /\ Agree("updates", o.probs = (IF opt.p THEN r.hdr.coef ELSE <<>>))
     /\ IF ~opt.m THEN Agree("none", o.mbs = <<>>)
        ELSE /\ Agree("macroblocks", Len(o.mbs) = Len(r.mbs) /\ \A i \in 1..Len(r.mbs) : o.mbs[i].m = MbSays(r.mbs[i]))
             /\ Agree("coefficients", deep \/ \A i \in 1..Len(r.mbs) : o.mbs[i].c = (IF opt.c THEN BlocksSay(r.mbs[i], toks[i]) ELSE <<>>))
Dissect ==
  /\ IsEvent("dissect") /\ UNCHANGED seen
  /\ LET p == TLCEval(Parsed(Ev.before \o Ev.fs, Ev.w, Ev.h))
         nb == Len(Ev.before)
         which == IF Ev.only < 0 THEN [i \in 1..Len(Ev.fs) |-> i] ELSE IF Ev.only < Len(Ev.fs) THEN <<Ev.only + 1>> ELSE <<>>
     IN IF p.err THEN TRUE   \* frames nobody can read
        ELSE /\ Agree("form", ~Ev.odd /\ Ev.rc = 0)
             /\ Agree("warned", Ev.warned = (Ev.x # "" /\ Ev.x # Ev.hash))
             /\ Agree("count", Len(Ev.out) = Len(which))
             /\ \A i \in 1..Len(which) :
                  FrameIs(Ev.out[i], which[i] - 1, Ev.fs[which[i]], p.rs[nb + which[i]],
                          [p |-> Ev.p, m |-> Ev.m, c |-> Ev.m /\ Ev.c], Ev.w, Ev.h)

(* ---- the pictures of a file: shown ones; soft: from some picture on its   *)
(* samples are not specified                                                 *)
Played(fs, w, h) ==
  FoldLeft(LAMBDA a, f : IF a.err THEN a ELSE
             LET r == TLCEval(Decode(f, w, h, a.st, a.refs))
             IN IF r.err # "" THEN [a EXCEPT !.err = TRUE]
                ELSE [err |-> FALSE, st |-> r.st, refs |-> TLCEval(NextRefs(a.refs, r.hdr, r.pic)), soft |-> a.soft \/ r.wide \/ r.deep,
                      pics |-> IF r.shown THEN Append(a.pics, [p |-> r.pic, soft |-> a.soft \/ r.wide \/ r.deep]) ELSE a.pics],
           [err |-> FALSE, st |-> Start(w, h), refs |-> [last |-> <<>>, golden |-> <<>>, alt |-> <<>>], soft |-> FALSE, pics |-> <<>>], fs)
PicsOf(v, w, h) == IF v.raw THEN [i \in 1..Len(v.fs) |-> [p |-> Raw(v.fs[i], w, h), soft |-> FALSE]] ELSE Played(v.fs, w, h).pics
Alike3 ==
  /\ IsEvent("ssim") /\ UNCHANGED seen
  /\ LET a == TLCEval(PicsOf(Ev.a, Ev.w, Ev.h))  b == TLCEval(PicsOf(Ev.b, Ev.w, Ev.h))
         n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
     IN /\ Agree("form", ~Ev.odd /\ Ev.rc = 0)
        /\ Agree("count", Len(Ev.out) = n)
        /\ \A i \in 1..n : \/ a[i].soft \/ b[i].soft
                           \/ LET s == TLCEval(Alike(a[i].p, b[i].p, Ev.w, Ev.h)) IN
                              /\ Agree("planes", Len(Ev.out[i]) = (IF Ev.all THEN 3 ELSE 1))
                              /\ Agree("ssim", \A k \in 1..Len(Ev.out[i]) : Sm!Within(s[k], Ev.out[i][k]))

(* ---- saved states: a, b: the frames that led to them                      *)
Diff ==
  /\ IsEvent("diff") /\ UNCHANGED seen
  /\ LET a == TLCEval(Played(Ev.a, Ev.w, Ev.h))  b == TLCEval(Played(Ev.b, Ev.w, Ev.h))
         d == TLCEval(Differ(a.st, b.st, a.refs.last, b.refs.last))
         out == {Ev.out[i] : i \in 1..Len(Ev.out)}
     IN \/ a.err \/ b.err
        \/ LET soft == a.soft \/ b.soft
               P == {"refs", "last", "golden", "alt"}
           IN /\ Agree("form", ~Ev.odd /\ Cardinality(out) = Len(Ev.out))
              /\ Agree("said", IF soft THEN (out \ P) \ {"different"} = (d \ P) \ {"different"} ELSE out = d)
              /\ Agree("exit", Ev.rc = (IF out = {} THEN 0 ELSE 1))
Comp ==
  /\ IsEvent("comp") /\ UNCHANGED seen
  /\ LET bits == BitsDiffer(Ev.ba, Ev.bb)
         a == TLCEval(Played(Ev.a, Ev.w, Ev.h))  b == TLCEval(Played(Ev.b, Ev.w, Ev.h))
     IN \/ a.err \/ b.err
        \/ /\ Agree("form", ~Ev.odd)
           /\ Agree("exit", (Ev.rc = 0) = (bits = 0))
           /\ Agree("bits", Ev.bits = bits)
           /\ IF bits = 0 THEN Agree("silent", ~Ev.more)
              ELSE \/ a.soft \/ b.soft
                   \/ LET s == TLCEval(SamplesDiffer(a.refs.last, b.refs.last))
                          Near(x, y, tol) == x - y <= tol /\ y - x <= tol
                      IN /\ Agree("more", Ev.more)
                         /\ Agree("share", Near(Ev.share * s[3], s[1] * 100000, s[3]))
                         /\ Agree("mean", IF s[1] = 0 THEN Ev.nan ELSE ~Ev.nan /\ Near(Ev.mean * s[1], s[2] * 1000, s[1]))

TraceInit == TInit /\ seen = 0
TraceNext == Dissect \/ Alike3 \/ Diff \/ Comp
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
