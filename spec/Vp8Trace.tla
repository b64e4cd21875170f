------------------------------ MODULE Vp8Trace ------------------------------
(* Conformance of the decoder: traces of harness/vp8.cc.                     *)
(* Pictures are referred to by the numbers the harness gives to distinct     *)
(* contents; their samples are in the event where a number appears first.    *)
EXTENDS TraceKit, Vp8Recode

CONSTANTS Stats,     \* TRUE: print what each frame exercised
          Pictures   \* TRUE: judge the samples of the pictures, too

VARIABLE ds         \* name -> [w, h, conceal, st, L, G, A]
vars == <<ds, tid, l>>

(* Samples of picture n of trace t.                                          *)
Where(t) ==   \* number -> <<event, index in its list>>
  FoldLeft(LAMBDA a, i : LET e == Traces[t][i] IN
             IF "new" \in DOMAIN e THEN FoldLeft(LAMBDA b, k : Append(b, <<i, k>>), a, [k \in 1..Len(e.new) |-> k]) ELSE a,
           <<>>, [i \in 1..Len(Traces[t]) |-> i])
ASSUME \A t \in 1..NT : TLCSet(10000 + t, Where(t))
PicOf(n) == LET p == TLCGet(10000 + tid)[n] IN Traces[tid][p[1]].new[p[2]]

SegOf(s, n) == IF s.on THEN [on |-> TRUE, abs |-> s.abs, q |-> s.q, lf |-> s.lf, map |-> s.map] ELSE NoSeg(n)
LfdOf(s) == IF s.on THEN s ELSE NoLfd
Mbs(w, h) == MbDim(w) * MbDim(h)
StOf(e) == [probs |-> [coef |-> e.st.coef, ym |-> e.st.ym, uvm |-> e.st.uvm, mv |-> e.st.mv],
            seg |-> SegOf(e.st.seg, Mbs(e.w, e.h)), lfd |-> LfdOf(e.st.lfd)]
SameSt(st, x) ==   \* st: specification; x: as recorded
  /\ x.coef = st.probs.coef /\ x.ym = st.probs.ym /\ x.uvm = st.probs.uvm /\ x.mv = st.probs.mv
  /\ x.seg.on = st.seg.on
  /\ st.seg.on => x.seg.abs = st.seg.abs /\ x.seg.q = st.seg.q /\ x.seg.lf = st.seg.lf /\ x.seg.map = st.seg.map
  /\ x.lfd.on = st.lfd.on
  /\ st.lfd.on => x.lfd.ref = st.lfd.ref /\ x.lfd.mode = st.lfd.mode
SameRefs(r, e) == r.last = e.L /\ r.golden = e.G /\ r.alt = e.A
Hold(d, v) == ds' = (d :> v) @@ ds
Ids(d) == [last |-> d.L, golden |-> d.G, alt |-> d.A]
Mk(e, w, h, c, st) == [w |-> w, h |-> h, conceal |-> c, st |-> st, L |-> e.L, G |-> e.G, A |-> e.A]

NewDec ==
  /\ IsEvent("new")
  /\ SameSt([probs |-> DefaultProbs, seg |-> NoSeg(1), lfd |-> NoLfd], Ev.st)
  /\ Ev.L = Ev.G /\ Ev.L = Ev.A
  /\ Hold(Ev.d, Mk(Ev, Ev.w, Ev.h, FALSE, [probs |-> DefaultProbs, seg |-> NoSeg(Mbs(Ev.w, Ev.h)), lfd |-> NoLfd]))

Fork ==
  /\ IsEvent("fork")
  /\ LET d == ds[Ev.d] IN SameRefs(Ids(d), Ev) /\ SameSt(d.st, Ev.st) /\ Hold(Ev.to, d)

Conceal == IsEvent("conceal") /\ Hold(Ev.d, [ds[Ev.d] EXCEPT !.conceal = Ev.v = 1])
Check == IsEvent("check") /\ Ev.changed = 0 /\ UNCHANGED ds

Count(mbs, P(_)) == Cardinality({i \in 1..Len(mbs) : P(mbs[i])})
Note(r, h) ==
  Stats /\ Pictures => PrintT(<<"STAT", [key |-> r.hdr.key, mbs |-> Len(r.mbs), intra |-> Count(r.mbs, LAMBDA m : m.ref = 0), bpred |-> Count(r.mbs, LAMBDA m : m.ym = 4),
                    split |-> Count(r.mbs, LAMBDA m : m.ym = 9), gold |-> Count(r.mbs, LAMBDA m : m.ref = 2), alt |-> Count(r.mbs, LAMBDA m : m.ref = 3),
                    skip |-> Count(r.mbs, LAMBDA m : m.skip), seg |-> r.st.seg.on, lfd |-> r.st.lfd.on, level |-> r.hdr.level, parts |-> r.hdr.parts,
                    wide |-> r.wide, deep |-> r.deep]>>)

(* The picture has exactly the samples the format prescribes.                *)
PicIs(e, r) == LET p == PicOf(e.pic) IN p.y = r.pic.y /\ p.u = r.pic.u /\ p.v = r.pic.v

(* Says where code and specification part.                                   *)
Agree(what, cond) == IF cond THEN TRUE ELSE PrintT(<<"DIFF", what, tid, l>>) /\ FALSE

(* Frames that may be refused or decoded: nothing after the first partition, *)
(* not even an empty coefficient partition; an experimental version known    *)
(* from the first byte of a frame that ends within its start.                *)
MayRefuse(by, conceal) ==
  /\ Len(by) > 0
  /\ IF conceal THEN Len(by) < FirstPart(by) /\ (by[1] \div 2) % 8 \in {4, 6}
     ELSE Len(by) >= 3 /\ Len(by) = FirstPart(by) + Tag(by).plen

Dec ==
  /\ IsEvent("dec")
  /\ LET d == ds[Ev.d]
         P(n) == PicOf(n)
         refs == [last |-> P(d.L), golden |-> P(d.G), alt |-> P(d.A)]
         r == TLCEval(IF d.conceal THEN IF Pictures THEN SoftDecode(Ev.by, d.w, d.h, d.st, refs) ELSE SoftState(Ev.by, d.w, d.h, d.st)
                      ELSE IF Pictures THEN Decode(Ev.by, d.w, d.h, d.st, refs)
                      ELSE DecodeState(Ev.by, d.w, d.h, d.st, FALSE))
         keeps == SameRefs(Ids(d), Ev) /\ SameSt(d.st, Ev.st)
     IN IF MayRefuse(Ev.by, d.conceal) /\ Ev.err # "" THEN keeps /\ UNCHANGED ds
        ELSE IF r.err = "partitions" THEN   \* found out late: what it did to the state is not specified
          /\ Ev.err # "" /\ Hold(Ev.d, Mk(Ev, d.w, d.h, d.conceal, StOf(Ev)))
        ELSE IF r.err # "" THEN
          /\ Agree("refused", Ev.err # "")
          /\ Agree("kept", keeps)
          /\ UNCHANGED ds
        ELSE
          /\ Note(r, 0)
          /\ Agree("decoded", Ev.err = "")
          /\ Agree("shown", Ev.shown = r.shown)
          /\ Agree("state", SameSt(r.st, Ev.st))
          /\ Agree("picture", ~Pictures \/ r.wide \/ r.deep \/ PicIs(Ev, r))
          /\ Agree("references", SameRefs(NextRefs(Ids(d), r.hdr, Ev.pic), Ev))
          /\ Hold(Ev.d, Mk(Ev, d.w, d.h, d.conceal, r.st))

(* Serialized: a frame parsed and written out again: ser; what decoding the  *)
(* original and the new one gives: a and b; ser2: the new one parsed and     *)
(* written once more; pre: written with the probabilities of before.         *)
Ser ==
  /\ IsEvent("ser")
  /\ UNCHANGED ds
  /\ LET d == ds[Ev.d]
         r == TLCEval(Said(Ev.by, d.w, d.h, d.st))
     IN IF r.err # "" THEN Ev.err # ""
        ELSE /\ Agree("refused", Ev.err = "")
             /\ Stats => PrintT(<<"STAT", [key |-> r.hdr.key, mbs |-> Len(r.mbs), intra |-> Count(r.mbs, LAMBDA m : m.ref = 0), bpred |-> Count(r.mbs, LAMBDA m : m.ym = 4),
                    split |-> Count(r.mbs, LAMBDA m : m.ym = 9), newmv |-> Count(r.mbs, LAMBDA m : m.ym = 8), gold |-> Count(r.mbs, LAMBDA m : m.ref = 2), alt |-> Count(r.mbs, LAMBDA m : m.ref = 3),
                    skip |-> Count(r.mbs, LAMBDA m : m.skip), seg |-> r.st.seg.on, lfd |-> r.st.lfd.on, parts |-> r.hdr.parts, hidden |-> ~r.show,
                    trail |-> r.trail, deep |-> r.deep, came_canonical |-> (Ev.by = r.by)]>>)
             /\ \/ r.deep
                \/ /\ Agree("contents", LET s == TLCEval(Said(Ev.ser, d.w, d.h, d.st)) IN s.err = "" /\ SameSaying(r, s))
                   /\ Agree("bytes", r.trail \/ Ev.ser = r.by)
                   /\ Agree("again", Ev.ser2 = Ev.ser)
                   /\ Agree("before", Ev.pre)
                   /\ Agree("decoding", Ev.a = Ev.b)

(* A history of frames too long to be written down: writing a frame again is *)
(* judged by its consequences alone.                                         *)
Big ==
  /\ IsEvent("big")
  /\ UNCHANGED ds
  /\ \A i \in 1..Len(Ev.fs) : LET f == Ev.fs[i] IN
       Agree("large", f.err = "" /\ f.pre /\ f.again /\ f.decoding)

TraceInit == TInit /\ ds = <<>>
TraceNext == NewDec \/ Fork \/ Conceal \/ Check \/ Dec \/ Ser \/ Big
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
