------------------------------ MODULE EncTrace ------------------------------
(* Conformance of encoders: traces of harness/enc.cc. What an encoder puts   *)
(* into a frame is its choice; that the state it goes on from is the state   *)
(* the frame takes a decoder to is not, nor are the quantizer, size and      *)
(* quality it was asked for.                                                 *)
EXTENDS TraceKit, Vp8Decode, Ssim

VARIABLES es,    \* encoder -> [has, st, to, rt, lq]
          ds,    \* decoder -> [st, to]
          names, \* the different states seen and what they are called: [to, hash, str, mini]
          tab    \* what quantizers give for a picture: [n, of, lo, est, est2, ssim] or n = ""
vars == <<es, ds, names, tab, tid, l>>

Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"DIFF", what, tid, l>>) /\ FALSE
Mbs(w, h) == MbDim(w) * MbDim(h)
SegOf(s, n) == IF s.on THEN [on |-> TRUE, abs |-> s.abs, q |-> s.q, lf |-> s.lf, map |-> s.map] ELSE NoSeg(n)
LfdOf(s) == IF s.on THEN s ELSE NoLfd
StOf(x, w, h) == [probs |-> [coef |-> x.coef, ym |-> x.ym, uvm |-> x.uvm, mv |-> x.mv], seg |-> SegOf(x.seg, Mbs(w, h)), lfd |-> LfdOf(x.lfd)]
SameSt(st, x) ==   \* st: specification; x: as recorded
  /\ x.coef = st.probs.coef /\ x.ym = st.probs.ym /\ x.uvm = st.probs.uvm /\ x.mv = st.probs.mv
  /\ x.seg.on = st.seg.on
  /\ st.seg.on => x.seg.abs = st.seg.abs /\ x.seg.q = st.seg.q /\ x.seg.lf = st.seg.lf /\ x.seg.map = st.seg.map
  /\ x.lfd.on = st.lfd.on
  /\ st.lfd.on => x.lfd.ref = st.lfd.ref /\ x.lfd.mode = st.lfd.mode
NewSt(w, h) == [probs |-> DefaultProbs, seg |-> NoSeg(Mbs(w, h)), lfd |-> NoLfd]
Ids(to) == [last |-> to.L, golden |-> to.G, alt |-> to.A]
SameRefs(r, to) == r.last = to.L /\ r.golden = to.G /\ r.alt = to.A

(* Each state has one name, different states have different ones.            *)
Learn(ns, x) ==
  LET S == {i \in 1..Len(ns) : ns[i].to = x.to} IN
  IF S # {} THEN LET i == CHOOSE j \in S : TRUE IN <<x.match /\ ns[i].hash = x.hash /\ ns[i].str = x.str /\ ns[i].mini = x.mini, ns>>
  ELSE <<x.match /\ \A k \in 1..Len(ns) : ns[k].hash # x.hash /\ ns[k].str # x.str,
         Append(ns, [to |-> x.to, hash |-> x.hash, str |-> x.str, mini |-> x.mini])>>
Identified(x) == LET q == TLCEval(Learn(names, x)) IN Say("identity", q[1]) /\ names' = q[2]
NoTab == [n |-> ""]
Forget(n) == tab' = IF tab.n = n THEN NoTab ELSE tab

DNew ==
  /\ IsEvent("dnew") /\ Identified(Ev) /\ Ev.to.L = Ev.to.G /\ Ev.to.L = Ev.to.A
  /\ ds' = (Ev.d :> [st |-> NewSt(Ev.to.w, Ev.to.h), to |-> Ev.to]) @@ ds
  /\ UNCHANGED <<es, tab>>
Feed ==
  /\ IsEvent("feed") /\ Identified(Ev.r)
  /\ LET d == ds[Ev.d]
         r == TLCEval(DecodeState(Ev.by, d.to.w, d.to.h, d.st, FALSE))
     IN /\ Say("feed", (r.err = "") = (Ev.r.err = ""))
        /\ r.err = "" => Say("decoder", SameSt(r.st, Ev.r.stv))
        /\ ds' = [ds EXCEPT ![Ev.d] = [st |-> StOf(Ev.r.stv, d.to.w, d.to.h), to |-> Ev.r.to]]
  /\ UNCHANGED <<es, tab>>

(* A new encoder's decoder is a new decoder; one built from a decoder goes   *)
(* on from there.                                                            *)
New ==
  /\ IsEvent("new") /\ Identified(Ev) /\ Say("own", Ev.own)
  /\ Ev.to.L = Ev.to.G /\ Ev.to.L = Ev.to.A
  /\ es' = (Ev.n :> [has |-> FALSE, st |-> NewSt(Ev.to.w, Ev.to.h), to |-> Ev.to, rt |-> Ev.rt, lq |-> -1]) @@ es
  /\ UNCHANGED ds /\ Forget(Ev.n)
From ==
  /\ IsEvent("from") /\ Identified(Ev) /\ Say("own", Ev.own)
  /\ LET d == IF Ev.follower THEN [st |-> es[Ev.d].st, to |-> es[Ev.d].to] ELSE ds[Ev.d] IN
     /\ Say("continues", Ev.to = d.to)
     /\ es' = (Ev.n :> [has |-> TRUE, st |-> d.st, to |-> Ev.to, rt |-> Ev.rt, lq |-> -1]) @@ es
  /\ UNCHANGED ds /\ Forget(Ev.n)
Copy ==
  /\ IsEvent("fork") \/ IsEvent("move") \/ IsEvent("asg")
  /\ Identified(Ev) /\ Say("own", Ev.own)
  /\ Say("copy", Ev.to = es[Ev.n].to)
  /\ es' = (Ev.into :> es[Ev.n]) @@ es
  /\ UNCHANGED ds /\ Forget(Ev.into)
Drop == IsEvent("drop") /\ es' = [x \in DOMAIN es \ {Ev.n} |-> es[x]] /\ UNCHANGED <<ds, names>> /\ Forget(Ev.n)

------------------------------------------------------------------------------
(* What was asked for. lo..hi: the quantizers a target-size search may use.  *)
Lo(e) == IF e.rt /\ e.lq - 16 >= 4 THEN e.lq - 16 ELSE 4
Hi(e) == IF e.rt /\ e.lq >= 0 /\ e.lq + 16 < 127 THEN e.lq + 16 ELSE 127
At(t, q) == t[(q - tab.lo) + 1]
Least(q) == IF At(tab.est, q) < At(tab.est2, q) THEN At(tab.est, q) ELSE At(tab.est2, q)
Most(q) == IF At(tab.est, q) > At(tab.est2, q) THEN At(tab.est, q) ELSE At(tab.est2, q)
(* The quantizer fits (by estimate) and the next finer one would not, or     *)
(* nothing fits and it is the coarsest.                                      *)
Fits(e, q, target) ==
  /\ q >= Lo(e) /\ q <= Hi(e)
  /\ \/ Least(q) <= target /\ (q = Lo(e) \/ Most(q - 1) > target)
     \/ q = Hi(e) /\ Most(q) > target
(* The quality is reached and the next coarser quantizer would not reach it, *)
(* or the finest does not and is used. min: thousandths.                     *)
Reaches(q, min) == At(tab.ssim, q) >= (min * 1000) - 1
Misses(q, min) == At(tab.ssim, q) < (min * 1000) + 1
Good(q, min) == \/ Reaches(q, min) /\ (q = 127 \/ Misses(q + 1, min))
                \/ q = 0 /\ Misses(0, min)
Asked(e, x, hdr) ==
  /\ Say("deltas", \A i \in 1..5 : hdr.qd[i] = 0)
  /\ x.mode = "q" => Say("quantizer", hdr.yq = x.arg)
  /\ tab.n = x.n /\ tab.of = x.of =>
       /\ x.mode = "t" => Say("size", Fits(e, hdr.yq, x.arg))
       /\ x.mode = "s" => Say("quality", Good(hdr.yq, x.arg) /\ x.q = At(tab.ssim, hdr.yq))

Enc ==
  /\ IsEvent("enc") /\ Say("failed", Ev.err = "") /\ Identified(Ev)
  /\ LET e == es[Ev.n]
         r == TLCEval(DecodeState(Ev.by, e.to.w, e.to.h, e.st, FALSE))
     IN /\ Say("valid", r.err = "" /\ Ev.r.err = "" /\ r.shown /\ Ev.r.shown)
        /\ Say("key", r.hdr.key = ~e.has)
        /\ Say("decoder", SameSt(r.st, Ev.r.stv))
        /\ Say("references", SameRefs(NextRefs(Ids(e.to), r.hdr, Ev.r.pic), Ev.r.to))
        /\ Say("lockstep", Ev.r.to = Ev.to /\ Ev.r.hash = Ev.hash /\ Ev.r.str = Ev.str /\ Ev.r.mini = Ev.mini /\ Ev.own)
        /\ Say("input", Ev.same = 1)
        /\ Asked(e, Ev, r.hdr)
        /\ es' = [es EXCEPT ![Ev.n] = [e EXCEPT !.has = TRUE, !.st = StOf(Ev.r.stv, e.to.w, e.to.h), !.to = Ev.to, !.lq = IF e.rt THEN r.hdr.yq ELSE -1]]
  /\ UNCHANGED ds /\ Forget(Ev.n)

(* Estimates and encodings by copies leave no trace.                         *)
Est == IsEvent("est") /\ Identified(Ev) /\ Say("unchanged", Ev.own /\ Ev.to = es[Ev.n].to) /\ UNCHANGED <<es, ds, tab>>
Tab ==
  /\ IsEvent("tab") /\ Identified(Ev) /\ Say("unchanged", Ev.own /\ Ev.to = es[Ev.n].to)
  /\ tab' = [n |-> Ev.n, of |-> Ev.of, lo |-> Ev.lo, est |-> Ev.est, est2 |-> Ev.est2, ssim |-> Ev.ssim]
  /\ UNCHANGED <<es, ds>>

------------------------------------------------------------------------------
(* Re-encoding along frames of a chunk: all but the first keep what they say *)
(* about prediction, the last one replaces all references, none but the      *)
(* preserved ones are key frames.                                            *)
Modes(m) == [ref |-> m.ref, ym |-> m.ym, bm |-> m.bm, uvm |-> m.uvm, mvs |-> m.mvs]
SameModes(a, b) == Len(a.mbs) = Len(b.mbs) /\ \A i \in 1..Len(a.mbs) : Modes(a.mbs[i]) = Modes(b.mbs[i])
Says(by, to, st) == DecodeState(by, to.w, to.h, st, TRUE)
(* What the prediction frames say: a sequence.                               *)
Preds(x, d) == FoldLeft(LAMBDA a, p : LET r == TLCEval(Says(p.by, d.to, a[2])) IN <<Append(a[1], r), r.st>>, <<<<>>, d.st>>, x.pred)[1]
RefreshAll(hdr) == hdr.refreshL /\ hdr.refreshG /\ hdr.refreshA
First(x) == IF x.extra THEN 2 ELSE 1
(* Frames the encoder makes anew; the rest are passed on.                    *)
Anew(ps, k, first) == k = first \/ ~ps[k].hdr.key
Impossible(x, ps) == \/ \E k \in First(x)..Len(ps) : Anew(ps, k, First(x)) /\ ps[k].hdr.seg.on
                     \/ First(x) > Len(ps)
(* The quantizer of a frame made anew from prediction frame k.               *)
Near(y, a, b, w) == (* y = w a + (1 - w) b rounded, w in hundredths *)
  LET z == ((w * a) + ((100 - w) * b)) - (100 * y) IN z <= 50 /\ z >= -50
Quant(x, ps, k, hdr) ==
  LET p == ps[k].hdr IN
  /\ hdr.qd = p.qd
  /\ IF k = 1 /\ First(x) = 1 /\ p.key
     THEN IF Len(ps) > 1 /\ ~ps[2].hdr.key THEN Near(hdr.yq, p.yq, ps[2].hdr.yq, x.kfw) ELSE hdr.yq = p.yq
     ELSE IF k = 2 /\ First(x) = 2 THEN (IF p.key THEN TRUE ELSE Near(hdr.yq, ps[1].hdr.yq, p.yq, x.kfw))
     ELSE hdr.yq = p.yq
ReFrame(x, ps, k, e, by, rec) ==   \* e: the encoder before this frame; <<fine, encoder after>>
  LET r == TLCEval(Says(by, e.to, e.st))
      p == ps[k]
      h == r.hdr
      fine ==
        /\ Say("valid", r.err = "" /\ rec.err = "" /\ (p.shown => r.shown) /\ rec.shown = r.shown)
        /\ Say("decoder", SameSt(r.st, rec.stv))
        /\ Say("references", SameRefs(NextRefs(Ids(e.to), h, rec.pic), rec.to))
        /\ IF Anew(ps, k, First(x)) THEN Say("interframe", ~h.key) /\ Say("quantizer", Quant(x, ps, k, h))
           ELSE Say("preserved", [h EXCEPT !.skipOn = p.hdr.skipOn, !.skipProb = p.hdr.skipProb] = p.hdr /\ SameModes(r, p))
        /\ ~p.hdr.key => Say("prediction", SameModes(r, p) /\ h.biasG = p.hdr.biasG /\ h.biasA = p.hdr.biasA)
        /\ k = Len(ps) \/ (k = First(x) /\ p.hdr.key) => Say("refreshes", RefreshAll(h))
        /\ k # Len(ps) /\ ~p.hdr.key => Say("updates", <<h.refreshL, h.refreshG, h.refreshA, h.copyG, h.copyA>> = <<p.hdr.refreshL, p.hdr.refreshG, p.hdr.refreshA, p.hdr.copyG, p.hdr.copyA>>)
  IN <<fine, [e EXCEPT !.st = StOf(rec.stv, e.to.w, e.to.h), !.to = rec.to]>>
Re ==
  /\ IsEvent("re")
  /\ LET d == ds[Ev.d]
         ps == TLCEval(Preds(Ev, d))
     IN IF Impossible(Ev, ps) \/ Ev.outs = <<>> THEN
          /\ Say("refused", Impossible(Ev, ps) /\ Ev.err # "")
          /\ es' = [x \in DOMAIN es \ {Ev.n} |-> es[x]] /\ UNCHANGED names
        ELSE
          LET f == First(Ev)
              end == TLCEval(FoldLeft(LAMBDA a, k : TLCEval(IF ~a[1] THEN a ELSE ReFrame(Ev, ps, k + f - 1, a[2], Ev.outs[k].by, Ev.rs[k])),
                               <<TRUE, es[Ev.n]>>, [k \in 1..Len(Ev.outs) |-> k]))
              q == TLCEval(FoldLeft(LAMBDA a, x : LET g == Learn(a[2], x) IN <<a[1] /\ g[1], g[2]>>, <<TRUE, names>>, Append(Ev.rs, Ev)))
              h == DecodeState(Ev.outs[Len(Ev.outs)].by, end[2].to.w, end[2].to.h, end[2].st, FALSE).hdr
          IN /\ Say("failed", Ev.err = "") /\ Say("frames", Len(Ev.outs) = Len(ps) - (f - 1))
             /\ end[1]
             /\ Say("lockstep", end[2].to = Ev.to /\ Ev.own)
             /\ Say("identity", q[1]) /\ names' = q[2]
             /\ es' = [es EXCEPT ![Ev.n] = [end[2] EXCEPT !.has = TRUE, !.lq = IF end[2].rt THEN h.yq ELSE -1]]
  /\ UNCHANGED ds /\ Forget(Ev.n)

Look ==
  /\ IsEvent("look")
  /\ Say("encoders", {Ev.es[i].n : i \in 1..Len(Ev.es)} = DOMAIN es /\ \A i \in 1..Len(Ev.es) : LET x == Ev.es[i] IN x.to = es[x.n].to /\ x.own)
  /\ LET q == TLCEval(FoldLeft(LAMBDA a, x : LET g == Learn(a[2], x) IN <<a[1] /\ g[1], g[2]>>, <<TRUE, names>>, Ev.es)) IN Say("identity", q[1]) /\ names' = q[2]
  /\ UNCHANGED <<es, ds, tab>>
(* How alike two pictures are said to be.                                    *)
Alike ==
  /\ IsEvent("ssim")
  /\ LET v == Ssim(Ev.a, Ev.b, Ev.w, Ev.h) IN
     /\ Say("ssim", Within(Ev.q, v) /\ Within(Ev.q2, v) /\ Ev.self >= 999990 /\ Ev.self <= 1000010)
     /\ Say("range", Ev.q <= 1000010)
  /\ UNCHANGED <<es, ds, names, tab>>
TraceInit == TInit /\ es = <<>> /\ ds = <<>> /\ names = <<>> /\ tab = NoTab
TraceNext == DNew \/ Feed \/ New \/ From \/ Copy \/ Drop \/ Enc \/ Est \/ Tab \/ Re \/ Alike \/ Look
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
