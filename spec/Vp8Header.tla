----------------------------- MODULE Vp8Header -----------------------------
(* VP8 frame tag and frame header (RFC 6386 sections 9 and 19), and what the *)
(* header does to the state that persists from frame to frame.               *)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, Vp8Tables, Vp8Bool, TLC

------------------------------------------------------------------------------
(* Persistent state.                                                         *)
(*  coef  1056 coefficient probabilities; ym, uvm intra mode probabilities;  *)
(*  mv    2 x 19 motion vector probabilities, flattened                      *)
(*  seg   segmentation: on, abs (segment values replace the frame's), q, lf, *)
(*        map (one segment number per macroblock, raster order)              *)
(*  lfd   loop filter deltas: on, ref, mode                                  *)
(*  last, golden, alt  reference pictures                                    *)

DefaultProbs == [coef |-> DefaultCoefProb, ym |-> DefaultYModeProb,
                 uvm |-> DefaultUvModeProb, mv |-> DefaultMvProb]

Zero4 == <<0, 0, 0, 0>>
NoSeg(n) == [on |-> FALSE, abs |-> FALSE, q |-> Zero4, lf |-> Zero4, map |-> TLCEval([i \in 1..n |-> 0])]
NoLfd == [on |-> FALSE, ref |-> Zero4, mode |-> Zero4]

------------------------------------------------------------------------------
(* Frame tag. `by` is the whole frame, a sequence of bytes.                  *)
Bit(x, n) == (x \div Pow2[n + 1]) % 2

Tag(by) ==
  LET v == by[1] + (256 * by[2]) + (65536 * by[3])
  IN [key |-> Bit(v, 0) = 0, version |-> (v \div 2) % 8, show |-> Bit(v, 4) = 1, plen |-> v \div 32]

FirstPart(by) == IF by[1] % 2 = 0 THEN 10 ELSE 3   \* offset of the first partition

(* Why a frame is not decodable by a decoder of w x h pictures; "" if it is. *)
Refusal(by, w, h) ==
  IF Len(by) < 3 THEN "short"
  ELSE LET t == Tag(by) IN
    IF t.version # 0 THEN "version"
    ELSE IF Len(by) < FirstPart(by) + t.plen THEN "first partition"
    ELSE IF t.key /\ <<by[4], by[5], by[6]>> # <<157, 1, 42>> THEN "start code"
    ELSE IF t.key /\ (by[7] + (256 * by[8]) # w \/ by[9] + (256 * by[10]) # h) THEN "dimensions"
    ELSE ""

------------------------------------------------------------------------------
(* Header fields. Every parser takes the byte string b and a decoder d; Rd   *)
(* chains single reads and collects values in `acc`.                         *)

ReadN(b, d, n, R(_, _)) ==   \* n values read by R, as <<values, decoder>>
  FoldLeft(LAMBDA a, i : TLCEval(LET e == TLCEval(R(b, a[2])) IN <<Append(a[1], e[1]), e>>), <<<<>>, d>>, [i \in 1..n |-> i])

Flag(b, d) == TLCEval(Get(b, d, 128))
S7(b, d) == FlaggedS(b, d, 7, 0)
S6(b, d) == FlaggedS(b, d, 6, 0)
S4(b, d) == FlaggedS(b, d, 4, 0)
U8f(b, d) == FlaggedU(b, d, 8, 255)
U8(b, d) == Lit(b, d, 8)

(* update_segmentation: present iff the segmentation_enabled flag is set     *)
NoSegUpdate == [on |-> FALSE, map |-> FALSE, data |-> FALSE, abs |-> FALSE, q |-> Zero4, lf |-> Zero4,
                tree |-> <<255, 255, 255>>]
ParseSeg(b, d0) ==
  LET d1 == Flag(b, d0) IN
  IF d1[1] = 0 THEN <<NoSegUpdate, d1>>
  ELSE LET d2 == Flag(b, d1)                                \* update_mb_segmentation_map
           d3 == Flag(b, d2)                                \* update_segment_feature_data
           d4 == IF d3[1] = 1 THEN Flag(b, d3) ELSE d3      \* segment_feature_mode
           q == TLCEval(IF d3[1] = 1 THEN ReadN(b, d4, 4, S7) ELSE <<Zero4, d3>>)
           l == TLCEval(IF d3[1] = 1 THEN ReadN(b, q[2], 4, S6) ELSE <<Zero4, d3>>)
           t == TLCEval(IF d2[1] = 1 THEN ReadN(b, l[2], 3, U8f) ELSE <<<<255, 255, 255>>, l[2]>>)
       IN <<[on |-> TRUE, map |-> d2[1] = 1, data |-> d3[1] = 1, abs |-> d3[1] = 1 /\ d4[1] = 1,
             q |-> q[1], lf |-> l[1], tree |-> t[1]], t[2]>>

(* loop filter deltas: [on, upd, ref, mode], ref and mode as sequences of    *)
(* <<present, value>>                                                        *)
DeltaP(b, d) == LET f == Flag(b, d) IN
                IF f[1] = 1 THEN LET e == TLCEval(SLit(b, f, 6)) IN SetRes(e, <<TRUE, e[1]>>)
                ELSE SetRes(f, <<FALSE, 0>>)
NoDelta == <<<<FALSE, 0>>, <<FALSE, 0>>, <<FALSE, 0>>, <<FALSE, 0>>>>
ParseLfd(b, d0) ==
  LET d1 == Flag(b, d0) IN
  IF d1[1] = 0 THEN <<[on |-> FALSE, upd |-> FALSE, ref |-> NoDelta, mode |-> NoDelta], d1>>
  ELSE LET d2 == Flag(b, d1) IN
    IF d2[1] = 0 THEN <<[on |-> TRUE, upd |-> FALSE, ref |-> NoDelta, mode |-> NoDelta], d2>>
    ELSE LET r == TLCEval(ReadN(b, d2, 4, DeltaP))
             m == TLCEval(ReadN(b, r[2], 4, DeltaP))
         IN <<[on |-> TRUE, upd |-> TRUE, ref |-> r[1], mode |-> m[1]], m[2]>>

(* Probability updates: pairs <<index, new value>> in order of index.         *)
ParseCoefUpdates(b, d) ==
  FoldLeft(LAMBDA a, i : TLCEval(
             LET f == TLCEval(Get(b, a[2], CoefUpdateProb[i])) IN
             IF f[1] = 0 THEN <<a[1], f>>
             ELSE LET e == TLCEval(Lit(b, f, 8)) IN <<Append(a[1], <<i, e[1]>>), e>>),
           <<<<>>, d>>, [i \in 1..1056 |-> i])
ParseMvUpdates(b, d) ==
  FoldLeft(LAMBDA a, i : TLCEval(
             LET f == TLCEval(Get(b, a[2], MvUpdateProb[i])) IN
             IF f[1] = 0 THEN <<a[1], f>>
             ELSE LET e == TLCEval(Lit(b, f, 7))
                  IN <<Append(a[1], <<i, IF e[1] = 0 THEN 1 ELSE e[1] * 2>>), e>>),
           <<<<>>, d>>, [i \in 1..38 |-> i])
Updated(old, ups) ==
  IF ups = <<>> THEN old
  ELSE TLCEval(FoldLeft(LAMBDA a, u : [a EXCEPT ![u[1]] = u[2]], old, ups))

(* The whole header: <<header, decoder positioned at the macroblock data>>.  *)
ParseHeader(b, key) ==
  LET d0 == BoolInit(b)
      k1 == IF key THEN Flag(b, d0) ELSE d0                 \* color_space
      k2 == IF key THEN Flag(b, k1) ELSE d0                 \* clamping_type
      sg == TLCEval(ParseSeg(b, k2))
      ft == Flag(b, sg[2])
      lv == TLCEval(Lit(b, ft, 6))
      sh == TLCEval(Lit(b, lv, 3))
      lf == TLCEval(ParseLfd(b, sh))
      pt == TLCEval(Lit(b, lf[2], 2))
      yq == TLCEval(Lit(b, pt, 7))
      qd == TLCEval(ReadN(b, yq, 5, S4))                    \* y dc, y2 dc, y2 ac, uv dc, uv ac
      rg == IF key THEN qd[2] ELSE Flag(b, qd[2])           \* refresh_golden_frame
      ra == IF key THEN qd[2] ELSE Flag(b, rg)              \* refresh_alternate_frame
      cg == TLCEval(IF key \/ rg[1] = 1 THEN SetRes(ra, 0) ELSE Lit(b, ra, 2))
      ca == TLCEval(IF key \/ ra[1] = 1 THEN SetRes(cg, 0) ELSE Lit(b, cg, 2))
      sbg == IF key THEN SetRes(ca, 0) ELSE Flag(b, ca)
      sba == IF key THEN SetRes(ca, 0) ELSE Flag(b, sbg)
      re == Flag(b, sba)                                    \* refresh_entropy_probs
      rl == IF key THEN SetRes(re, 1) ELSE Flag(b, re)      \* refresh_last
      cu == TLCEval(ParseCoefUpdates(b, rl))
      sk == Flag(b, cu[2])
      sp == TLCEval(IF sk[1] = 1 THEN Lit(b, sk, 8) ELSE SetRes(sk, 0))
      pi == TLCEval(IF key THEN SetRes(sp, 0) ELSE Lit(b, sp, 8))
      pl == TLCEval(IF key THEN SetRes(sp, 0) ELSE Lit(b, pi, 8))
      pg == TLCEval(IF key THEN SetRes(sp, 0) ELSE Lit(b, pl, 8))
      yf == IF key THEN SetRes(pg, 0) ELSE Flag(b, pg)
      ym == TLCEval(IF yf[1] = 1 THEN ReadN(b, yf, 4, U8) ELSE <<<<>>, yf>>)
      uf == IF key THEN SetRes(ym[2], 0) ELSE Flag(b, ym[2])
      um == TLCEval(IF uf[1] = 1 THEN ReadN(b, uf, 3, U8) ELSE <<<<>>, uf>>)
      mu == TLCEval(IF key THEN <<<<>>, um[2]>> ELSE ParseMvUpdates(b, um[2]))
  IN <<[key |-> key, colorspace |-> key /\ k1[1] = 1, noclamp |-> key /\ k2[1] = 1,
        seg |-> sg[1], simple |-> ft[1] = 1, level |-> lv[1], sharp |-> sh[1], lfd |-> lf[1],
        parts |-> Pow2[pt[1] + 1], yq |-> yq[1], qd |-> qd[1],
        refreshG |-> key \/ rg[1] = 1, refreshA |-> key \/ ra[1] = 1, copyG |-> cg[1], copyA |-> ca[1],
        biasG |-> sbg[1] = 1, biasA |-> sba[1] = 1, refreshProbs |-> re[1] = 1, refreshL |-> rl[1] = 1,
        coef |-> cu[1], skipOn |-> sk[1] = 1, skipProb |-> sp[1],
        pInter |-> pi[1], pLast |-> pl[1], pGold |-> pg[1], ym |-> ym[1], uvm |-> um[1], mv |-> mu[1]],
       mu[2]>>

------------------------------------------------------------------------------
(* What a header does to the persistent state.                               *)

(* Probabilities in force for this frame ...                                 *)
FrameProbs(old, h) ==
  LET base == IF h.key THEN DefaultProbs ELSE old IN
  [coef |-> Updated(base.coef, h.coef),
   ym |-> IF h.ym = <<>> THEN base.ym ELSE h.ym,
   uvm |-> IF h.uvm = <<>> THEN base.uvm ELSE h.uvm,
   mv |-> Updated(base.mv, h.mv)]
(* ... and those kept for the next.                                          *)
SavedProbs(old, h) == IF h.refreshProbs THEN FrameProbs(old, h) ELSE IF h.key THEN DefaultProbs ELSE old

(* Segmentation (without the map, which the macroblocks update). A key frame *)
(* starts from nothing; disabling keeps the values for later.                *)
NextSeg(old, h, n) ==
  IF ~h.seg.on THEN (IF h.key THEN NoSeg(n) ELSE [old EXCEPT !.on = FALSE])
  ELSE LET base == IF h.key THEN NoSeg(n) ELSE old IN
       IF h.seg.data THEN [base EXCEPT !.on = TRUE, !.abs = h.seg.abs, !.q = h.seg.q, !.lf = h.seg.lf]
       ELSE [base EXCEPT !.on = TRUE]

NextLfd(old, h) ==
  IF ~h.lfd.on THEN (IF h.key THEN NoLfd ELSE [old EXCEPT !.on = FALSE])
  ELSE LET base == IF h.key THEN NoLfd ELSE old IN
       IF h.lfd.upd THEN [on |-> TRUE, ref |-> [i \in 1..4 |-> h.lfd.ref[i][2]],
                                       mode |-> [i \in 1..4 |-> h.lfd.mode[i][2]]]
       ELSE [base EXCEPT !.on = TRUE]

(* References: [last, golden, alt] after a frame whose picture is new.       *)
NextRefs(r, h, new) ==
  LET a1 == IF h.copyA = 1 THEN r.last ELSE IF h.copyA = 2 THEN r.golden ELSE r.alt
      g1 == IF h.copyG = 1 THEN r.last ELSE IF h.copyG = 2 THEN a1 ELSE r.golden
  IN [last |-> IF h.refreshL THEN new ELSE r.last,
      golden |-> IF h.refreshG THEN new ELSE g1,
      alt |-> IF h.refreshA THEN new ELSE a1]
=============================================================================
