----------------------------- MODULE ToolsTrace -----------------------------
(* Conformance of the tools: traces of checks/c19.py. The first event of a   *)
(* trace holds the table of what decoding each of its frames gives in the    *)
(* states where that is needed (measured with the real decoder, which        *)
(* C09/C10 judge), the frames' bytes and the states' parts.                  *)
EXTENDS TraceKit, Tools, Vp8Recode
VARIABLE fs      \* the files
vars == <<fs, tid, l>>

Tb == Traces[tid][1]
TT(s, f) == Tb.T[s][f]
TH(s) == Tb.st[s].h
TD(s) == <<Tb.st[s].w, Tb.st[s].h2>>
TR(s) == [last |-> Tb.st[s].L, golden |-> Tb.st[s].G, alt |-> Tb.st[s].A]
TB(s) == Tb.st[s].B
TK(f) == Tb.fr[f].key
TF(w, h) == LET i == SelectInSeq(Tb.fresh, LAMBDA e : e[1] = w /\ e[2] = h) IN Tb.fresh[i][3]
Displayed(pics) == [i \in 1..Len(pics) |-> Tb.disp[pics[i]]]
File(i) == IF i = 0 THEN No ELSE fs[i]
Ivf(c) == c.k = "ivf"
StOk(i) == i = 0 \/ File(i).k = "st"

Agree(what, cond) == IF cond THEN TRUE ELSE PrintT(<<"DIFF", what, tid, l>>) /\ FALSE
Made == fs' = IF Ev.ok THEN fs \o Ev.out ELSE fs
Refused == Agree("refused", ~Ev.ok)

Hold == IsEvent("file") /\ fs' = Append(fs, Ev.c)
Table == IsEvent("table") /\ UNCHANGED fs

(* The frames said, one after the other.                                     *)
Sayings(c) ==
  FoldLeft(LAMBDA a, f : LET r == Said(Tb.fr[f].by, c.w, c.h, a.st) IN
             IF r.err # "" THEN a ELSE [st |-> r.st, said |-> Append(a.said, [r EXCEPT !.by = <<>>])],
           [st |-> [probs |-> DefaultProbs, seg |-> NoSeg(MbDim(c.w) * MbDim(c.h)), lfd |-> NoLfd], said |-> <<>>], c.f).said

Modes(mbs) == [i \in 1..Len(mbs) |-> [mbs[i] EXCEPT !.skip = FALSE]]
NoCoef(c) == \A k \in 1..25 : c[k] = ZeroBlock

DoDump == Ev.t = "dump" /\
  LET c == File(Ev.a)
      o == IF ~Ivf(c) \/ ~StOk(Ev.st) THEN No ELSE Dump(TT, TH, TF, c, File(Ev.st), Ev.n)
  IN IF o.k = "none" THEN Refused ELSE Agree("dump", Ev.ok /\ Len(Ev.out) = 1 /\ Ev.out[1].k = "st" /\ SavedAs(TR, TB, o.s, Ev.out[1].s))

DoMerge == Ev.t = "merge" /\
  LET a == File(Ev.a)  b == File(Ev.b)
      o == IF ~Ivf(a) \/ ~Ivf(b) THEN No ELSE Merge(a, b)
  IN IF o.k = "none" THEN Refused
     ELSE Agree("merge", Ev.ok /\ LET q == Ev.out[1] IN Ivf(q) /\ q.w = o.w /\ q.h = o.h /\ q.x = o.x /\ q.f = o.f)

DoTerm == Ev.t = "term" /\
  LET c == File(Ev.a) IN
  IF ~Ivf(c) THEN Refused
  ELSE IF ~Terminable(TT, TH, TF, c) THEN Refused
  ELSE /\ Ev.ok /\ Ivf(Ev.out[1])
       /\ Agree("term", (Terminates(TT, TH, TF, TR, TB, c, Ev.out[1]) \/ LET s == Sayings(c) IN \E i \in 1..Len(s) : s[i].deep))
       /\ Agree("term state", Len(Ev.out) = 2 => Ev.out[2] = [k |-> "st", s |-> Play(TT, TF(c.w, c.h), Ev.out[1].f).s])

(* Without the residues: interframes say the same, with nothing left.        *)
DoZero == Ev.t = "zero" /\
  LET c == File(Ev.a) IN
  IF ~Ivf(c) THEN Refused
  ELSE IF ~Terminable(TT, TH, TF, c) THEN Refused
  ELSE LET s == TLCEval(Sayings(c)) IN
    IF \E i \in 1..Len(s) : s[i].deep THEN TRUE
    \* without a skip probability there is no saying that a macroblock is empty: such a frame may be refused
    ELSE IF ~Ev.ok /\ \E i \in 1..Len(s) : ~s[i].hdr.key /\ ~s[i].hdr.skipOn THEN TRUE
    ELSE Agree("zero", Ev.ok /\ LET o == Ev.out[1]  q == TLCEval(Sayings(o)) IN
           /\ o.w = c.w /\ o.h = c.h /\ Len(o.f) = Len(c.f) /\ Len(q) = Len(s)
           /\ \A i \in 1..Len(s) : IF s[i].hdr.key THEN SameSaying(s[i], q[i])
                                  ELSE /\ s[i].show = q[i].show /\ s[i].hdr = q[i].hdr /\ Modes(s[i].mbs) = Modes(q[i].mbs)
                                       /\ \A n \in 1..Len(q[i].blocks) : NoCoef(q[i].blocks[n]))

DoEnc == Ev.t = "enc" /\
  LET v == File(Ev.a) IN
  IF ~StOk(Ev.st) \/ v.k \notin {"y4m", "ivf"} THEN Refused   \* (the tool is told which of the two)
  ELSE LET np == IF v.k = "y4m" THEN Len(v.p) ELSE Len(PlayFile(TT, TH, TD, TF, TK, v, No).pics) IN
       IF v.k = "ivf" /\ LET d == PlayFile(TT, TH, TD, TF, TK, v, No) IN ~d.ok \/ d.hidden THEN TRUE
       ELSE IF Ev.st # 0 /\ TD(File(Ev.st).s) # <<v.w, v.h>> THEN TRUE
       ELSE /\ Agree("enc", Ev.ok /\ Ivf(Ev.out[1]) /\ Encodes(TT, TH, TF, TK, np, v.w, v.h, File(Ev.st), Ev.out[1]))
            /\ Agree("quantizer", Ev.mode = "y" => \A i \in 1..Len(Ev.out[1].f) : Tb.fr[Ev.out[1].f[i]].yq = Ev.val)

DoReenc == Ev.t = "reenc" /\
  LET v == File(Ev.a)  p == File(Ev.b) IN
  IF v.k # "y4m" \/ ~Ivf(p) \/ ~StOk(Ev.ps) \/ File(Ev.st).k # "st" THEN Refused
  ELSE IF ~Recodable(TT, TH, TD, TF, TK, Len(v.p), v.w, v.h, p, File(Ev.ps), File(Ev.st), Ev.extra) THEN Refused
  ELSE IF \E i \in 1..Len(p.f) : Tb.fr[p.f[i]].seg THEN TRUE    \* segmentation is not supported there
  ELSE Agree("reenc", Ev.ok /\ Ivf(Ev.out[1]) /\
             Recodes(TT, TH, TF, TR, TK, Len(v.p), v.w, v.h, p, File(Ev.ps), File(Ev.st), Ev.extra, Ev.out[1], Ev.out[2]))

DoBundle == Ev.t = "bundle" /\
  LET cs == [i \in 1..Len(Ev.cs) |-> File(Ev.cs[i])]
      i == SelectInSeq(cs, LAMBDA c : ~Ivf(c))
      good == IF i = 0 THEN cs ELSE SubSeq(cs, 1, i - 1)
  IN IF ~StOk(Ev.st) THEN Refused /\ Ev.pics = <<>>
     ELSE IF good # <<>> /\ Ev.st # 0 /\ TD(File(Ev.st).s) # <<good[1].w, good[1].h>> /\ good[1].x = "" THEN TRUE
     ELSE LET r == Bundle(TT, TH, TF, good, File(Ev.st)) IN
       /\ Agree("bundle", Ev.ok = (r.ok /\ i = 0))
       /\ Agree("displayed", Ev.pics = Displayed(r.pics))

DoDecode == Ev.t = "decode" /\
  LET c == File(Ev.a) IN
  IF ~Ivf(c) \/ ~StOk(Ev.st) THEN Refused /\ Ev.pics = <<>>
  ELSE LET r == PlayFile(TT, TH, TD, TF, TK, c, File(Ev.st))
           i == SelectInSeq(c.f, LAMBDA f : TK(f))
           skipped == IF Ev.st # 0 THEN <<>> ELSE SubSeq(c.f, 1, IF i = 0 THEN Len(c.f) ELSE i - 1)
       IN \* a broken frame among those passed over may be noticed
    IF ~Ev.ok /\ Ev.pics = <<>> /\ \E j \in 1..Len(skipped) : ~TT(TF(c.w, c.h), skipped[j]).ok THEN TRUE
    ELSE
    /\ Agree("decode", r.hidden \/ Ev.ok = r.ok)
    /\ Agree("displayed", Ev.pics = Displayed(r.pics))

DoDiff == Ev.t = "diff" /\
  IF File(Ev.a).k # "st" \/ File(Ev.b).k # "st" THEN Refused ELSE Agree("diff", Ev.ok = (File(Ev.a).s = File(Ev.b).s))
DoSize == Ev.t = "size" /\
  LET c == File(Ev.a) IN IF ~Ivf(c) THEN Refused ELSE Agree("sizes", Ev.ok /\ Ev.lens = [i \in 1..Len(c.f) |-> Tb.fr[c.f[i]].n] /\ Ev.total = c.n)

DoComp == Ev.t = "comp" /\ (File(Ev.a).k = "st" /\ File(Ev.b).k = "st" => Agree("comp", Ev.ok = (File(Ev.a).s = File(Ev.b).s)))

Run == IsEvent("run") /\ Agree("died", ~Ev.died) /\ Made /\
       (DoDump \/ DoMerge \/ DoTerm \/ DoZero \/ DoEnc \/ DoReenc \/ DoBundle \/ DoDecode \/ DoDiff \/ DoComp \/ DoSize)

TraceInit == TInit /\ fs = <<>>
TraceNext == Table \/ Hold \/ Run
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
