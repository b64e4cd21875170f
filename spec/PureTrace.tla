------------------------------ MODULE PureTrace ------------------------------
(* Conformance of decoders as values: traces of harness/pure.cc. Nothing is  *)
(* said here about what a decoder computes (see Vp8Trace), only that equal   *)
(* states and equal frames always give the same, that copies are            *)
(* independent, and that identities tell states apart exactly.               *)
EXTENDS TraceKit, FiniteSets, SequencesExt
VARIABLES sts,   \* the different states seen: [v, hash, str, mini]
          tab,   \* <<state, frame>> -> [err, shown, pic, to]
          cur,   \* decoder -> state
          kept   \* number -> picture
vars == <<sts, tab, cur, kept, tid, l>>

Same(r, v) == r.v = v
Find(ss, v) == LET S == {i \in 1..Len(ss) : ss[i].v = v} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
(* What an event x says about a state: x.to and its names. <<ok, states,     *)
(* index>>.                                                                  *)
Learn(ss, x) ==
  LET i == Find(ss, x.to) IN
  IF i # 0 THEN <<ss[i].hash = x.hash /\ ss[i].str = x.str /\ ss[i].mini = x.mini /\ x.match, ss, i>>
  ELSE <<x.match /\ \A k \in 1..Len(ss) : ss[k].hash # x.hash /\ ss[k].str # x.str /\ ss[k].mini # x.mini,
         Append(ss, [v |-> x.to, hash |-> x.hash, str |-> x.str, mini |-> x.mini]), Len(ss) + 1>>
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"DIFF", what, tid, l>>) /\ FALSE

New ==
  /\ IsEvent("new")
  /\ LET q == TLCEval(Learn(sts, Ev)) IN
     /\ Say("identity", q[1]) /\ Ev.to.L = Ev.to.G /\ Ev.to.L = Ev.to.A
     /\ sts' = q[2] /\ cur' = (Ev.d :> q[3]) @@ cur
  /\ UNCHANGED <<tab, kept>>
Copy ==
  /\ \/ IsEvent("fork") \/ IsEvent("parts") \/ IsEvent("asg")
  /\ LET q == TLCEval(Learn(sts, Ev)) IN
     /\ Say("identity", q[1])
     /\ Say("copy", q[3] = cur[Ev.d])
     /\ cur' = (Ev.into :> q[3]) @@ cur
  /\ UNCHANGED <<sts, tab, kept>>
Drop == IsEvent("drop") /\ cur' = [x \in DOMAIN cur \ {Ev.d} |-> cur[x]] /\ UNCHANGED <<sts, tab, kept>>
Dec ==
  /\ IsEvent("dec")
  /\ LET q == TLCEval(Learn(sts, Ev.r))
         k == <<cur[Ev.d], Ev.f>>
         r == [err |-> Ev.r.err, shown |-> Ev.r.shown, pic |-> Ev.r.pic, to |-> q[3]]
     IN /\ Say("identity", q[1])
        /\ Say("function", k \in DOMAIN tab => tab[k] = r)
        /\ sts' = q[2] /\ tab' = (k :> r) @@ tab /\ cur' = (Ev.d :> q[3]) @@ cur
        /\ kept' = IF Ev.kept = 0 THEN kept ELSE (Ev.kept :> Ev.r.pic) @@ kept
Out == IsEvent("out") /\ kept' = [x \in DOMAIN kept \ {Ev.n} |-> kept[x]] /\ UNCHANGED <<sts, tab, cur>>
Tweak ==
  /\ IsEvent("tweak")
  /\ LET q == TLCEval(Learn(sts, Ev)) IN
     /\ Say("identity", q[1]) /\ sts' = q[2] /\ cur' = (Ev.into :> q[3]) @@ cur
     /\ Say("built", Ev.got = sts[cur[Ev.d]].v /\ Ev.given = Ev.to)
     (* one element changed, and no other, is enough to make states unequal *)
     /\ LET s == q[3] = cur[Ev.d]  refs == <<Ev.to.L, Ev.to.G, Ev.to.A>> = <<sts[cur[Ev.d]].v.L, sts[cur[Ev.d]].v.G, sts[cur[Ev.d]].v.A>> IN
        Say("changed", Ev.eq = s /\ Ev.eq1 = s /\ Ev.ne = ~s /\ Ev.heq = s /\ Ev.req = refs /\ Ev.seq = (s \/ ~refs))
  /\ UNCHANGED <<tab, kept>>
(* Threads: each run ends where decoding one frame after the other ended.    *)
Run(x) ==
  LET e == FoldLeft(LAMBDA a, f : LET r == tab[<<a[1], f>>] IN <<r.to, IF r.err = "" THEN Append(a[2], r.pic) ELSE a[2]>>, <<cur[x.d], <<>>>>, x.fs)
      q == TLCEval(Learn(sts, x))
  IN Say("thread", e[2] = x.pics /\ q[3] = e[1]) /\ Say("origin", x.same /\ x.from = sts[cur[x.d]].str) /\ Say("identity", q[1])
Par == IsEvent("par") /\ (\A i \in 1..Len(Ev.runs) : Run(Ev.runs[i])) /\ UNCHANGED <<sts, tab, cur, kept>>
Look ==
  /\ IsEvent("look")
  /\ Say("kept", {Ev.kept[i].n : i \in 1..Len(Ev.kept)} = DOMAIN kept /\ \A i \in 1..Len(Ev.kept) : Ev.kept[i].is = kept[Ev.kept[i].n])
  /\ Say("decoders", \A i \in 1..Len(Ev.ds) : LET q == TLCEval(Learn(sts, Ev.ds[i])) IN q[1] /\ q[3] = cur[Ev.ds[i].d])
  /\ Say("equality", \A i \in 1..Len(Ev.eqs) : LET x == Ev.eqs[i]  s == cur[x.a] = cur[x.b] IN x.eq = s /\ x.ne = ~s /\ x.heq = s)
  /\ UNCHANGED <<sts, tab, cur, kept>>
TraceInit == TInit /\ sts = <<>> /\ tab = <<>> /\ cur = <<>> /\ kept = <<>>
TraceNext == New \/ Copy \/ Drop \/ Dec \/ Out \/ Tweak \/ Par \/ Look
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
