----------------------------- MODULE SavedTrace -----------------------------
(* Conformance of saving and restoring: traces of harness/saved.cc.          *)
EXTENDS TraceKit, SavedState
VARIABLES pics,    \* pictures by number
          files,   \* name -> [by, st, same]: bytes, the state saved, whether its references coincided
          twins    \* name of a loaded state -> may be compared with its origin
vars == <<pics, files, twins, tid, l>>
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"DIFF", what, tid, l>>) /\ FALSE
Hold(ps, new) == [i \in 1..(Len(ps) + Len(new)) |-> IF i <= Len(ps) THEN ps[i] ELSE new[i - Len(ps)]]
Now == TLCEval(Hold(pics, Ev.new))
Numbered(ps) == \A i \in 1..Len(Ev.new) : Ev.new[i].id = Len(pics) + i

(* the state an event describes, in the terms of SavedState                  *)
Of(x, ps) ==
  LET r == ps[x.L]  s == x.st IN
  [w |-> s.w, h |-> s.h, coef |-> s.coef, ym |-> s.ym, uvm |-> s.uvm, mv |-> s.mv,
   seg |-> IF s.seg.on THEN [on |-> TRUE, abs |-> s.seg.abs, w |-> s.mw, h |-> s.mh, q |-> s.seg.q, lf |-> s.seg.lf, map |-> s.map] ELSE [on |-> FALSE],
   lfd |-> s.lfd, ref |-> [w |-> r.w, h |-> r.h, y |-> r.y, u |-> r.u, v |-> r.v]]

Quiet == /\ \/ IsEvent("dnew") \/ IsEvent("feed") \/ IsEvent("same")
         /\ pics' = Now /\ twins' = [x \in DOMAIN twins \ {Ev.d} |-> twins[x]] /\ UNCHANGED files
Save ==
  /\ IsEvent("save")
  /\ LET ps == Now  s == TLCEval(Of(Ev, ps)) IN
     /\ Numbered(ps)
     /\ Say("file", Ev.by = Write(s))
     /\ Say("own reading", LET p == Parse(Ev.by) IN p[1] /\ p[2] /\ p[3] = s)
     /\ pics' = ps
     /\ files' = (Ev.f :> [by |-> Ev.by, st |-> s, same |-> Ev.L = Ev.G /\ Ev.L = Ev.A, d |-> Ev.d]) @@ files
  /\ UNCHANGED twins
Load ==
  /\ IsEvent("load")
  /\ LET ps == Now  F == files[Ev.f] IN
     /\ Say("read", Ev.err = "")
     /\ Say("restored", Of(Ev, ps) = F.st /\ Ev.G = Ev.L /\ Ev.A = Ev.L /\ Ev.w = F.st.w /\ Ev.h = F.st.h)
     /\ Say("same bytes", Ev.again)
     /\ Say("same identity", F.same => Ev.eq /\ ~Ev.ne /\ Ev.hash /\ Ev.str /\ Ev.mini)
     /\ Say("same state", Ev.eqs /\ Ev.shash)
     /\ Say("other references", ~F.same => ~Ev.eq /\ Ev.ne /\ ~Ev.str)
     /\ pics' = ps /\ twins' = (Ev.f :> F.same) @@ twins
  /\ UNCHANGED files
Both ==
  /\ IsEvent("both")
  /\ Say("goes on alike", (Ev.f \in DOMAIN twins /\ twins[Ev.f]) => Ev.a = Ev.b)
  /\ pics' = Now /\ UNCHANGED <<files, twins>>
Cuts == IsEvent("cuts") /\ Say("cut short", Ev.ok = <<>>) /\ UNCHANGED <<pics, files, twins>>
Long == IsEvent("long") /\ Say("longer", ~Ev.ok) /\ UNCHANGED <<pics, files, twins>>
Xor(a, b) == LET Bit(i) == IF (a \div i) % 2 # (b \div i) % 2 THEN i ELSE 0 IN Bit(1) + Bit(2) + Bit(4) + Bit(8) + Bit(16) + Bit(32) + Bit(64) + Bit(128)
Sweep ==
  /\ IsEvent("sweep")
  /\ LET b == files[Ev.f].by IN
     Say("changed byte", \A i \in 1..Len(Ev.outs) :
       LET o == Ev.outs[i]  p == Parse([b EXCEPT ![o[1]] = Xor(@, Ev.x)])
           good == IF ~p[1] THEN o[2] = 0 ELSE IF p[2] THEN o[2] = 1 /\ o[3] = 0 ELSE TRUE
       IN IF good THEN TRUE ELSE PrintT(<<"AT", o, b[o[1]]>>) /\ FALSE)
  /\ UNCHANGED <<pics, files, twins>>
PartBytes(k, s) == CASE k = "state" -> WState(s) [] k = "refs" -> WRefs(s.ref) [] k = "probs" -> <<TProb>> \o Le4(ProbN) \o s.coef \o s.ym \o s.uvm \o s.mv
                     [] k = "seg" -> Tail(WSeg(s.seg)) [] k = "lfd" -> Tail(WAdj(s.lfd))
Part ==
  /\ IsEvent("part")
  /\ LET ps == Now  s == TLCEval(Of(Ev, ps)) IN
     /\ Say("part", Ev.by = PartBytes(Ev.k, s) /\ Ev.left = 0 /\ ((Ev.k # "refs" \/ (Ev.L = Ev.G /\ Ev.L = Ev.A)) => Ev.eq))
     /\ pics' = ps
  /\ UNCHANGED <<files, twins>>
TraceInit == TInit /\ pics = <<>> /\ files = <<>> /\ twins = <<>>
TraceNext == Quiet \/ Save \/ Load \/ Both \/ Cuts \/ Long \/ Sweep \/ Part
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
