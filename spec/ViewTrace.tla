----------------------------- MODULE ViewTrace ------------------------------
EXTENDS TraceKit
V == INSTANCE View
VARIABLES c, s
vars == <<tid, l, c, s>>
Init == TInit /\ c = [k \in 0..4 |-> <<>>] /\ s = <<V!Missing, V!Missing, V!Missing>>
Bytes == IsEvent("bytes") /\ c' = [k \in 0..4 |-> IF k = 0 THEN Ev.b ELSE <<>>] /\ UNCHANGED s
Piece(good, off, len) ==
  /\ Ev.ok = good
  /\ IF good THEN Ev.got = V!Part(c[Ev.i], off, len) /\ Ev.size = len /\ c' = [c EXCEPT ![Ev.j] = Ev.got] ELSE UNCHANGED c
  /\ UNCHANGED s
APart == IsEvent("part") /\ Piece(~Ev.bigoff /\ ~Ev.biglen /\ V!Fits(c[Ev.i], Ev.off, Ev.len), Ev.off, Ev.len)
Rest == IsEvent("rest") /\ Piece(~Ev.bigoff /\ V!Fits(c[Ev.i], Ev.off, 0), Ev.off, Len(c[Ev.i]) - Ev.off)
Le == /\ IsEvent("le") /\ Ev.ok = (Ev.n <= Len(c[Ev.i])) /\ Ev.got = (IF Ev.ok THEN V!Little(c[Ev.i], Ev.n) ELSE <<>>) /\ UNCHANGED <<c, s>>
Bits == /\ IsEvent("bits") /\ Ev.ok = V!BitsGood(c[Ev.i], Ev.off, Ev.len) /\ Ev.got = (IF Ev.ok THEN V!Bits(c[Ev.i], Ev.off, Ev.len) ELSE <<>>) /\ UNCHANGED <<c, s>>
(* ---- holders ---- *)
N(b) == IF b THEN 1 ELSE 0
Look == /\ Ev.has = [k \in 1..3 |-> N(s'[k].has)] /\ Ev.val = [k \in 1..3 |-> s'[k].val]
        /\ Ev.live = N(s'[1].has) + N(s'[2].has) + N(s'[3].has) /\ Ev.strange = 0 /\ UNCHANGED c
Set(i, x) == s' = [s EXCEPT ![i] = x]
Plain == ~Ev.threw
Fails == Ev.v = 1 /\ s[Ev.j].has
Hold ==
  \/ IsEvent("init") /\ s' = <<V!Missing, V!Missing, V!Missing>> /\ Plain
  \/ IsEvent("cmake") /\ Plain /\ Set(Ev.i, IF Ev.v >= 0 THEN V!Held(Ev.v) ELSE V!Missing)
  \/ IsEvent("cvalue") /\ Plain /\ Set(Ev.i, V!Held(Ev.v))
  \/ IsEvent("ccopy") /\ Ev.threw = Fails /\ Set(Ev.i, IF Fails THEN V!Missing ELSE s[Ev.j])
  \/ IsEvent("cmove") /\ Plain /\ (\E x \in V!AfterMove(s[Ev.j]) : s' = [s EXCEPT ![Ev.i] = s[Ev.j], ![Ev.j] = x])
  \/ /\ IsEvent("copy")
     /\ IF Ev.i = Ev.j THEN s' = s \/ (Ev.threw /\ \E x \in V!AfterFailure(s[Ev.i]) : Set(Ev.i, x))
        ELSE Ev.threw = Fails /\ (IF Fails THEN \E x \in V!AfterFailure(s[Ev.i]) : Set(Ev.i, x) ELSE Set(Ev.i, s[Ev.j]))
  \/ /\ IsEvent("move") /\ Plain
     /\ IF Ev.i = Ev.j THEN \E x \in V!AfterMove(s[Ev.i]) : Set(Ev.i, x)
        ELSE (\E x \in V!AfterMove(s[Ev.j]) : s' = [s EXCEPT ![Ev.i] = s[Ev.j], ![Ev.j] = x])
  \/ IsEvent("fill") /\ Plain /\ ~s[Ev.i].has /\ Set(Ev.i, V!Held(Ev.v))
  \/ IsEvent("again") /\ Plain /\ Set(Ev.i, V!Held(Ev.v))
  \/ IsEvent("clear") /\ Plain /\ Set(Ev.i, V!Missing)
  \/ IsEvent("same") /\ Plain /\ s' = s /\ Ev.ans = (s[Ev.i].has = s[Ev.j].has /\ (s[Ev.i].has => s[Ev.i].val = s[Ev.j].val))
  \/ IsEvent("getor") /\ Plain /\ s' = s /\ Ev.num = (IF s[Ev.i].has THEN s[Ev.i].val ELSE Ev.v)
Next == Bytes \/ APart \/ Rest \/ Le \/ Bits \/ (Hold /\ Look)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
