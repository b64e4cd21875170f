---------------------------- MODULE Vp8CoderTrace ---------------------------
(* Conformance of the arithmetic coder and what is written with it directly: *)
(* traces of harness/coder.cc.                                               *)
EXTENDS TraceKit, Vp8Decode
vars == <<tid, l>>

Str(by) == [by |-> by, lo |-> 1, hi |-> Len(by), enc |-> FALSE, soft |-> FALSE]
Symbols(p, b) == [i \in 1..Len(p) |-> <<p[i], b[i]>>]
Bits(by, ps) ==
  LET b == Str(by) IN
  FoldLeft(LAMBDA a, p : TLCEval(LET d == TLCEval(Get(b, a[2], p)) IN <<Append(a[1], d[1]), d>>), <<<<>>, BoolInit(b)>>, ps)[1]
First(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)

(* Written, finished, written again by the same coder, and read.             *)
Code ==
  /\ IsEvent("code")
  /\ LET s == TLCEval(Symbols(Ev.p, Ev.b)) IN
     /\ Ev.by = Encoded(s)
     /\ Ev.by2 = Encoded(First(s, 8))
     /\ First(Ev.r, Len(s)) = Ev.b
     /\ Ev.r = Bits(Ev.by, Ev.p \o [i \in 1..Ev.extra |-> 128])
Read == IsEvent("read") /\ Ev.r = Bits(Ev.by, Ev.p)

TreeOf(n) == CASE n = "kfy" -> KfYModeTree [] n = "y" -> YModeTree [] n = "uv" -> UvModeTree [] n = "b" -> BModeTree [] n = "seg" -> SegTree
               [] n = "smallmv" -> SmallMvTree [] n = "split" -> SplitMvTree [] n = "mvref" -> MvRefTree [] n = "submv" -> SubMvRefTree
Base(n) == IF n = "mvref" THEN 5 ELSE 0
(* The way to a value in a tree: <<probability, bit>>...                     *)
RECURSIVE Way(_, _, _, _)
Way(t, ps, v, i) ==   \* <<>> if it is not below node i
  LET Try(b) == LET x == t[i + b + 1]
                    here == <<<<ps[(i \div 2) + 1], b>>>> IN
                IF x < 0 THEN (IF -1 - x = v THEN here ELSE <<>>)
                ELSE LET w == Way(t, ps, v, x) IN IF w = <<>> THEN <<>> ELSE here \o w
      w0 == Try(0)
  IN IF w0 # <<>> THEN w0 ELSE Try(1)
Times(s, n) == FoldLeft(LAMBDA a, i : a \o s, <<>>, [i \in 1..n |-> i])
Tree ==
  /\ IsEvent("tree")
  /\ LET w == TLCEval(Way(TreeOf(Ev.name), Ev.probs, Ev.v + Base(Ev.name), 0)) IN
     /\ Ev.by = Encoded(Times(w, Ev.times))
     /\ Ev.r = [i \in 1..Ev.times |-> Ev.v]

Many(b, n, F(_, _)) == FoldLeft(LAMBDA a, i : TLCEval(LET d == TLCEval(F(b, a[2])) IN <<Append(a[1], d[1]), d>>), <<<<>>, BoolInit(b)>>, [i \in 1..n |-> i])[1]
Literal ==
  /\ IsEvent("lit")
  /\ Ev.r = Many(Str(Ev.by), Len(Ev.r), LAMBDA b, d : IF Ev.s = 1 THEN SLit(b, d, Ev.n) ELSE Lit(b, d, Ev.n))
Vectors ==
  /\ IsEvent("mv")
  /\ LET m == TLCEval(Many(Str(Ev.by), Ev.n, LAMBDA b, d : ReadMv(b, d, Ev.p))) IN
     Ev.r = FoldLeft(LAMBDA a, x : a \o x, <<>>, m)
Died == FALSE

TraceInit == TInit
TraceNext == Code \/ Read \/ Tree \/ Literal \/ Vectors
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
