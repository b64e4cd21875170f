-------------------------------- MODULE Pool --------------------------------
(* Decoders are values, pictures are shared buffers: copies of a decoder     *)
(* share the buffers of their references, a buffer is used again when nobody *)
(* refers to it any more, and the identity of its contents is remembered     *)
(* with it.  What every decoder and every kept picture holds must be what it *)
(* would be if nothing were shared.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, MaxKept, MaxOps, Logging

VARIABLES content,   \* buffer -> contents (never shrinks; a number)
          idn,       \* buffer -> remembered identity, -1: none
          free,      \* queue of buffers nobody refers to
          ds,        \* name -> [p, L, G, A]: buffers
          ideal,     \* name -> [p, L, G, A]: contents as if nothing were shared
          kept,      \* sequence of [b, c]: a kept picture: buffer, what it was
          ops, log
vars == <<content, idn, free, ds, ideal, kept, ops, log>>

Mod == 13
Mix(p, l, g, a, f) == ((3 * l) + (5 * g) + (7 * a) + (2 * f) + p + 1) % Mod
Frames == 1..4   \* 1: key; 2: to last; 3: to golden, last to alternate; 4: to nothing, saves probabilities
Refd(d, k) == UNION {{d[n].L, d[n].G, d[n].A} : n \in DOMAIN d} \cup {k[i].b : i \in 1..Len(k)}
(* Buffers not referred to any more join the queue, their identity forgotten. *)
Released(d, k, c, b0) ==   \* b0: the buffer just taken (no longer free)
  LET q == SelectSeq(free, LAMBDA x : x # b0)
      gone == {b \in 1..Len(c) : b \notin Refd(d, k) /\ \A i \in 1..Len(q) : q[i] # b}
      RECURSIVE Seqd(_)
      Seqd(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o Seqd(s \ {x})
  IN <<q \o Seqd(gone), gone>>
Step(op) == ops < MaxOps /\ ops' = ops + 1 /\ log' = IF Logging THEN Append(log, op) ELSE log
Settle(d, k, c, i, b0) ==
  LET r == Released(d, k, c, b0) IN
  ds' = d /\ kept' = k /\ content' = c /\ free' = r[1] /\ idn' = [b \in 1..Len(c) |-> IF b \in r[2] THEN -1 ELSE i[b]]
(* A buffer to write into: the oldest free one or a new one.                 *)
Take == IF free = <<>> THEN Len(content) + 1 ELSE Head(free)
Write(c, b, v) == IF b > Len(c) THEN Append(c, v) ELSE [c EXCEPT ![b] = v]
Known(i, b) == IF b > Len(i) THEN Append(i, -1) ELSE i

Init == content = <<>> /\ idn = <<>> /\ free = <<>> /\ ds = <<>> /\ ideal = <<>> /\ kept = <<>> /\ ops = 0 /\ log = <<>>
New(n) ==
  /\ Step([op |-> "new", a |-> n])
  /\ LET b == Take
         c == Write(content, b, IF b > Len(content) THEN 0 ELSE content[b])   \* whatever was in there
     IN Settle((n :> [p |-> 0, L |-> b, G |-> b, A |-> b]) @@ ds, kept, c, Known(idn, b), b) /\ ideal' = (n :> [p |-> 0, L |-> c[b], G |-> c[b], A |-> c[b]]) @@ ideal
Fork(n, m) ==
  /\ n \in DOMAIN ds /\ m # n
  /\ Step([op |-> "fork", a |-> n, b |-> m])
  /\ Settle((m :> ds[n]) @@ ds, kept, content, idn, 0) /\ ideal' = (m :> ideal[n]) @@ ideal
Drop(n) ==
  /\ n \in DOMAIN ds
  /\ Step([op |-> "drop", a |-> n])
  /\ Settle([x \in DOMAIN ds \ {n} |-> ds[x]], kept, content, idn, 0) /\ ideal' = [x \in DOMAIN ideal \ {n} |-> ideal[x]]
Refresh(d, v, f) ==
  CASE f = 1 -> [p |-> 0, L |-> v, G |-> v, A |-> v]
    [] f = 2 -> [d EXCEPT !.L = v]
    [] f = 3 -> [d EXCEPT !.A = d.L, !.G = v]
    [] f = 4 -> [d EXCEPT !.p = 1 - d.p]
Dec(n, f, keep) ==
  /\ n \in DOMAIN ds
  /\ keep => Len(kept) < MaxKept
  /\ Step([op |-> "dec", a |-> n, f |-> f, keep |-> keep])
  /\ LET d == ds[n]  x == ideal[n]  b == Take
         key == f = 1
         v == IF key THEN Mix(0, 0, 0, 0, f) ELSE Mix(d.p, content[d.L], content[d.G], content[d.A], f)
         w == IF key THEN Mix(0, 0, 0, 0, f) ELSE Mix(x.p, x.L, x.G, x.A, f)
         c == Write(content, b, v)
     IN /\ Settle((n :> Refresh(d, b, f)) @@ ds, IF keep THEN Append(kept, [b |-> b, c |-> w]) ELSE kept, c, Known(idn, b), b)
        /\ ideal' = (n :> Refresh(x, w, f)) @@ ideal
Out(i) ==
  /\ i \in 1..Len(kept)
  /\ Step([op |-> "out", i |-> i])
  /\ Settle(ds, SubSeq(kept, 1, i - 1) \o SubSeq(kept, i + 1, Len(kept)), content, idn, 0) /\ UNCHANGED ideal
(* Somebody asks for the identities of all references.                       *)
Look ==
  /\ Step([op |-> "look"])
  /\ idn' = [b \in 1..Len(idn) |-> IF b \in Refd(ds, <<>>) /\ idn[b] = -1 THEN content[b] ELSE idn[b]]
  /\ UNCHANGED <<content, free, ds, ideal, kept>>
Next ==
  \/ \E n \in Names : New(n) \/ Drop(n)
  \/ \E n, m \in Names : Fork(n, m)
  \/ \E n \in Names, f \in Frames, k \in BOOLEAN : Dec(n, f, k)
  \/ \E i \in 1..MaxKept : Out(i)
  \/ Look
Spec == Init /\ [][Next]_vars

Val(d) == [p |-> d.p, L |-> content[d.L], G |-> content[d.G], A |-> content[d.A]]
AsIfUnshared == \A n \in DOMAIN ds : Val(ds[n]) = ideal[n]
KeptUnchanged == \A i \in 1..Len(kept) : content[kept[i].b] = kept[i].c
FreeUnreferenced == \A i \in 1..Len(free) : free[i] \notin Refd(ds, kept) /\ \A j \in 1..(i - 1) : free[j] # free[i]
IdentityTrue == \A b \in 1..Len(idn) : idn[b] \in {-1, content[b]}
NothingLost == Cardinality(Refd(ds, kept)) + Len(free) = Len(content)
View == <<content, idn, free, ds, ideal, kept, ops>>
Emit == ops = MaxOps => PrintT(<<"SCHED", ToJson(log)>>)
=============================================================================
