------------------------------- MODULE ToolsMC ------------------------------
(* All short histories of tool runs on a few files. Pictures are what they   *)
(* were made of: a frame's number and, for an interframe, the pictures it    *)
(* was predicted from. Every chunk carries (unseen by the tools) the         *)
(* pictures its maker saw.                                                   *)
EXTENDS Tools, FiniteSets, Json
CONSTANTS MaxFiles, Lens, EmitLen
MCLens == <<2>>
MCLens2 == <<2, 3>>

VARIABLES files, next, log
vars == <<files, next, log>>
View == <<files, next>>

Blank == "-"
MFresh(w, h) == [last |-> Blank, golden |-> Blank]
MT(s, f) ==
  LET pic == ToString(IF f.key THEN <<f.id>> ELSE <<f.id, s.last, s.golden>>)
  IN [ok |-> TRUE, shown |-> TRUE, pic |-> pic, to |-> IF f.key \/ f.all THEN [last |-> pic, golden |-> pic] ELSE [s EXCEPT !.last = pic]]
MSave(s) == IF s.k = "st" THEN [s EXCEPT !.s.golden = s.s.last] ELSE s
MH(s) == ToString(s)
MD(s) == <<1, 1>>
MK(f) == f.key

Videos == [i \in 1..Len(Lens) |-> [k |-> "y4m", n |-> Lens[i]]]
Ivf(x, f, st, from) == [k |-> "ivf", w |-> 1, h |-> 1, x |-> x, f |-> f, recon |-> Play(MT, st, f).pics, from |-> from]
Fr(key, all, id) == [key |-> key, all |-> all, id |-> id]
All(kind) == {i \in 1..Len(files) : files[i].k = kind}
StOr0 == All("st") \cup {0}
St(i) == IF i = 0 THEN No ELSE files[i]
Strip(c) == [k |-> "ivf", w |-> 1, h |-> 1, x |-> c.x, f |-> c.f]

(* What a call makes: a sequence of files ("none": refused).                 *)
EncF(v, i) == LET s == IF i = 0 THEN MFresh(1, 1) ELSE files[i].s IN
  Ivf(IF i = 0 THEN "" ELSE MH(s), [j \in 1..files[v].n |-> Fr(j = 1 /\ i = 0, FALSE, next + j)], s, s)
TermF(c) == IF ~Terminable(MT, MH, MFresh, c) THEN No
            ELSE Ivf("", [c.f EXCEPT ![Len(c.f)].all = TRUE], MFresh(1, 1), MFresh(1, 1))
ReencF(v, p, ps, st, e) ==
  IF ~Recodable(MT, MH, MD, MFresh, MK, files[v].n, 1, 1, p, ps, st, e) THEN No
  ELSE LET n0 == IF e THEN 1 ELSE 0
           fs == [j \in 1..(Len(p.f) - n0) |-> Fr(j > 1 /\ p.f[j + n0].key, j + n0 = Len(p.f), IF j > 1 /\ p.f[j + n0].key THEN p.f[j + n0].id ELSE next + j)]
       IN Ivf(MH(st.s), fs, st.s, st.s)
(* Joining is for chunks that fit: the tool cannot see that.                 *)
Fits(a, b) == b.x = "" \/ b.x = MH(Play(MT, a.from, a.f).s)
MergeF(a, b) == LET m == Merge(Strip(a), Strip(b)) IN Ivf(m.x, m.f, a.from, a.from)

Kinds == {"enc", "term", "dump", "merge", "reenc", "bundle", "diff", "decode"}
Some(S) == IF EmitLen > 0 /\ S # {} THEN {RandomElement(S)} ELSE S
Log(c) == log' = IF EmitLen > 0 THEN Append(log, c) ELSE log
Make(c, fs) ==
  /\ Log(c @@ [made |-> IF \E i \in 1..Len(fs) : fs[i].k = "none" THEN 0 ELSE Len(fs)])
  /\ IF \E i \in 1..Len(fs) : fs[i].k = "none" THEN UNCHANGED <<files, next>>
     ELSE files' = files \o fs /\ next' = next + 10
Call(kind) ==
  \/ kind = "enc" /\ \E v \in Some(All("y4m")), i \in Some(StOr0) : Make([t |-> kind, v |-> v, st |-> i], <<EncF(v, i)>>)
  \/ kind = "term" /\ \E c \in Some(All("ivf")) :
       LET o == TermF(files[c]) IN Make([t |-> kind, c |-> c], <<o, IF o.k = "none" THEN No ELSE [k |-> "st", s |-> Play(MT, MFresh(1, 1), o.f).s]>>)
  \/ kind = "dump" /\ \E c \in Some(All("ivf")), i \in Some(StOr0), n \in Some({-1, 0}) :
       Make([t |-> kind, c |-> c, st |-> i, n |-> n], <<MSave(Dump(MT, MH, MFresh, files[c], St(i), n))>>)
  \/ kind = "merge" /\ \E a \in Some(All("ivf")), b \in Some(All("ivf")) :
       Fits(files[a], files[b]) /\ Make([t |-> kind, a |-> a, b |-> b], <<MergeF(files[a], files[b])>>)
  \/ kind = "reenc" /\ \E v \in Some(All("y4m")), p \in Some(All("ivf")), ps \in Some(StOr0), i \in Some(All("st")), e \in Some(BOOLEAN) :
       LET o == ReencF(v, files[p], St(ps), files[i], e) IN
       Make([t |-> kind, v |-> v, p |-> p, ps |-> ps, st |-> i, e |-> e], <<o, IF o.k = "none" THEN No ELSE [k |-> "st", s |-> Play(MT, files[i].s, o.f).s]>>)
  \/ EmitLen > 0 /\ kind = "bundle" /\ \E a \in Some(All("ivf")), b \in Some(All("ivf")), c \in Some(All("ivf")), n \in Some(1..3), i \in Some(StOr0) :
       Make([t |-> kind, cs |-> SubSeq(<<a, b, c>>, 1, n), st |-> i], <<>>)
  \/ EmitLen > 0 /\ kind = "diff" /\ \E a \in Some(All("st")), b \in Some(All("st")) : Make([t |-> kind, a |-> a, b |-> b], <<>>)
  \/ EmitLen > 0 /\ kind = "decode" /\ \E c \in Some(All("ivf")), i \in Some(StOr0) : Make([t |-> kind, c |-> c, st |-> i], <<>>)
Init == files = Videos /\ next = 0 /\ log = <<>>
Done == EmitLen > 0 /\ Len(log) = EmitLen /\ log' = Append(log, [t |-> "end"]) /\ UNCHANGED <<files, next>>
Next == Done \/ (Len(files) < MaxFiles /\ (EmitLen > 0 => Len(log) < EmitLen) /\ \E kind \in Some(Kinds) : Call(kind))
        \/ (EmitLen > 0 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Chunks == {files[i] : i \in All("ivf")}
States == {files[i] : i \in All("st")} \cup {No}
(* What the tools accept is the video its makers made: any chunks, joined in *)
(* any order, from any saved state, are displayed as they were coded, or     *)
(* refused.                                                                  *)
OneVideo == \A a, b \in Chunks, st \in States :
  LET r == Bundle(MT, MH, MFresh, <<a, b>>, st) IN r.ok => r.pics = a.recon \o b.recon
Alone == \A a \in Chunks, st \in States :
  LET r == PlayFile(MT, MH, MD, MFresh, MK, a, st)  b == Bundle(MT, MH, MFresh, <<a>>, st) IN
  /\ st.k = "st" => r.ok = b.ok /\ (r.ok => r.pics = b.pics)
  /\ st.k # "st" /\ a.f[1].key => r.pics = a.recon
(* Chunks that continue one another are accepted.                            *)
Continues == \A a, b \in Chunks :
  a.from = MFresh(1, 1) /\ b.from = Play(MT, a.from, a.f).s => Bundle(MT, MH, MFresh, <<a, b>>, No).ok
(* After a terminated or recoded chunk nothing but its last picture is left. *)
Emit == (EmitLen > 0 /\ log # <<>> /\ log[Len(log)].t = "end") => PrintT(<<"SCHED", ToJson(SubSeq(log, 1, Len(log) - 1))>>)
=============================================================================
