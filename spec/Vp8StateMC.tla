----------------------------- MODULE Vp8StateMC -----------------------------
(* All short sequences of frame headers, on abstract contents: what persists *)
(* from frame to frame. Two decoders with unrelated pasts get the same       *)
(* frames; values introduced by frame n are n.                               *)
EXTENDS Vp8Header, Json
CONSTANTS MaxFrames, EmitLen

MCDefault == [coef |-> <<128, 128>>, ym |-> <<1>>, uvm |-> <<1>>, mv |-> <<9>>]
ModeUpd(n) == <<n + 1>>
VARIABLES a, b, n, synced, log, hd
vars == <<a, b, n, synced, log, hd>>
View == <<a, b, n, synced>>

SegKinds == {"off", "on", "data", "map", "both"}
SegH(k, v) == [on |-> k # "off", map |-> k \in {"map", "both"}, data |-> k \in {"data", "both"}, abs |-> FALSE,
               q |-> <<v, v, v, v>>, lf |-> <<v, v, v, v>>, tree |-> <<255, 255, 255>>]
LfdKinds == {"off", "on", "upd"}
LfdH(k, v) == [on |-> k # "off", upd |-> k = "upd", ref |-> [i \in 1..4 |-> <<TRUE, v>>], mode |-> [i \in 1..4 |-> <<TRUE, v>>]]
Hdr(c, v) == [key |-> c.key, seg |-> SegH(c.seg, v), lfd |-> LfdH(c.lfd, v), refreshProbs |-> c.save,
              coef |-> IF c.upd THEN <<<<1, v>>>> ELSE <<>>, ym |-> IF c.upd THEN ModeUpd(v) ELSE <<>>,
              uvm |-> IF c.upd THEN ModeUpd(v) ELSE <<>>, mv |-> IF c.upd THEN <<<<1, v>>>> ELSE <<>>,
              refreshL |-> c.key \/ c.rl, refreshG |-> c.key \/ c.g = 3, refreshA |-> c.key \/ c.a = 3,
              copyG |-> IF c.key \/ c.g = 3 THEN 0 ELSE c.g, copyA |-> IF c.key \/ c.a = 3 THEN 0 ELSE c.a]
Codes == [key : {TRUE}, seg : SegKinds, lfd : LfdKinds, save : BOOLEAN, upd : {FALSE}, rl : {TRUE}, g : {0}, a : {0}]
         \cup [key : {FALSE}, seg : SegKinds, lfd : LfdKinds, save : BOOLEAN, upd : BOOLEAN, rl : BOOLEAN, g : 0..3, a : 0..3]

Step(s, h, v) ==
  LET sg == NextSeg(s.seg, h, 1) IN
  [probs |-> SavedProbs(s.probs, h), seg |-> IF h.seg.map THEN [sg EXCEPT !.map = <<v>>] ELSE sg,
   lfd |-> NextLfd(s.lfd, h), refs |-> NextRefs(s.refs, h, v)]
Fresh(x) == [probs |-> [MCDefault EXCEPT !.coef = <<128, 128 + x>>], seg |-> [NoSeg(1) EXCEPT !.on = (x # 0), !.q = <<x, x, x, x>>, !.map = <<x>>],
             lfd |-> [NoLfd EXCEPT !.on = (x # 0), !.ref = <<x, x, x, x>>], refs |-> [last |-> -x, golden |-> -x, alt |-> -x]]
Quiet == Hdr([key |-> FALSE, seg |-> "off", lfd |-> "off", save |-> TRUE, upd |-> FALSE, rl |-> FALSE, g |-> 0, a |-> 0], 0)
Init == a = Fresh(0) /\ b = Fresh(9) /\ n = 0 /\ synced = FALSE /\ log = <<>> /\ hd = Quiet
End == n = MaxFrames /\ Len(log) = EmitLen /\ log' = Append(log, [end |-> TRUE]) /\ UNCHANGED <<a, b, n, synced, hd>>
Next == End \/
        /\ n < MaxFrames
        /\ \E c \in (IF EmitLen > 0 THEN {RandomElement(Codes)} ELSE Codes) :   \* one at random when generating
             LET h == Hdr(c, n + 1) IN
             /\ hd' = h
             /\ a' = Step(a, h, n + 1) /\ b' = Step(b, h, n + 1)
             /\ synced' = (synced \/ h.key) /\ n' = n + 1
             /\ log' = Append(log, c)
Spec == Init /\ [][Next]_vars

(* After a key frame nothing of the past is left.                            *)
KeyResets == synced => a = b
(* What one frame (header h, picture v) may do to the state s.               *)
Lawful(s, t, h, v) ==
  /\ h.key =>
       /\ t.refs = [last |-> v, golden |-> v, alt |-> v]
       /\ t.seg.on = h.seg.on /\ (~h.seg.data => t.seg.q = Zero4 /\ t.seg.lf = Zero4) /\ (~h.seg.map => t.seg.map = <<0>>)
       /\ (~h.lfd.upd => t.lfd.ref = Zero4 /\ t.lfd.mode = Zero4)
       /\ (~h.refreshProbs => t.probs = DefaultProbs)
  (* each reference is the picture just decoded or one that was a reference *)
  /\ LET old == {s.refs.last, s.refs.golden, s.refs.alt} IN
       /\ t.refs.last = (IF h.refreshL THEN v ELSE s.refs.last)
       /\ h.refreshG => t.refs.golden = v
       /\ ~h.refreshG => t.refs.golden \in old /\ (h.copyG = 0 => t.refs.golden = s.refs.golden) /\ (h.copyG = 1 => t.refs.golden = s.refs.last)
       /\ h.refreshA => t.refs.alt = v
       /\ ~h.refreshA => t.refs.alt \in old /\ (h.copyA = 0 => t.refs.alt = s.refs.alt) /\ (h.copyA = 1 => t.refs.alt = s.refs.last)
                          /\ (h.copyA = 2 => t.refs.alt = s.refs.golden)
  (* probabilities that are not saved are gone; values stay until changed *)
  /\ ~h.key =>
       /\ ~h.refreshProbs => t.probs = s.probs
       /\ ~h.seg.data => t.seg.q = s.seg.q /\ t.seg.lf = s.seg.lf /\ t.seg.abs = s.seg.abs
       /\ ~h.seg.map => t.seg.map = s.seg.map
       /\ ~h.lfd.upd => t.lfd.ref = s.lfd.ref /\ t.lfd.mode = s.lfd.mode
Laws == [][Lawful(a, a', hd', n') /\ Lawful(b, b', hd', n')]_vars

Emit == Len(log) = EmitLen + 1 => PrintT(<<"SCHED", ToJson(SubSeq(log, 1, EmitLen))>>)
=============================================================================
