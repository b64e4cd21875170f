------------------------------- MODULE Camera -------------------------------
(* The camera: a device that fills the buffers it holds, first come first     *)
(* served, and a program that takes the filled ones, turns their bytes into a *)
(* planar picture and hands them back.  A buffer is the device's from being   *)
(* handed back until it is taken; what it holds then may change any time.     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Formats == {"NV12", "YUYV", "YU12", "MJPG"}

(* ---- what the bytes b (1-based) of a w x h picture say (w and h even) ---- *)
Plane(n, f(_)) == [i \in 1..n |-> f(i - 1)]
Yuyv(b, w, h) ==
  LET c(i, o) == b[(2 * (i \div (w \div 2))) * 2 * w + 4 * (i % (w \div 2)) + o]     \* even rows
  IN [y |-> Plane(w * h, LAMBDA i : b[2 * i + 1]), u |-> Plane((w * h) \div 4, LAMBDA i : c(i, 2)), v |-> Plane((w * h) \div 4, LAMBDA i : c(i, 4))]
Nv12(b, w, h) ==
  [y |-> SubSeq(b, 1, w * h), u |-> Plane((w * h) \div 4, LAMBDA i : b[w * h + 2 * i + 1]), v |-> Plane((w * h) \div 4, LAMBDA i : b[w * h + 2 * i + 2])]
Yu12(b, w, h) ==
  [y |-> SubSeq(b, 1, w * h), u |-> SubSeq(b, w * h + 1, (5 * w * h) \div 4), v |-> SubSeq(b, (5 * w * h) \div 4 + 1, (3 * w * h) \div 2)]
Bytes(f, w, h) == IF f = "YUYV" THEN 2 * w * h ELSE (3 * w * h) \div 2
(* a 4:2:2 picture with components y, u, v: every second row of colour        *)
Jpeg(p, w, h) ==
  LET c(s) == Plane((w * h) \div 4, LAMBDA i : s[(2 * (i \div (w \div 2))) * (w \div 2) + (i % (w \div 2)) + 1])
  IN [y |-> p.y, u |-> c(p.u), v |-> c(p.v)]
Picture(f, b, w, h) == CASE f = "YUYV" -> Yuyv(b, w, h) [] f = "NV12" -> Nv12(b, w, h) [] f = "YU12" -> Yu12(b, w, h) [] f = "MJPG" -> Jpeg(b, w, h)

(* ---- the buffers: queued at the device, done (filled, not yet taken) ----  *)
Fill(q, d) == IF q = <<>> THEN <<q, d>> ELSE <<Tail(q), Append(d, Head(q))>>
Cycle(q, d) == <<Append(q, Head(d)), Tail(d)>>
=============================================================================
