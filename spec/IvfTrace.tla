------------------------------ MODULE IvfTrace ------------------------------
(* Recorded runs of the real IVFWriter with the real reader looking at every  *)
(* file a crash could leave, and of the reader on given bytes.                *)
EXTENDS TraceKit
I == INSTANCE Ivf
VARIABLES m, done, now, seen
vars == <<tid, l, m, done, now, seen>>
(* m: what the file says; done: frames whose append returned; now: frames being appended (0 or 1);
   seen: most frames a reader was ever shown *)
None == [fourcc |-> <<>>, w |-> 0, h |-> 0, rate |-> <<>>, scale |-> <<>>, hash |-> <<0, 0, 0, 0>>, alt |-> <<0, 0, 0, 0>>]
Init == TInit /\ m = None /\ done = <<>> /\ now = <<>> /\ seen = 0
New == /\ IsEvent("new")
       /\ m' = [fourcc |-> Ev.fourcc, w |-> Ev.w, h |-> Ev.h, rate |-> Ev.rate, scale |-> Ev.scale, hash |-> <<0, 0, 0, 0>>, alt |-> <<0, 0, 0, 0>>]
       /\ done' = <<>> /\ now' = <<>> /\ seen' = 0
Made == /\ IsEvent("made") /\ (Ev.ok <=> Len(m.fourcc) = 4) /\ UNCHANGED <<m, done, now, seen>>
Hash == IsEvent("hash") /\ m' = [m EXCEPT !.alt = Ev.v] /\ UNCHANGED <<done, now, seen>>
Hashed == IsEvent("hashed") /\ m' = [m EXCEPT !.hash = m.alt] /\ UNCHANGED <<done, now, seen>>
App == IsEvent("append") /\ now = <<>> /\ now' = <<Ev.b>> /\ UNCHANGED <<m, done, seen>>
Appended == /\ IsEvent("appended") /\ now # <<>> /\ Ev.off = I!FileSize(done) + I!FrameHeaderLen
            /\ done' = done \o now /\ now' = <<>> /\ UNCHANGED <<m, seen>>
Contents(e) == [i \in 1..Len(e.frames) |-> e.frames[i].b]
Shows(e) == /\ e.ok /\ ~e.beyond
            /\ e.fourcc = m.fourcc /\ e.w = m.w /\ e.h = m.h /\ e.rate = m.rate /\ e.scale = m.scale /\ e.hash \in {m.hash, m.alt}
            /\ \A i \in 1..Len(e.frames) : e.frames[i].ok
            /\ Contents(e) \in {done, done \o now}
            /\ e.count = I!Le4(Len(e.frames))
            /\ Len(e.frames) >= seen
Snap == IsEvent("snap") /\ Shows(Ev) /\ seen' = Len(Ev.frames) /\ UNCHANGED <<m, done, now>>
Quiet == /\ IsEvent("quiet") /\ Shows(Ev) /\ now = <<>> /\ Ev.hash = m.hash
         /\ SubSeq(Ev.file, 1, I!HeaderLen) = I!Header(m, Len(done)) /\ Len(Ev.file) = I!FileSize(done)
         /\ LET fr == I!Frames(Ev.file) IN fr.ok /\ [i \in 1..Len(fr.frames) |-> fr.frames[i].b] = done
         /\ UNCHANGED <<m, done, now, seen>>
(* the reader on arbitrary bytes: what must be refused is refused at the latest when the frame is asked for *)
Open == /\ IsEvent("open")
        /\ LET b == Ev.file IN
           /\ Ev.ok => I!Opens(b)
           /\ I!Whole(b) => Ev.ok
           /\ Ev.ok => /\ Ev.frames = I!Frames(b).frames /\ ~Ev.beyond /\ Ev.count = I!Count(b)
                       /\ Ev.fourcc = SubSeq(b, 9, 12) /\ Ev.w = I!U16(b, 12) /\ Ev.h = I!U16(b, 14)
                       /\ Ev.rate = I!U32(b, 16) /\ Ev.scale = I!U32(b, 20) /\ Ev.hash = I!U32(b, 28)
        /\ UNCHANGED <<m, done, now, seen>>
(* long frames, told apart by their length and a hash: after every append the reader gives what was appended so far *)
Big == /\ IsEvent("big")
       /\ LET a == Ev.appended
              Before[i \in 1..Len(a) + 1] == IF i = 1 THEN I!HeaderLen ELSE Before[i - 1] + I!FrameHeaderLen + a[i - 1].n
          IN \A i \in 1..Len(a) : /\ Ev.reads[i] = SubSeq(a, 1, i)
                                  /\ Ev.offs[i] = Before[i] + I!FrameHeaderLen
                                  /\ Ev.sizes[i] = Before[i + 1]
       /\ UNCHANGED <<m, done, now, seen>>
Next == New \/ Made \/ Hash \/ Hashed \/ App \/ Appended \/ Snap \/ Quiet \/ Open \/ Big
TraceSpec == Init /\ [][Next]_vars
=============================================================================
