----------------------------- MODULE WireTrace ------------------------------
(* Recorded calls of the packet, reassembly and acknowledgement code.         *)
EXTENDS Wire, TraceKit

TraceInit == TInit /\ frame = <<>> /\ r = Empty /\ delivered = <<>> /\ accepted = {}

Obs(rr) == /\ Ev.complete = Complete(rr)
           /\ Ev.partial = Partial(rr)
           /\ Ev.frameok = Complete(rr)
           /\ (Complete(rr) => Ev.frame = Partial(rr))
           /\ Ev.src = rr.src /\ Ev.tgt = rr.tgt /\ Ev.fno = rr.fno /\ Ev.n = Len(rr.got)

TFragment ==
  /\ IsEvent("fragment")
  /\ LET fs == Fragments(Ev.conn, Ev.src, Ev.tgt, Ev.fno, Ev.time, Ev.data)
     IN /\ Len(Ev.out) = Len(fs)
        /\ \A i \in DOMAIN fs : Ev.out[i] = EncodePacket(fs[i])
        /\ Ev.complete = TRUE
  /\ frame' = Ev.data
  /\ UNCHANGED <<r, delivered, accepted>>

TParse ==
  /\ IsEvent("parse")
  /\ Ev.ok = PacketOK(Ev.pkt)
  /\ Ev.ok => /\ Ev.p = DecodePacket(Ev.pkt)
              /\ Ev.again = Ev.pkt
  /\ UNCHANGED vars

TOpen ==
  /\ IsEvent("open")
  /\ LET ok == PacketOK(Ev.pkt) /\ CanOpen(Ev.conn, DecodePacket(Ev.pkt))
     IN /\ Ev.ok = ok
        /\ IF ok THEN r' = Opened(Ev.conn, DecodePacket(Ev.pkt)) /\ Obs(r')
           ELSE r' = Empty
  /\ UNCHANGED <<frame, delivered, accepted>>

TAdd ==
  /\ IsEvent("add") /\ r.open
  /\ LET ok == PacketOK(Ev.pkt) /\ CanAdd(r, DecodePacket(Ev.pkt))
     IN /\ Ev.ok = ok
        /\ r' = IF ok THEN Added(r, DecodePacket(Ev.pkt)) ELSE r
        /\ Obs(r')
  /\ UNCHANGED <<frame, delivered, accepted>>

TAckEnc ==
  /\ IsEvent("ackenc")
  /\ Ev.out = EncodeAck(Ev.a)
  /\ UNCHANGED vars
TAckDec ==
  /\ IsEvent("ackdec")
  /\ Ev.ok = AckOK(Ev.bytes)
  /\ Ev.ok => Ev.a = DecodeAck(Ev.bytes)
  /\ UNCHANGED vars
TField ==
  /\ IsEvent("field")
  /\ Ev.f16 = LE16(Ev.w[1]) /\ Ev.f32 = LE32(<<Ev.w[1], Ev.w[2]>>)
  /\ Ev.f64 = LE32(<<Ev.w[3], Ev.w[4]>>) \o LE32(<<Ev.w[1], Ev.w[2]>>)
  /\ UNCHANGED vars

TraceNext == TFragment \/ TParse \/ TOpen \/ TAdd \/ TAckEnc \/ TAckDec \/ TField
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tvars>>
=============================================================================
