-------------------------------- MODULE Wire --------------------------------
(* Wire formats of Salsify (packet, acknowledgement) and the splitting of a   *)
(* frame into packets and its reassembly.                                     *)
(*                                                                            *)
(* 32-bit words are pairs <<high 16 bits, low 16 bits>>; bytes are 0..255.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANT MaxPayload        \* bytes of frame data per packet (1400 in the code)

Min2(a, b) == IF a < b THEN a ELSE b

(* ---- byte encodings (little endian) ---- *)
LE16(n) == <<n % 256, n \div 256>>
LE32(w) == LE16(w[2]) \o LE16(w[1])
Get16(b, o) == b[o + 1] + 256 * b[o + 2]
Get32(b, o) == <<Get16(b, o + 2), Get16(b, o)>>
Zero32 == <<0, 0>>

(* ---- packet ---- *)
HeaderLen == 22
EncodePacket(p) ==
  LE16(p.conn) \o LE32(p.src) \o LE32(p.tgt) \o LE32(p.fno)
  \o LE16(p.frag) \o LE16(p.n) \o LE32(p.time) \o p.payload

PacketOK(b) == /\ Len(b) > HeaderLen                    \* header and at least one byte of payload
               /\ Get16(b, 14) < Get16(b, 16)           \* fragment number within the frame

DecodePacket(b) ==
  [conn |-> Get16(b, 0), src |-> Get32(b, 2), tgt |-> Get32(b, 6), fno |-> Get32(b, 10),
   frag |-> Get16(b, 14), n |-> Get16(b, 16), time |-> Get32(b, 18),
   payload |-> SubSeq(b, HeaderLen + 1, Len(b))]

(* ---- splitting a frame ---- *)
NumFragments(len) == (len + MaxPayload - 1) \div MaxPayload
Fragments(conn, src, tgt, fno, time, data) ==
  LET n == NumFragments(Len(data)) IN
  [i \in 1..n |->
     [conn |-> conn, src |-> src, tgt |-> tgt, fno |-> fno, frag |-> i - 1, n |-> n,
      time |-> IF i = 1 THEN time ELSE Zero32,
      payload |-> SubSeq(data, (i - 1) * MaxPayload + 1, Min2(i * MaxPayload, Len(data)))]]

(* ---- acknowledgement ---- *)
FlatLE32(s) == FlattenSeq([i \in 1..Len(s) |-> LE32(s[i])])
EncodeAck(a) == LE16(a.conn) \o LE32(a.fno) \o LE16(a.frag) \o LE32(a.delay)
                \o LE32(a.cur) \o LE32(<<0, Len(a.states)>>) \o FlatLE32(a.states)
AckCount(b) == Get32(b, 16)
AckOK(b) == /\ Len(b) >= 20
            /\ AckCount(b)[1] = 0
            /\ Len(b) >= 20 + 4 * AckCount(b)[2]
DecodeAck(b) ==
  [conn |-> Get16(b, 0), fno |-> Get32(b, 2), frag |-> Get16(b, 6), delay |-> Get32(b, 8),
   cur |-> Get32(b, 12), states |-> [i \in 1..AckCount(b)[2] |-> Get32(b, 16 + 4 * i)]]

(* ---- reassembly ---- *)
(* got[i] is the payload of fragment i, <<>> when it has not arrived          *)
Empty == [open |-> FALSE, conn |-> 0, src |-> Zero32, tgt |-> Zero32, fno |-> Zero32, got |-> <<>>]
CanOpen(conn, p) == p.conn = conn
Opened(conn, p) == [open |-> TRUE, conn |-> conn, src |-> p.src, tgt |-> p.tgt, fno |-> p.fno,
                    got |-> [i \in 1..p.n |-> IF i = p.frag + 1 THEN p.payload ELSE <<>>]]
CanAdd(r, p) == /\ p.conn = r.conn /\ p.src = r.src /\ p.tgt = r.tgt
                /\ p.n = Len(r.got) /\ p.fno = r.fno /\ p.frag < p.n
Added(r, p) == IF r.got[p.frag + 1] # <<>> THEN r        \* duplicates change nothing
               ELSE [r EXCEPT !.got[p.frag + 1] = p.payload]
Complete(r) == \A i \in DOMAIN r.got : r.got[i] # <<>>
RECURSIVE PrefixFrom(_, _)
PrefixFrom(r, i) == IF i > Len(r.got) \/ r.got[i] = <<>> THEN <<>>
                    ELSE r.got[i] \o PrefixFrom(r, i + 1)
Partial(r) == PrefixFrom(r, 1)                            \* what can be decoded before it is complete

(* ------------------------------------------------------------------------ *)
(* The design, for exhaustive checking: one sender splits frames, the        *)
(* network loses, repeats, reorders and damages packet headers.              *)
CONSTANTS Datas, Conns, MaxDeliver
VARIABLES frame, r, delivered, accepted
vars == <<frame, r, delivered, accepted>>

S1 == <<0, 1>>
S2 == <<7, 65535>>
TheFrags == Fragments(1, S1, S2, <<0, 3>>, <<1, 2>>, frame)
Damage(p) == {[p EXCEPT !.conn = 2], [p EXCEPT !.src = S2], [p EXCEPT !.tgt = S1],
              [p EXCEPT !.fno = <<0, 4>>], [p EXCEPT !.n = @ + 1], [p EXCEPT !.frag = p.n]}
Init == frame \in Datas /\ r = Empty /\ delivered = <<>> /\ accepted = {}

Deliver(p) ==
  /\ Len(delivered) < MaxDeliver
  /\ delivered' = Append(delivered, p)
  /\ UNCHANGED frame
  /\ LET b == EncodePacket(p)
         q == DecodePacket(b)
         ok == PacketOK(b) /\ IF r.open THEN CanAdd(r, q) ELSE CanOpen(1, q)
     IN IF ok THEN /\ r' = (IF r.open THEN Added(r, q) ELSE Opened(1, q))
                   /\ accepted' = accepted \cup {p}
        ELSE UNCHANGED <<r, accepted>>
Next == \E i \in DOMAIN TheFrags :
           \/ Deliver(TheFrags[i])
           \/ \E d \in Damage(TheFrags[i]) : r.open /\ Deliver(d)
Spec == Init /\ [][Next]_vars

(* the packets carry the frame, the frame comes back whole or as a prefix *)
RoundTrip == \A i \in DOMAIN TheFrags :
               /\ PacketOK(EncodePacket(TheFrags[i]))
               /\ DecodePacket(EncodePacket(TheFrags[i])) = TheFrags[i]
               /\ Len(TheFrags[i].payload) \in 1..MaxPayload
WholeFrame == (r.open /\ Complete(r)) => Partial(r) = frame
PrefixOfFrame == r.open => IsPrefix(Partial(r), frame)
CompleteIffAll == r.open => (Complete(r) <=> {p.frag : p \in accepted} = 0..(Len(TheFrags) - 1))
NoForeign == \A p \in accepted : \E i \in DOMAIN TheFrags : p = TheFrags[i]
=============================================================================
