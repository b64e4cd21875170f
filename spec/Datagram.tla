------------------------------ MODULE Datagram ------------------------------
(* Addresses as text, and datagrams between sockets.  An address is           *)
(* [ip |-> 16 bytes, port |-> 0..65535].                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
RECURSIVE Dec(_), Hex(_)
Dec(n) == (IF n < 10 THEN <<>> ELSE Dec(n \div 10)) \o <<48 + (n % 10)>>
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex(n) == (IF n < 16 THEN <<>> ELSE Hex(n \div 16)) \o <<Digit(n % 16)>>
Join(parts, c) == FoldLeft(LAMBDA acc, p : IF acc = <<>> THEN p ELSE acc \o <<c>> \o p, <<>>, parts)
Dots(b) == Join([i \in 1..4 |-> Dec(b[i])], 46)
Last4(ip) == SubSeq(ip, 13, 16)
Mapped(ip) == (\A i \in 1..10 : ip[i] = 0) /\ ip[11] = 255 /\ ip[12] = 255
(* the usual text of an IPv6 address: the first longest run of two or more zero groups left out *)
Group(ip, g) == 256 * ip[2 * g - 1] + ip[2 * g]
Zeros(ip, g) == CHOOSE n \in 0..8 : g + n <= 9 /\ (\A k \in g..(g + n - 1) : Group(ip, k) = 0) /\ (g + n = 9 \/ Group(ip, g + n) # 0)
Groups(ip, from, to) == Join([k \in 1..(to - from + 1) |-> Hex(Group(ip, from + k - 1))], 58)
Text6(ip) ==
  LET runs == [g \in 1..8 |-> Zeros(ip, g)]
      best == CHOOSE g \in 1..8 : \A k \in 1..8 : runs[k] < runs[g] \/ (runs[k] = runs[g] /\ g <= k)
      n == runs[best]
  IN IF n < 2 THEN Groups(ip, 1, 8)
     \* an address whose first six groups say "the rest is IPv4" is written that way
     ELSE IF best = 1 /\ n = 6 THEN <<58, 58>> \o Dots(Last4(ip))
     ELSE Groups(ip, 1, best - 1) \o <<58, 58>> \o Groups(ip, best + n, 8)
Text(ip) == IF Mapped(ip) THEN Dots(Last4(ip)) ELSE Text6(ip)
Whole(a) == Text(a.ip) \o <<58>> \o Dec(a.port)

(* ---- receiving: what the kernel hands over becomes a datagram, or an error ---- *)
NoStamp == [stamped |-> FALSE, s |-> 0, us |-> 0]
Stamp(parts) == FoldLeft(LAMBDA acc, p : IF p.k = "t" THEN [stamped |-> TRUE, s |-> p.s, us |-> p.ns \div 1000] ELSE acc, NoStamp, parts)
Taken(fail, flags) == ~fail /\ flags = 0                 \* cut short, or anything unusual: an error
Limit == 65507                                            \* what fits into one datagram over IPv4

(* ---- sockets: a function from names to [addr, bound, peer, inbox] ---- *)
NewSocket == [bound |-> FALSE, addr |-> [ip |-> <<>>, port |-> 0], peer |-> 0, inbox |-> <<>>, stamps |-> FALSE, reads |-> 0, writes |-> 0]
(* a connected socket hears only its peer *)
Hears(ss, j, i) == ss[j].peer = 0 \/ ss[j].peer = i
Deliver(ss, i, j, p) == IF Hears(ss, j, i) THEN [ss EXCEPT ![j].inbox = Append(@, [from |-> i, load |-> p])] ELSE ss
Receive(ss, i) == [ss EXCEPT ![i].inbox = Tail(@), ![i].reads = @ + 1]

(* ---- descriptors: slots hold at most one open file each, and the file is closed with its last holder.  *)
(* A file is what is left of its bytes, whether its end was met, and how often it was read.              *)
Nothing == [fd |-> -1, left |-> <<>>, eof |-> FALSE, reads |-> 0]
File(fd, bytes) == [fd |-> fd, left |-> bytes, eof |-> FALSE, reads |-> 0]
Move(slots, i, j) == [[slots EXCEPT ![j] = slots[i]] EXCEPT ![i] = Nothing]
Closing(slots, i) == IF slots[i].fd = -1 THEN <<>> ELSE <<slots[i].fd>>
Least(a, b) == IF a < b THEN a ELSE b
Got(f, k) == SubSeq(f.left, 1, Least(k, Len(f.left)))
ReadOff(f, k) == [f EXCEPT !.left = SubSeq(@, Least(k, Len(@)) + 1, Len(@)), !.eof = (f.left = <<>>), !.reads = @ + 1]
=============================================================================
