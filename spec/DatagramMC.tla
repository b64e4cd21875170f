----------------------------- MODULE DatagramMC -----------------------------
(* Sockets that bind, connect, send and receive, and descriptors that are     *)
(* moved and dropped: every datagram received was sent, once each, in order   *)
(* between any two sockets, from whom it says; every file is closed exactly   *)
(* once, when its holder goes.                                                *)
EXTENDS Datagram, TLC
CONSTANTS Names, Sends, Slots, Files
VARIABLES ss, sent, got, slots, opened, shut
vars == <<ss, sent, got, slots, opened, shut>>
Init == ss = [i \in Names |-> NewSocket] /\ sent = <<>> /\ got = <<>> /\ slots = [i \in Slots |-> Nothing] /\ opened = 0 /\ shut = <<>>
net == <<slots, opened, shut>>
Bind(i) == ~ss[i].bound /\ ss' = [ss EXCEPT ![i].bound = TRUE, ![i].addr = [ip |-> <<127>>, port |-> i]] /\ UNCHANGED <<sent, got>> /\ UNCHANGED net
Connect(i, j) == i # j /\ ss[i].bound /\ ss[j].bound /\ ss[i].peer = 0 /\ ss' = [ss EXCEPT ![i].peer = j] /\ UNCHANGED <<sent, got>> /\ UNCHANGED net
Send(i, j) == /\ Len(sent) < Sends /\ ss[i].bound /\ ss[j].bound
              /\ LET d == [from |-> i, to |-> j, id |-> Len(sent) + 1] IN sent' = Append(sent, d) /\ ss' = Deliver(ss, i, j, d)
              /\ UNCHANGED got /\ UNCHANGED net
Recv(i) == ss[i].inbox # <<>> /\ got' = Append(got, [at |-> i, d |-> Head(ss[i].inbox)]) /\ ss' = Receive(ss, i) /\ UNCHANGED sent /\ UNCHANGED net
sock == <<ss, sent, got>>
Open(s) == opened < Files /\ slots[s].fd = -1 /\ opened' = opened + 1 /\ slots' = [slots EXCEPT ![s] = File(opened + 1, <<7, 8>>)] /\ UNCHANGED shut /\ UNCHANGED sock
Drop(s) == shut' = shut \o Closing(slots, s) /\ slots' = [slots EXCEPT ![s] = Nothing] /\ UNCHANGED opened /\ UNCHANGED sock
Take(s) == slots[s].fd # -1 /\ ~slots[s].eof /\ slots' = [slots EXCEPT ![s] = ReadOff(@, 1)] /\ UNCHANGED <<opened, shut>> /\ UNCHANGED sock
Hand(s, t) == s # t /\ shut' = shut \o Closing(slots, t) /\ slots' = Move(slots, s, t) /\ UNCHANGED opened /\ UNCHANGED sock
Next == \/ \E i \in Names : Bind(i) \/ Recv(i) \/ \E j \in Names : Connect(i, j) \/ Send(i, j)
        \/ \E s \in Slots : Open(s) \/ Drop(s) \/ Take(s) \/ \E t \in Slots : Hand(s, t)
Spec == Init /\ [][Next]_vars
Honest == \A k \in 1..Len(got) : LET g == got[k] IN g.d.load.to = g.at /\ g.d.load.from = g.d.from /\ g.d.load = sent[g.d.load.id]
OnceInOrder == \A a, b \in 1..Len(got) : a < b /\ got[a].at = got[b].at => got[a].d.load.id < got[b].d.load.id
OnlyPeer == \A i \in Names : \A k \in 1..Len(ss[i].inbox) : ss[i].inbox[k].load.to = i
ClosedOnce == /\ \A a, b \in 1..Len(shut) : shut[a] = shut[b] => a = b
              /\ \A f \in 1..opened : (\E a \in 1..Len(shut) : shut[a] = f) # (\E s \in Slots : slots[s].fd = f)
              /\ \A s, t \in Slots : slots[s].fd = slots[t].fd /\ slots[s].fd # -1 => s = t
EndMet == \A s \in Slots : slots[s].fd # -1 => (slots[s].eof <=> slots[s].reads = 3) /\ Len(slots[s].left) = (IF slots[s].reads > 2 THEN 0 ELSE 2 - slots[s].reads)
(* laws of the text *)
B16(S) == {[i \in 1..16 |-> IF i \in 1..10 THEN x ELSE IF i \in 11..12 THEN y ELSE z] : x \in {0, 1}, y \in {0, 255}, z \in S}
ASSUME \A a, b \in B16({0, 1, 9, 10, 255}) : Text(a) = Text(b) => a = b
ASSUME Text([i \in 1..16 |-> IF i = 16 THEN 1 ELSE 0]) = <<58, 58, 49>>
ASSUME Text([i \in 1..16 |-> 0]) = <<58, 58>>
=============================================================================
