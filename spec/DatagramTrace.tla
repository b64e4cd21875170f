---------------------------- MODULE DatagramTrace ---------------------------
EXTENDS TraceKit
D == INSTANCE Datagram
VARIABLES ss, slots
vars == <<tid, l, ss, slots>>
Init == TInit /\ ss = [i \in 1..6 |-> D!NewSocket] /\ slots = [i \in 1..6 |-> D!Nothing]
Loop == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 127, 0, 0, 1>>
Same == UNCHANGED <<ss, slots>>
At(a, ip, port) == a.v6 /\ a.ip = ip /\ a.port = port
AddrOf(a) == [ip |-> a.ip, port |-> a.port]
Addr == /\ IsEvent("addr") /\ Same
        /\ IF Ev.how = "bad" THEN ~Ev.ok
           ELSE /\ Ev.ok /\ At(Ev.a, Ev.ip, Ev.port)
                /\ Ev.back = D!Text(Ev.ip) /\ Ev.bport = Ev.port /\ Ev.all = D!Whole([ip |-> Ev.ip, port |-> Ev.port])
Equal == /\ IsEvent("same") /\ Same
         /\ LET eq == IF Ev.none1 \/ Ev.none2 THEN Ev.none1 /\ Ev.none2 ELSE Ev.ip1 = Ev.ip2 /\ Ev.p1 = Ev.p2
            IN Ev.xy = eq /\ Ev.yx = eq
Big == IsEvent("big") /\ Same /\ Ev.ok = (Ev.n <= 128)
FRecv == /\ IsEvent("frecv") /\ Same
         /\ Ev.ok = D!Taken(Ev.fail, Ev.flags) /\ Ev.writes = 0
         /\ IF Ev.ok THEN /\ Ev.got = Ev.sent /\ At(Ev.src, Ev.ip, Ev.port) /\ Ev.reads = 1
                          /\ [stamped |-> Ev.stamped, s |-> Ev.s, us |-> Ev.us] = D!Stamp(Ev.parts)
            ELSE Ev.reads = 0
FSend == /\ IsEvent("fsend") /\ Same
         /\ Ev.asked /\ Ev.to /\ Ev.given = Ev.sent /\ Ev.reads = 0
         /\ Ev.ok = (~Ev.fail /\ (Ev.n = -1 \/ Ev.n = Ev.sent.n))
         /\ Ev.writes = IF Ev.ok THEN 1 ELSE 0
NewSock == IsEvent("socket") /\ ss' = [ss EXCEPT ![Ev.i] = D!NewSocket] /\ UNCHANGED slots
Bind == /\ IsEvent("bind") /\ Ev.ok /\ Ev.a.v6 /\ Ev.a.ip = Loop /\ Ev.a.port > 0
        /\ \A k \in 1..6 : ss[k].bound => ss[k].addr.port # Ev.a.port
        /\ ss' = [ss EXCEPT ![Ev.i].bound = TRUE, ![Ev.i].addr = AddrOf(Ev.a)] /\ UNCHANGED slots
Stamps == IsEvent("stamps") /\ ss' = [ss EXCEPT ![Ev.i].stamps = TRUE] /\ UNCHANGED slots
Connect == /\ IsEvent("connect") /\ Ev.ok /\ At(Ev.peer, ss[Ev.j].addr.ip, ss[Ev.j].addr.port) /\ At(Ev.a, ss[Ev.i].addr.ip, ss[Ev.i].addr.port)
           /\ ss' = [ss EXCEPT ![Ev.i].peer = Ev.j] /\ UNCHANGED slots
Sent(i, j) == /\ Ev.ok = (Ev.sent.n <= D!Limit) /\ AddrOf(Ev.a) = ss[i].addr
              /\ LET t == IF Ev.ok THEN D!Deliver(ss, i, j, Ev.sent) ELSE ss
                     u == [t EXCEPT ![i].writes = IF Ev.ok THEN @ + 1 ELSE @]
                 IN Ev.writes = u[i].writes /\ ss' = u /\ UNCHANGED slots
SendTo == IsEvent("sendto") /\ Sent(Ev.i, Ev.j)
Send == IsEvent("send") /\ ss[Ev.i].peer = Ev.j /\ Sent(Ev.i, Ev.j)
Recv == /\ IsEvent("recv") /\ ss[Ev.i].inbox # <<>> /\ Ev.ok
        /\ LET d == Head(ss[Ev.i].inbox)  t == D!Receive(ss, Ev.i)
           IN /\ Ev.got = d.load /\ At(Ev.src, ss[d.from].addr.ip, ss[d.from].addr.port)
              /\ Ev.stamped = ss[Ev.i].stamps /\ (Ev.stamped => Ev.when) /\ Ev.reads = t[Ev.i].reads
              /\ ss' = t /\ UNCHANGED slots
Now(f) == Ev.fd = f.fd /\ Ev.eof = f.eof /\ Ev.reads = f.reads /\ Ev.writes = 0
Open == /\ IsEvent("open") /\ slots[Ev.i].fd = -1 /\ Ev.closed = <<>> /\ Ev.fd >= 0
        /\ slots' = [slots EXCEPT ![Ev.i] = D!File(Ev.fd, Ev.holds.head)] /\ Now(slots'[Ev.i]) /\ UNCHANGED ss
Move == /\ IsEvent("move") /\ Ev.closed = D!Closing(slots, Ev.j)
        /\ slots' = D!Move(slots, Ev.i, Ev.j) /\ Now(slots'[Ev.j]) /\ UNCHANGED ss
Drop == IsEvent("drop") /\ Ev.closed = D!Closing(slots, Ev.i) /\ slots' = [slots EXCEPT ![Ev.i] = D!Nothing] /\ Now(slots'[Ev.i]) /\ UNCHANGED ss
(* reading on after the end was met is an error *)
Take == /\ IsEvent("read") /\ Ev.closed = <<>>
        /\ LET f == slots[Ev.i] IN
           /\ Ev.ok = ~f.eof /\ Ev.got = (IF Ev.ok THEN D!Got(f, Ev.k) ELSE <<>>)
           /\ slots' = (IF Ev.ok THEN [slots EXCEPT ![Ev.i] = D!ReadOff(@, Ev.k)] ELSE slots)
        /\ Now(slots'[Ev.i]) /\ UNCHANGED ss
Next == Addr \/ Equal \/ Big \/ FRecv \/ FSend \/ NewSock \/ Bind \/ Stamps \/ Connect \/ SendTo \/ Send \/ Recv \/ Open \/ Move \/ Drop \/ Take
TraceSpec == Init /\ [][Next]_vars
=============================================================================
