------------------------------ MODULE ServerMC ------------------------------
(* Design of the event loop: clients, the kernel's descriptor table and interest
   set, the poller's own record of what is registered, and the loop
   reap - wait - handle each event.  Small constants; TLC explores it exhaustively
   and, with Record, prints behaviours that sim_driver.cpp replays in the real
   server (the clients beyond MaxConn are then filled up to 128).

   A request is one unit of input ("R", or "B": one that ends the connection with
   GOAWAY) and one unit of output; room is what the client's buffers still take.
   Time passes in units of a third of the idle limit.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NClients, MaxConn, MaxEnv, Record
Clients == 1..NClients
Fds == 1..(MaxConn + 1)
Idle == 3
VARIABLES s, queue, reg, appreg, pc, ev, fresh, stop, n, h
vars == <<s, queue, reg, appreg, pc, ev, fresh, stop, n, h>>

S0 == [st |-> "none", fd |-> 0, in |-> <<>>, room |-> 2, eof |-> FALSE, rst |-> FALSE, out |-> 0, bad |-> FALSE,
       age |-> 0, sent |-> 0, ans |-> 0, closes |-> 0]
Empty == [f \in {} |-> {}]
Init == /\ s = [k \in Clients |-> S0] /\ queue = <<>> /\ reg = Empty /\ appreg = {} /\ pc = "reap" /\ ev = {}
        /\ fresh = FALSE /\ stop = FALSE /\ n = 0 /\ h = <<>>

Open == {k \in Clients : s[k].st = "open"}
Owner(f) == CHOOSE k \in Open : s[k].fd = f
Owned(f) == \E k \in Open : s[k].fd = f
Note(op) == h' = IF Record THEN Append(h, IF pc = "batch" THEN <<"late">> \o op ELSE op) ELSE h
Drop(f, fn) == [x \in DOMAIN fn \ {f} |-> fn[x]]
Put(f, i, fn) == [x \in DOMAIN fn \cup {f} |-> IF x = f THEN i ELSE fn[x]]

(************************ the world outside the server ************************)
\* while the server waits or, before it looks at the events reported to it, between the two
Env == /\ pc = "wait" \/ (pc = "batch" /\ (fresh \/ ~Record))
       /\ n < MaxEnv /\ n' = n + 1 /\ ~stop
       /\ UNCHANGED <<reg, appreg, pc, ev, fresh>>
Up(k) == s[k].st \in {"queue", "open"} /\ ~s[k].eof /\ ~s[k].rst
Connect(k) == /\ s[k].st = "none" /\ \A j \in 1..(k - 1) : s[j].st # "none"
              /\ s' = [s EXCEPT ![k].st = "queue"] /\ queue' = Append(queue, k) /\ Note(<<"conn", k>>) /\ UNCHANGED stop
Send(k, u) == /\ Up(k) /\ Len(s[k].in) < 2 /\ ~s[k].bad
              /\ s' = [s EXCEPT ![k].in = Append(@, u), ![k].sent = @ + 1, ![k].bad = u = "B"] /\ Note(<<"send", k, u>>) /\ UNCHANGED <<queue, stop>>
Room(k, r) == /\ Up(k) /\ s[k].room # r /\ s' = [s EXCEPT ![k].room = r] /\ Note(<<"room", k, r>>) /\ UNCHANGED <<queue, stop>>
Fin(k) == /\ Up(k) /\ s' = [s EXCEPT ![k].eof = TRUE] /\ Note(<<"fin", k>>) /\ UNCHANGED <<queue, stop>>
Rst(k) == /\ Up(k) /\ s' = [s EXCEPT ![k].rst = TRUE, ![k].in = <<>>] /\ Note(<<"rst", k>>) /\ UNCHANGED <<queue, stop>>
AccErr == /\ Len(queue) < 3 /\ queue' = Append(queue, 0) /\ Note(<<"aerr">>) /\ UNCHANGED <<s, stop>>
Stop == /\ stop' = TRUE /\ Note(<<"stop">>) /\ UNCHANGED <<s, queue>>
World == Env /\ \/ \E k \in Clients : \/ Connect(k) \/ Fin(k) \/ Rst(k) \/ Send(k, "R") \/ Send(k, "B")
                                     \/ Room(k, 0) \/ Room(k, 2)
                \/ AccErr \/ Stop

(******************************** the event loop ********************************)
\* poller.set / poller.remove as EPollPoller does them
SetOK(f, ap, rg) == IF f \in ap THEN f \in DOMAIN rg ELSE f \notin DOMAIN rg
Set(f, i, ap, rg) == IF SetOK(f, ap, rg) THEN <<ap \cup {f}, Put(f, i, rg)>> ELSE <<ap, rg>>
ClosedRec(r) == [r EXCEPT !.st = "closed", !.fd = 0, !.closes = @ + 1, !.out = 0, !.in = <<>>]

Reap == /\ pc = "reap"
        /\ LET old == {k \in Open : s[k].age >= Idle}
               fs == {s[k].fd : k \in old}
           IN /\ s' = [k \in Clients |-> IF k \in old THEN ClosedRec(s[k]) ELSE s[k]]
              /\ reg' = [f \in DOMAIN reg \ fs |-> reg[f]] /\ appreg' = appreg \ fs
        /\ pc' = "wait" /\ UNCHANGED <<queue, ev, fresh, stop, n, h>>

Hup(r) == r.rst
In(r) == r.in # <<>> \/ r.eof \/ r.rst
OutOk(r) == r.room > 0 \/ r.rst
Reported == {[fd |-> f, r |-> "R" \in reg[f] /\ In(s[Owner(f)]), w |-> "W" \in reg[f] /\ OutOk(s[Owner(f)]), hup |-> Hup(s[Owner(f)])] :
                 f \in {x \in DOMAIN reg : Owned(x)}}
Hot == {e \in Reported : e.r \/ e.w \/ e.hup} \cup (IF queue # <<>> THEN {[fd |-> 0, r |-> TRUE, w |-> FALSE, hup |-> FALSE]} ELSE {})
Poll == /\ pc = "wait"
        /\ IF stop /\ Hot = {} THEN pc' = "loop" /\ ev' = {} /\ UNCHANGED <<s, fresh, h>>
           ELSE IF Hot = {}
                THEN /\ s' = [k \in Clients |-> IF k \in Open THEN [s[k] EXCEPT !.age = IF @ < Idle THEN @ + 1 ELSE @] ELSE s[k]]
                     /\ pc' = "loop" /\ ev' = {} /\ h' = (IF Record THEN Append(h, <<"idle">>) ELSE h) /\ UNCHANGED fresh
                     /\ Open # {} \/ n < MaxEnv
                ELSE pc' = "batch" /\ ev' = Hot /\ fresh' = TRUE /\ h' = (IF Record THEN Append(h, <<"go">>) ELSE h) /\ UNCHANGED s
        /\ UNCHANGED <<queue, reg, appreg, stop, n>>
Interrupted == /\ pc = "wait" /\ n < MaxEnv /\ n' = n + 1 /\ pc' = "loop" /\ h' = (IF Record THEN h \o <<<<"intr">>, <<"go">>>> ELSE h)
               /\ UNCHANGED <<s, queue, reg, appreg, ev, fresh, stop>>
Loop == /\ pc = "loop" /\ pc' = (IF stop THEN "end" ELSE "reap") /\ UNCHANGED <<s, queue, reg, appreg, ev, fresh, stop, n, h>>

\* process(): flush, then act on input while nothing is pending
RECURSIVE Work(_)
Work(r) == IF r.rst THEN [r EXCEPT !.st = "closed"]
           ELSE IF r.out > 0 THEN IF r.room > 0 THEN Work([r EXCEPT !.out = @ - 1, !.room = @ - 1, !.ans = @ + 1, !.age = 0])
                                  ELSE IF r.bad /\ r.in = <<>> THEN [r EXCEPT !.st = "closed"] ELSE r
           ELSE IF r.in # <<>> THEN IF Head(r.in) = "R" THEN Work([r EXCEPT !.in = Tail(@), !.out = 1, !.age = 0])
                                    ELSE [r EXCEPT !.st = "closed"]
           ELSE IF r.eof THEN [r EXCEPT !.st = "closed"] ELSE r
Free == CHOOSE f \in Fds : ~Owned(f) /\ \A g \in Fds : ~Owned(g) => f <= g
Take == LET k == Head(queue)
        IN /\ queue' = Tail(queue)
           /\ IF k = 0 THEN UNCHANGED <<s, reg, appreg>>
              ELSE IF Cardinality(Open) >= MaxConn
                   THEN s' = [s EXCEPT ![k].st = "refused", ![k].closes = @ + 1] /\ UNCHANGED <<reg, appreg>>
                   ELSE LET p == Set(Free, {"R"}, appreg, reg)
                        IN s' = [s EXCEPT ![k].st = "open", ![k].fd = Free] /\ appreg' = p[1] /\ reg' = p[2]
Handle == /\ pc = "batch" /\ ev # {} /\ fresh' = FALSE
          /\ \E e \in ev :
              /\ ev' = ev \ {e}
              /\ IF e.fd = 0 THEN IF queue = <<>> THEN UNCHANGED <<s, queue, reg, appreg>> ELSE Take
                 ELSE IF ~Owned(e.fd) THEN UNCHANGED <<s, queue, reg, appreg>>
                 ELSE LET k == Owner(e.fd)
                          f == e.fd
                          p1 == IF e.w THEN Set(f, {"R"}, appreg, reg) ELSE <<appreg, reg>>
                          r == Work(s[k])
                          gone == e.hup \/ r.st = "closed"
                          p2 == IF r.out > 0 THEN Set(f, {"W"}, p1[1], p1[2]) ELSE p1
                      IN /\ queue' = queue
                         /\ IF gone THEN s' = [s EXCEPT ![k] = ClosedRec(IF e.hup THEN s[k] ELSE r)] /\ reg' = Drop(f, reg) /\ appreg' = appreg \ {f}
                            ELSE s' = [s EXCEPT ![k] = r] /\ appreg' = p2[1] /\ reg' = p2[2]
          /\ pc' = pc /\ UNCHANGED <<stop, n, h>>
BatchDone == /\ pc = "batch" /\ ev = {} /\ pc' = "loop" /\ UNCHANGED <<s, queue, reg, appreg, ev, fresh, stop, n, h>>
End == /\ pc = "end" /\ pc' = "done"
       /\ s' = [k \in Clients |-> IF k \in Open THEN ClosedRec(s[k]) ELSE s[k]] /\ reg' = Empty /\ appreg' = {}
       /\ UNCHANGED <<queue, ev, fresh, stop, n, h>>
Emit == /\ Record /\ (n = MaxEnv \/ stop) /\ pc = "wait" /\ PrintT("BEH " \o ToJson(h)) /\ pc' = "emitted"
        /\ UNCHANGED <<s, queue, reg, appreg, ev, fresh, stop, n, h>>
Server == Reap \/ Poll \/ Loop \/ Handle \/ BatchDone \/ End
Next == World \/ Server \/ Interrupted \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Server)

(********************************* properties *********************************)
\* C22
Capacity == Cardinality(Open) <= MaxConn
\* C24: descriptors are distinct, closed once, and nothing of them stays behind
FdDistinct == \A j, k \in Open : j # k => s[j].fd # s[k].fd
ClosedOnce == \A k \in Clients : s[k].closes = (IF s[k].st \in {"closed", "refused"} THEN 1 ELSE 0)
NoTrace == pc \in {"wait", "reap", "loop"} => DOMAIN reg = {s[k].fd : k \in Open} /\ appreg = DOMAIN reg
AllClosed == pc = "done" => Open = {} /\ reg = Empty
\* C23
IdleClosed == pc = "wait" => \A k \in Open : s[k].age < Idle
\* C27: writability is asked for exactly while output is blocked, input otherwise
Interest == pc = "wait" => \A k \in Open : reg[s[k].fd] = IF s[k].out > 0 THEN {"W"} ELSE {"R"}
NothingLeft == pc = "wait" /\ Hot = {} => \A k \in Open : (s[k].out = 0 => s[k].in = <<>>) /\ (s[k].out > 0 => s[k].room = 0)
\* C25: only its own doing ends a connection or keeps a request from being answered
Isolated == \A k \in Clients : s[k].st = "closed" /\ ~stop /\ s[k].age < Idle => s[k].rst \/ s[k].eof \/ s[k].bad
Answered == pc = "wait" => \A k \in Open : s[k].rst \/ s[k].ans + Len(s[k].in) + s[k].out = s[k].sent
\* C26, C27, C22 as progress
Progress == \A k \in Clients : (s[k].st = "open" /\ s[k].in # <<>>) ~> (s[k].in = <<>> \/ s[k].room = 0 \/ s[k].st = "closed")
Taken == \A k \in Clients : (s[k].st = "queue") ~> (s[k].st # "queue" \/ stop)
Stopped == stop ~> (pc \in {"done", "emitted"})
=============================================================================
