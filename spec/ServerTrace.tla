---------------------------- MODULE ServerTrace ----------------------------
(* Trace validation of the whole server over a simulated kernel (harness/
   sim_driver.cpp).  Every client has its connection state (Conn, ConnJudge); here
   are the descriptors, the event loop, time, capacity and stopping.  Events:
     acc k | accerr | accnone | close who | bad op | int k mask
     rd k bytes | rblock k | rwblock k | eof k | rerr k | wr k off acc frames tail | wblock k
     werr k | shut k | call k route m p hdrs
     wait to now prev backlog unread     the server waits for events (prev: when the last wait ended)
     ready now backlog unread canw ev    it is told of ev, a sequence of <<k, mask>>
     stop how | ret | exc | forever | spin | hang
   With TLS, rd and wr are what the server reads from and writes to OpenSSL, and
     hs k res | cin k n | cout k n | cblock k | ceof k | cerr k      (ciphertext)
     alpn k offer sel | hsfail k | cfail k | got k sent got same      (at the client)
   Masks: 1 read, 2 write, 4 hangup, 8 error.  k = 0 is the listener.       *)
EXTENDS ConnJudge, Verdict, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
MaxConn == 128
IdleMs == 5000
LongestWait == 250
VARIABLES t, l, cs, ks, g
vars == <<t, l, cs, ks, g>>

\* ks[k]: x, the facts about the transport; st: none, open, rejected, closed; last: time of the last
\* progress; int: what is polled for; rep: what was reported this round; act: used this round; rds: read from
\* clast: the last time any octet travelled; outc: ciphertext sent since the last progress was counted
K0 == [x |-> X0, st |-> "none", last |-> 0, clast |-> 0, outc |-> 0, int |-> 0, rep |-> 0, act |-> FALSE, rds |-> FALSE]
C0(tls) == IF tls THEN NewConn ELSE [NewConn EXCEPT !.ph = "pre"]
Record == 16384 + 256           \* a TLS record with its overhead
G0 == [now |-> 0, n |-> 0, lis |-> FALSE, ep |-> FALSE, lint |-> 0, lrep |-> FALSE, acc |-> FALSE,
       stopped |-> FALSE, inwait |-> FALSE, waits |-> 0, ret |-> FALSE]

Yes(cs2, ks2, g2) == [ok |-> TRUE, why |-> "", cs |-> cs2, ks |-> ks2, g |-> g2]
Nope(why) == [ok |-> FALSE, why |-> why, cs |-> cs, ks |-> ks, g |-> g]
KNope(k, why) == Nope("client " \o ToString(k) \o ": " \o why)

Blocked(y) == y.blocked \/ y.tail > 0
Stopped(y) == Blocked(y) \/ y.rw         \* waits for output to move
Has(m, b) == (m \div b) % 2 = 1

\* an event of connection k judged by ConnJudge
On(k, e, cfg, progress) ==
    LET s == ks[k]
    IN IF s.st = "none" \/ s.st = "closed" THEN KNope(k, "used although it is not open")
       ELSE IF s.st = "rejected" THEN KNope(k, "served although all places are taken")
       ELSE LET j == Judge(cs[k], s.x, e, cfg)
            IN IF ~j.ok THEN KNope(k, j.why)
               ELSE Yes([cs EXCEPT ![k] = j.c],
                        [ks EXCEPT ![k].x = j.x, ![k].act = TRUE, ![k].rds = @ \/ e.op \in {"rd", "rblock", "rwblock", "eof", "rerr"},
                                   ![k].last = IF progress THEN g.now ELSE @, ![k].clast = IF progress THEN g.now ELSE @,
                                   ![k].outc = IF progress THEN 0 ELSE @], g)

\* ciphertext: two records and more sent count as progress even if the connection was told of none
Cipher(k, e) ==
    LET s == ks[k]
        n == s.outc + (IF e.op = "cout" THEN e.n ELSE 0)
        prog == n >= 2 * Record /\ cs[k].ph # "hs"
    IN IF s.st \notin {"open"} THEN KNope(k, "used although it is not open")
       ELSE Yes(cs, [ks EXCEPT ![k].act = TRUE, ![k].rds = @ \/ e.op # "cout", ![k].clast = IF e.op \in {"cin", "cout"} THEN g.now ELSE @,
                               ![k].last = IF prog THEN g.now ELSE @, ![k].outc = IF prog THEN 0 ELSE n], g)
H2 == <<104, 50>>
RECURSIVE OfferAt(_, _)         \* an ALPN list: names, each after its length
OfferAt(o, i) == i <= Len(o) /\ (\/ i + o[i] <= Len(o) /\ SubSeq(o, i + 1, i + o[i]) = H2
                                \/ OfferAt(o, i + 1 + o[i]))
Offers(o) == OfferAt(o, 1)

Accept1(k) ==
    IF ks[k].st # "none" THEN KNope(k, "accepted twice")
    ELSE IF g.ret THEN KNope(k, "accepted after the end")
    ELSE IF g.n >= MaxConn THEN Yes(cs, [ks EXCEPT ![k].st = "rejected", ![k].act = TRUE], [g EXCEPT !.acc = TRUE])
    ELSE Yes(cs, [ks EXCEPT ![k].st = "open", ![k].last = g.now, ![k].clast = g.now, ![k].act = TRUE], [g EXCEPT !.acc = TRUE, !.n = @ + 1])

MayClose(k) == LET s == ks[k]
               IN \/ g.stopped
                  \/ MayDiscard(cs[k], s.x)
                  \/ g.now - s.last >= IdleMs
                  \/ Has(s.rep, 4) \/ Has(s.rep, 8)
Close(k) ==
    LET s == ks[k]
    IN CASE s.st = "rejected" -> Yes(cs, [ks EXCEPT ![k].st = "closed", ![k].int = 0], g)
         [] s.st = "open" -> IF MayClose(k) THEN Yes(cs, [ks EXCEPT ![k].st = "closed", ![k].int = 0], [g EXCEPT !.n = @ - 1])
                             ELSE KNope(k, IF g.now - s.last > 0 /\ s.rep = 0 THEN "closed for idleness although it was active" ELSE "closed without a reason")
         [] OTHER -> KNope(k, "closed although it is not open")

\* what has to be done before the next wait
Due(k, e) ==
    LET s == ks[k]
        x == s.x
        c == cs[k]
    IN CASE s.st = "rejected" -> "not closed although all places are taken"
         [] s.st # "open" -> IF s.int # 0 THEN "polled although it is closed" ELSE ""
         [] x.dead -> "kept after a fatal event"
         [] Has(s.rep, 4) \/ Has(s.rep, 8) -> "kept although the other side is gone"
         [] ~Blocked(x) /\ c.ph \in {"fail", "bye", "closing", "badpre"} -> "kept although it is finished"
         [] ~Blocked(x) /\ c.q # <<>> -> "a complete frame is unanswered"
         [] ~Blocked(x) /\ c.nc # Len(c.calls) -> "a handler was not called"
         [] ~Stopped(x) /\ Has(s.int, 2) -> "polled for writing although no output is blocked"
         [] ~Stopped(x) /\ ~Has(s.int, 1) -> "not polled for reading"
         [] Stopped(x) /\ ~Has(s.int, 2) -> "output is blocked but not polled for writing"
         [] OTHER -> ""
Ignored(k) == ks[k].st = "open" /\ Has(ks[k].rep, 1) /\ ~ks[k].rds /\ ~Stopped(ks[k].x)
Spins(k) == ks[k].st = "open" /\ Has(ks[k].rep, 1) /\ ((~ks[k].rds /\ Blocked(ks[k].x)) \/ ks[k].x.rw) /\ Has(ks[k].int, 1)
Holds(k) == ks[k].st = "open" /\ ~Stopped(ks[k].x)   \* taken from the socket, where nothing tells of it any more
Stuck(k) == ks[k].st = "open" /\ Has(ks[k].rep, 2) /\ ~ks[k].act

OpenOnes == {k \in DOMAIN ks : ks[k].st = "open"}
Round(s) == [s EXCEPT !.x = Fresh(@), !.rep = 0, !.act = FALSE, !.rds = FALSE]
Wait(e) ==
    LET acted == {k \in DOMAIN ks : ks[k].act \/ ks[k].rep # 0}
        due == {k \in acted : Due(k, e) # ""}
        stale == {k \in OpenOnes : e.prev - ks[k].clast > IdleMs /\ e.prev - ks[k].last > IdleMs}
        unread == {e.unread[i] : i \in 1..Len(e.unread)}
        one(S) == CHOOSE k \in S : \A j \in S : k <= j
    IN IF g.ret THEN Nope("waits after the end")
       ELSE IF g.stopped /\ (g.inwait \/ g.waits > 0) THEN Nope("keeps waiting after it was told to stop")
       ELSE IF e.to < 0 \/ e.to > LongestWait THEN Nope("waits too long to notice that it should stop")
       ELSE IF due # {} THEN KNope(one(due), Due(one(due), e))
       ELSE IF stale # {} THEN KNope(one(stale), "idle for more than five seconds but not closed")
       ELSE IF \E k \in unread : Ignored(k) THEN KNope(one({k \in unread : Ignored(k)}), "input was reported but not read")
       ELSE IF \E k \in unread : Spins(k) THEN KNope(one({k \in unread : Spins(k)}), "polled for input that it does not read")
       ELSE IF \E i \in 1..Len(e.held) : Holds(e.held[i]) THEN KNope(CHOOSE k \in {e.held[i] : i \in 1..Len(e.held)} : Holds(k), "holds input that it has not looked at")
       ELSE IF \E k \in acted : Stuck(k) THEN KNope(one({k \in acted : Stuck(k)}), "was reported writable but nothing was done")
       ELSE IF ~g.lis \/ ~Has(g.lint, 1) THEN Nope("the listening socket is not polled")
       ELSE IF g.lrep /\ ~g.acc THEN Nope("a client waits but accept was not called")
       ELSE Yes(cs, [k \in DOMAIN ks |-> IF k \in acted THEN Round(ks[k]) ELSE ks[k]],
                [g EXCEPT !.now = e.now, !.lrep = FALSE, !.acc = FALSE, !.waits = IF g.stopped THEN @ + 1 ELSE @])

Mask(e, k) == LET S == {i \in 1..Len(e.ev) : e.ev[i][1] = k} IN IF S = {} THEN 0 ELSE e.ev[CHOOSE i \in S : TRUE][2]
Ready(e) ==
    LET told == {e.ev[i][1] : i \in 1..Len(e.ev)}
        canw == {e.canw[i] : i \in 1..Len(e.canw)}
        unread == {e.unread[i] : i \in 1..Len(e.unread)}
        dull == e.ev = <<>> /\ ~e.intr
        stalled == {k \in OpenOnes : \/ k \in unread /\ ~Stopped(ks[k].x)
                                     \/ k \in canw /\ Stopped(ks[k].x)}
    IN IF dull /\ e.backlog > 0 THEN Nope("a client waits but is not noticed")
       ELSE IF dull /\ stalled # {} THEN KNope(CHOOSE k \in stalled : TRUE, "could proceed but is not noticed")
       ELSE IF told = {} THEN Yes(cs, ks, [g EXCEPT !.now = e.now])
       ELSE Yes(cs, [k \in DOMAIN ks |-> IF k \in told THEN [ks[k] EXCEPT !.rep = Mask(e, k)] ELSE ks[k]],
                [g EXCEPT !.now = e.now, !.lrep = 0 \in told /\ e.backlog > 0])

Judge1(e, cfg) ==
    CASE e.op = "sock" -> IF g.lis THEN Nope("a second listening socket") ELSE Yes(cs, ks, [g EXCEPT !.lis = TRUE])
      [] e.op = "epoll" -> Yes(cs, ks, [g EXCEPT !.ep = TRUE])
      [] e.op = "acc" -> Accept1(e.k)
      [] e.op \in {"accerr", "accnone"} -> Yes(cs, ks, [g EXCEPT !.acc = TRUE])
      [] e.op = "close" -> IF e.k > 0 THEN Close(e.k)
                           ELSE IF ~g.stopped THEN Nope("closed its listening socket or poller while serving")
                           ELSE Yes(cs, ks, IF e.k = 0 THEN [g EXCEPT !.lis = FALSE] ELSE [g EXCEPT !.ep = FALSE])
      [] e.op = "int" -> IF e.k = 0 THEN Yes(cs, ks, [g EXCEPT !.lint = e.mask]) ELSE Yes(cs, [ks EXCEPT ![e.k].int = e.mask], g)
      [] e.op = "bad" -> Nope("used a descriptor that is not open: " \o e.call)
      [] e.op = "rd" -> On(e.k, e, cfg, TRUE)
      [] e.op \in {"rblock", "rwblock", "eof", "rerr", "werr", "wblock"} -> On(e.k, e, cfg, FALSE)
      [] e.op = "wr" -> On(e.k, e, cfg, TRUE)
      [] e.op = "hs" -> IF e.res = "misuse" THEN KNope(e.k, "handshake of a faultless client failed") ELSE On(e.k, e, cfg, e.res = "ok")
      [] e.op \in {"cin", "cout", "cblock", "ceof", "cerr"} -> Cipher(e.k, e)
      [] e.op = "misuse" -> KNope(e.k, "TLS failed although nothing was wrong with the client or its socket")
      [] e.op = "alpn" -> IF Offers(e.offer) /\ e.sel # H2 THEN KNope(e.k, "h2 was offered but not selected") ELSE Yes(cs, ks, g)
      [] e.op \in {"hsfail", "cfail"} -> IF cfg.fair[e.k] THEN KNope(e.k, "a faultless client cannot make sense of what the server sent") ELSE Yes(cs, ks, g)
      [] e.op = "got" -> IF Blocked(ks[e.k].x) \/ (e.same /\ e.got = e.sent) \/ ~cfg.fair[e.k] THEN Yes(cs, ks, g)
                         ELSE KNope(e.k, "what arrived is not what was written")
      [] e.op = "call" -> IF e.k \notin DOMAIN ks THEN Nope("handler called for a request no client sent") ELSE On(e.k, e, cfg, FALSE)
      [] e.op = "stall" -> Nope("a call made the whole server wait")
      [] e.op = "clock" -> Yes(cs, ks, [g EXCEPT !.now = e.now])
      [] e.op = "wait" -> Wait(e)
      [] e.op = "ready" -> Ready(e)
      [] e.op = "stop" -> Yes(cs, ks, [g EXCEPT !.stopped = TRUE, !.inwait = e.how = "wait"])
      [] e.op = "ret" -> IF ~g.stopped THEN Nope("returned without having been told to")
                         ELSE IF OpenOnes # {} THEN Nope("returned with open client connections")
                         ELSE IF g.lis \/ g.ep THEN Nope("returned without closing its own descriptors")
                         ELSE Yes(cs, ks, [g EXCEPT !.ret = TRUE])
      [] e.op = "end" -> IF g.ret THEN Yes(cs, ks, g) ELSE Nope("did not return")
      [] e.op = "exc" -> Nope("serving ended with an exception")
      [] e.op \in {"forever", "spin", "hang", "runs"} -> Nope("does not come back: " \o e.op)
      [] OTHER -> Yes(cs, ks, g)

Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ g = G0
        /\ cs = [k \in 1..Traces[t].cfg.n |-> C0(Traces[t].cfg.tls)] /\ ks = [k \in 1..Traces[t].cfg.n |-> K0]
Step == /\ l > 0 /\ l <= Len(Traces[t].ev)
        /\ LET j == Judge1(Traces[t].ev[l], Traces[t].cfg)
           IN IF j.ok THEN l' = l + 1 /\ cs' = j.cs /\ ks' = j.ks /\ g' = j.g
              ELSE Reject(Traces[t].id, l, j.why) /\ l' = 0 /\ UNCHANGED <<cs, ks, g>>
        /\ t' = t
Done == /\ l = Len(Traces[t].ev) + 1 /\ Accept(Traces[t].id) /\ l' = -1 /\ UNCHANGED <<t, cs, ks, g>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
TypeOK == g.n = Cardinality(OpenOnes) /\ g.n <= MaxConn
=============================================================================
