----------------------------- MODULE ConnJudge -----------------------------
(* What one connection may do next, given its state c (Conn.tla) and the facts x
   about its transport: each observed event is either explained (and yields the
   next c and x) or rejected with a reason.  Used by ConnTrace for one connection
   over a scripted transport and by ServerTrace for all connections of a server. *)
EXTENDS Conn

\* x: facts about the transport.  Those named here are reset when process() returns.
X0 == [blocked |-> FALSE,     \* the last write was not taken in full
       tail |-> 0,            \* octets of an incomplete frame already on the wire
       dead |-> FALSE,        \* a fatal event was reported to the connection
       proto |-> FALSE,       \* that event may be answered with GOAWAY
       rw |-> FALSE,          \* the last read has to wait for output to move (TLS)
       soft |-> FALSE,        \* a read failed in a way that may pass
       lastw |-> "none", lastr |-> "none", lasths |-> "none", over |-> FALSE]
Fresh(y) == [y EXCEPT !.soft = FALSE, !.lastw = "none", !.lastr = "none", !.lasths = "none"]

G(d, y) == [ok |-> TRUE, why |-> "", c |-> d, x |-> y]
Bad(c, x, why) == [ok |-> FALSE, why |-> why, c |-> c, x |-> x]
Lift(r, y) == IF r.ok THEN G(r.c, y) ELSE Bad(r.c, y, r.why)

JHs(c, x, e) == CASE e.res = "ok" -> G(IF c.ph = "hs" THEN [c EXCEPT !.ph = "pre"] ELSE c, [x EXCEPT !.lasths = "ok", !.blocked = FALSE])
            [] e.res = "block" -> G(c, [x EXCEPT !.lasths = "block", !.blocked = FALSE])
            [] e.res = "wblock" -> G(c, [x EXCEPT !.lasths = "block", !.lastw = "short", !.blocked = TRUE])
            [] OTHER -> G(c, [x EXCEPT !.dead = TRUE])

JRd(c, x, e, cfg) ==
    IF c.ph = "hs" THEN Bad(c, x, "read before the handshake was complete")
    ELSE IF x.dead THEN G(c, x)               \* dropped: nothing has to come of it any more
    ELSE IF x.blocked \/ x.tail > 0 THEN Bad(c, x, "read more while output was blocked")
    ELSE IF Unanswered(c) > 0 THEN Bad(c, x, "read more before the last response was written")
    ELSE LET d == Feed(c, cfg, e.bytes)
         IN IF Unprocessed(d) > 65536 THEN Bad(c, x, "more than 64 KiB of unprocessed input buffered")
            ELSE G(d, [x EXCEPT !.lastr = "data", !.rw = FALSE])

\* After a protocol error of the transport, requests not yet acted on need no answer; GOAWAY comes next.
IsGoaway(f) == f.type = GOAWAY /\ f.stream = Zero4 /\ f.len >= 8 /\ SubSeq(f.pl, 5, 8) = <<0, 0, 0, 1>>
IsClose(f) == f.type = GOAWAY /\ f.stream = Zero4 /\ f.len >= 8 /\ SubSeq(f.pl, 5, 8) = Zero4
Skip(c, x, fs) == IF c.ph = "closing" /\ fs # <<>> /\ \E k \in 1..Len(fs) : IsClose(fs[k])
            THEN [c EXCEPT !.q = SelectSeq(@, LAMBDA it : it.k \in {"settings", "goaway0"} \/ it.st # "hdr")]
            ELSE IF x.proto /\ fs # <<>> /\ IsGoaway(fs[1]) /\ (c.q = <<>> \/ c.q[1].st = "hdr")
            THEN [c EXCEPT !.q = <<Owed("goaway")>>] ELSE c
JWr(c, x, e) ==
    IF c.ph = "hs" THEN Bad(c, x, "wrote before the handshake was complete")
    ELSE LET r == OutAll(Skip(c, x, e.frames), e.frames, 1)
             short == e.acc < e.off
         IN IF ~r.ok THEN Bad(c, x, r.why)
            ELSE IF r.c.q = <<>> /\ e.tail > 0 THEN Bad(c, x, "octets sent without cause")
            ELSE G(r.c, [x EXCEPT !.blocked = short, !.tail = e.tail, !.lastw = IF short THEN "short" ELSE "full"])

JCall(c, x, e) ==
    LET r == Call(c, e.route, e.m, e.p, e.hdrs)
    IN IF ~r.ok THEN Bad(c, x, r.why)
       ELSE IF x.dead THEN Bad(c, x, "handler ran after a fatal event")
       ELSE IF x.blocked \/ x.tail > 0 THEN Bad(c, x, "handler ran while output was blocked")
       ELSE IF \E i \in 1..Len(c.q) : c.q[i].call = r.c.nc /\ i > 1
            THEN Bad(c, x, "handler ran while earlier output was pending")
       ELSE G(r.c, x)

OnlyGoaway(c) == \A i \in 1..Len(c.q) : c.q[i].k = "goaway"
MayDiscard(c, x) ==
    \/ x.dead \/ x.soft
    \/ c.ph = "fail" /\ OnlyGoaway(c) /\ ((c.q = <<>> /\ x.tail = 0) \/ x.lastw = "short")
    \/ c.ph = "bye" /\ c.q = <<>> /\ x.tail = 0
    \/ c.ph = "closing" /\ c.q = <<>> /\ x.tail = 0
    \/ WrongPreface(c)
JRet(c, x, e, cfg) ==
    IF x.over THEN Bad(c, x, "used after it was discarded")
    ELSE IF cfg.log /\ (c.nl < c.na \/ (e.res = "WR" /\ ~x.dead /\ c.nl # Len(c.logs))) THEN Bad(c, x, "answered request not logged")
    ELSE CASE e.res = "DC" ->
             IF ~MayDiscard(c, x) THEN Bad(c, x, "connection discarded without a reason")
             ELSE G(c, [x EXCEPT !.over = TRUE])
      [] e.res = "WW" ->
             IF x.dead THEN Bad(c, x, "kept waiting after a fatal event")
             ELSE IF x.lastw # "short" THEN Bad(c, x, "waits for writability although nothing is blocked")
             ELSE G(c, Fresh(x))
      [] e.res = "WR" ->
             IF x.dead THEN Bad(c, x, "kept waiting after a fatal event")
             ELSE IF c.ph = "hs" THEN IF x.lasths = "block" THEN G(c, Fresh(x)) ELSE Bad(c, x, "waits without having tried the handshake")
             ELSE IF c.ph \in {"fail", "bye", "closing", "badpre"} THEN Bad(c, x, "waits for input on a finished connection")
             ELSE IF x.blocked \/ x.tail > 0 THEN Bad(c, x, "output is blocked but writability is not asked for")
             ELSE IF c.q # <<>> THEN Bad(c, x, "waits for input although a complete frame is unanswered")
             ELSE IF c.nc # Len(c.calls) THEN Bad(c, x, "a handler was not called")
             ELSE IF e.avail > 0 /\ x.lastr \notin {"block", "data"} /\ ~x.soft      \* what it has begun to read it is told of again
                  THEN Bad(c, x, "waits for input although input is there")
             ELSE G(c, Fresh(x))

Judge(c, x, e, cfg) ==
    CASE e.op = "hs" -> JHs(c, x, e)
      [] e.op = "rd" -> JRd(c, x, e, cfg)
      [] e.op = "rblock" -> G(c, [x EXCEPT !.lastr = "block", !.rw = FALSE])
      [] e.op = "rwblock" -> G(c, [x EXCEPT !.lastr = "block", !.rw = TRUE])
      [] e.op = "eof" -> G(c, [x EXCEPT !.dead = TRUE, !.lastr = "eof"])
      [] e.op = "rerr" -> IF e.kind = 3     \* a protocol error of the transport may be answered with GOAWAY
                          THEN G(IF c.ph \in {"pre", "open"} THEN Fail(c) ELSE c, [x EXCEPT !.dead = TRUE, !.proto = c.ph # "hs"])
                          ELSE G(c, IF e.kind = 2 THEN [x EXCEPT !.dead = TRUE] ELSE [x EXCEPT !.soft = TRUE])
      [] e.op = "wr" -> JWr(c, x, e)
      [] e.op = "wblock" -> G(c, [x EXCEPT !.blocked = TRUE, !.lastw = "short"])
      [] e.op = "werr" -> G(c, [x EXCEPT !.dead = TRUE])
      [] e.op = "wchanged" -> Bad(c, x, "a blocked write was repeated with other data")
      [] e.op = "call" -> JCall(c, x, e)
      [] e.op = "log" -> Lift(Log(c, cfg, e.line, <<e.at, e.at>>), x)
      [] e.op = "close" -> G(IF c.ph \in {"pre", "open"} THEN [Push(c, Owed("goaway0")) EXCEPT !.ph = "closing"] ELSE c, x)
      [] e.op = "ret" -> JRet(c, x, e, cfg)
      [] e.op = "fin" -> IF e.out = e.ref \/ (c.ph = "fail" /\ x.lastw = "short") THEN G(c, x) ELSE Bad(c, x, "the bytes sent depend on how the streams were cut up")
      [] e.op = "spin" -> Bad(c, x, "process() does not come back")
      [] OTHER -> G(c, x)
=============================================================================
