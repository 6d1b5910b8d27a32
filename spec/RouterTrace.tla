----------------------------- MODULE RouterTrace -----------------------------
(* Trace validation of the router.  Events:
     route r | static prefix root | mw id kind n | get slot m p | drop slot
     call slot m p hdrs ev res | stats total codes
     many slot n outs (the same call n times; outs: its different outcomes, 0 = thrown)
     put node | rm path | mv path to
   ev: [k, id, m, p, hdrs] enter/handler, [k, id, res] leave, [k, id] answer/caught
   res: [thrown, status, hdrs, len, ids (matching contents), page (numbers shown)] *)
EXTENDS Router, Verdict, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, w, slots
vars == <<t, l, w, slots>>

G(w2, s2) == [ok |-> TRUE, why |-> "", w |-> w2, s |-> s2]
B(why) == [ok |-> FALSE, why |-> why, w |-> w, s |-> slots]

XMw == <<120,45,109,119>>
XRoute == <<120,45,114,111,117,116,101>>
CType == <<99,111,110,116,101,110,116,45,116,121,112,101>>
CLen == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Tags(x) == [i \in 1..Len(x.tags) |-> <<XMw, Digits(x.tags[i])>>]
Is(ids, i) == \E k \in 1..Len(ids) : ids[k] = i
Values(hs, name) == {hs[i][2] : i \in {j \in 1..Len(hs) : hs[j][1] = name}}

\* is the recorded response r what x calls for?
StaticOK(cfg, tg, x, r) ==
    \* the status may have been changed by middleware: judged where it left the target
    \E a \in Answers(w.fs, cfg.mime, w.statics[tg.i].root, w.statics[tg.i].prefix, tg.p) :
        /\ a.status = x.st0
        /\ IF a.status = 200
           THEN /\ IF tg.head THEN r.len = 0 /\ Values(r.hdrs, CLen) = {Digits(a.len)} ELSE r.len = a.len /\ (a.len = 0 \/ Is(r.ids, a.id))
                /\ \E ty \in a.types : Values(r.hdrs, CType) = {ty}
           ELSE r.len = 0 /\ Values(r.hdrs, CLen) \subseteq {Digits(0)}

Right(cfg, x, r) ==
    IF x.thrown THEN r.thrown
    ELSE /\ ~r.thrown /\ r.status = x.status
         /\ \A v \in {i \in 1..Len(x.tags) : TRUE} : r.hdrs[Len(r.hdrs) - Len(x.tags) + v] = Tags(x)[v]
         /\ CASE x.k = "plain" -> r.len = 0
              [] x.k = "route" -> LET q == CHOOSE q \in {w.routes[i] : i \in 1..Len(w.routes)} : q.id = x.route
                                  IN /\ r.hdrs = <<<<XRoute, Digits(q.id)>>>> \o Tags(x)
                                     /\ r.len = q.len /\ (q.len = 0 \/ Is(r.ids, q.body))
              [] x.k = "page" -> r.page.total = x.total /\ r.page.codes = x.codes
              [] OTHER -> TRUE

\* the status a static target answered: permitted ones
StaticStatus(cfg, h) == IF h.t.k # "static" THEN {0}
                        ELSE {a.status : a \in Answers(w.fs, cfg.mime, w.statics[h.t.i].root, w.statics[h.t.i].prefix, h.t.p)}

EvOK(cfg, e, x, m, p, hdrs) ==
    /\ e.k = x.k /\ e.id = x.id
    /\ e.k \in {"enter", "handler"} => e.m = m /\ e.p = p /\ e.hdrs = hdrs
    /\ e.k = "leave" => Right(cfg, x.res, e.res)

Matches(cfg, e, r, s) ==
    LET st(x) == [x EXCEPT !.t = <<>>] IN
    /\ Len(e.ev) = Len(r.ev)
    /\ \A i \in 1..Len(r.ev) : EvOK(cfg, e.ev[i], r.ev[i], e.m, e.p, e.hdrs)
    /\ Right(cfg, r.res, e.res)
    \* what the static mapping sent
    /\ (~r.res.thrown /\ r.res.k = "static") => StaticOK(cfg, r.res.t[1], [st0 |-> s], e.res)

Judge(e, cfg) ==
    CASE e.op = "route" -> G(AddRoute(w, e.r), slots)
      [] e.op = "static" -> G(AddStatic(w, [prefix |-> e.prefix, root |-> e.root]), slots)
      [] e.op = "mw" -> G(AddMw(w, [id |-> e.id, kind |-> e.kind, n |-> e.n]), slots)
      [] e.op = "get" -> G(w, (e.slot :> Lookup(w, e.m, e.p)) @@ slots)
      [] e.op = "call" ->
             LET h == slots[e.slot]
                 S == {s \in StaticStatus(cfg, h) : Matches(cfg, e, Call(w, h, s), s)}
                 r == Call(w, h, CHOOSE s \in StaticStatus(cfg, h) : TRUE)
             IN IF S # {} THEN G(Call(w, h, CHOOSE s \in S : TRUE).w, slots)
                ELSE IF Len(e.ev) # Len(r.ev) \/ \E i \in 1..Len(r.ev) : ~EvOK(cfg, e.ev[i], r.ev[i], e.m, e.p, e.hdrs)
                     THEN B("handlers and middleware did not run as registered")
                ELSE IF h.t.k = "static" THEN B("wrong answer for a static path") ELSE B("wrong response")
      [] e.op = "many" ->
             LET h == slots[e.slot]
                 Out(s) == LET r == Call(w, h, s).res IN IF r.thrown THEN 0 ELSE r.status
                 S == {s \in StaticStatus(cfg, h) : e.outs = <<Out(s)>>}
             IN IF S # {} THEN G(Many(w, h, CHOOSE s \in S : TRUE, e.n), slots) ELSE B("one of many calls of a handler was answered differently")
      [] e.op = "put" -> G([w EXCEPT !.fs = Put(@, e.node)], slots)
      [] e.op = "rm" -> G([w EXCEPT !.fs = Remove(@, e.path)], slots)
      [] e.op = "mv" -> G([w EXCEPT !.fs = Move(@, e.path, e.to)], slots)
      [] e.op = "stats" -> IF e.total = w.total /\ e.codes = w.codes THEN G(w, slots) ELSE B("counters differ from the requests made")
      [] OTHER -> G(w, slots)

Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ w = [NewWorld EXCEPT !.fs = Traces[t].cfg.fs] /\ slots = <<>>
Step == /\ l > 0 /\ l <= Len(Traces[t].ev)
        /\ LET j == Judge(Traces[t].ev[l], Traces[t].cfg)
           IN IF j.ok THEN l' = l + 1 /\ w' = j.w /\ slots' = j.s
              ELSE Reject(Traces[t].id, l, j.why) /\ l' = 0 /\ UNCHANGED <<w, slots>>
        /\ t' = t
Done == /\ l = Len(Traces[t].ev) + 1 /\ Accept(Traces[t].id) /\ l' = -1 /\ UNCHANGED <<t, w, slots>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
