------------------------------- MODULE Router -------------------------------
(* Routing, middleware and request statistics as functions of what has been
   registered.  A request handler is a target wrapped in the middleware that was
   registered when it was looked up; running it yields the events that can be
   observed and a result.

   Targets: [k |-> "route" | "page", r |-> route], [k |-> "static", i |-> mapping, p, head], [k |-> "none"]
   Middleware: [id, kind, n]; kind "stat" is the statistics middleware.        *)
EXTENDS StaticFs, TLC, SequencesExt, FiniteSetsExt

GET == <<71,69,84>>
HEAD == <<72,69,65,68>>

\* w = [routes, statics, mws, total, codes, fs]; fs: the file tree as it is now
NewWorld == [routes |-> <<>>, statics |-> <<>>, mws |-> <<>>, total |-> 0, codes |-> <<>>, fs |-> <<>>]
AddRoute(w, r) == [w EXCEPT !.routes = Append(@, r)]
AddStatic(w, s) == [w EXCEPT !.statics = Append(@, s)]
AddMw(w, m) == [w EXCEPT !.mws = Append(@, m)]

Target(w, m, p) ==
    LET S == {i \in 1..Len(w.routes) : w.routes[i].m = m /\ w.routes[i].p = p}
        T == {i \in 1..Len(w.statics) : StartsWith(p, w.statics[i].prefix)}
    IN IF S # {} THEN LET r == w.routes[CHOOSE i \in S : \A j \in S : i <= j]
                      IN [k |-> r.k, r |-> r, i |-> 0, p |-> p, head |-> FALSE]
       ELSE IF m \in {GET, HEAD} /\ T # {}
            THEN [k |-> "static", r |-> <<>>, i |-> CHOOSE i \in T : \A j \in T : j <= i, p |-> p, head |-> m = HEAD]
       ELSE [k |-> "none", r |-> <<>>, i |-> 0, p |-> p, head |-> FALSE]
Lookup(w, m, p) == [t |-> Target(w, m, p), mws |-> w.mws]

\* codes: a function from status code to count, as a sequence of pairs in ascending order
Bump(codes, c) == IF \E i \in 1..Len(codes) : codes[i][1] = c
                  THEN [i \in 1..Len(codes) |-> IF codes[i][1] = c THEN <<c, codes[i][2] + 1>> ELSE codes[i]]
                  ELSE LET k == Cardinality({i \in 1..Len(codes) : codes[i][1] < c})
                       IN SubSeq(codes, 1, k) \o <<<<c, 1>>>> \o SubSeq(codes, k + 1, Len(codes))

\* A result is thrown, or a response.  What a static mapping or the status page answers is left open
\* here: res.k says how the recorded response is to be judged (see RouterTrace).
Thrown == [thrown |-> TRUE, k |-> "", status |-> 0, route |-> 0, tags |-> <<>>, t |-> <<>>, total |-> 0, codes |-> <<>>]
Resp(s) == [Thrown EXCEPT !.thrown = FALSE, !.k = "plain", !.status = s]
Ev(k, id, res) == [k |-> k, id |-> id, res |-> res]

\* run the target; sOf gives the status of a static answer (what the code returned, if permitted)
RunTarget(w, t, sOf) ==
    CASE t.k = "route" -> IF t.r.thr # 0 THEN [ev |-> <<Ev("handler", t.r.id, Thrown)>>, res |-> Thrown, w |-> w]
                          ELSE [ev |-> <<Ev("handler", t.r.id, Thrown)>>, w |-> w,
                                res |-> [Resp(t.r.status) EXCEPT !.k = "route", !.route = t.r.id]]
      [] t.k = "page" -> [ev |-> <<>>, w |-> w, res |-> [Resp(200) EXCEPT !.k = "page", !.total = w.total, !.codes = w.codes]]
      [] t.k = "static" -> [ev |-> <<>>, w |-> w, res |-> [Resp(sOf) EXCEPT !.k = "static", !.t = <<t>>]]
      [] OTHER -> [ev |-> <<>>, w |-> w, res |-> Resp(404)]

RECURSIVE Run(_, _, _, _, _)
Run(w, mws, k, t, sOf) ==
    IF k > Len(mws) THEN RunTarget(w, t, sOf)
    ELSE LET m == mws[k]
             ent == IF m.kind = "stat" THEN <<>> ELSE <<Ev("enter", m.id, Thrown)>>
             w1 == IF m.kind = "stat" THEN [w EXCEPT !.total = @ + 1] ELSE w
         IN CASE m.kind = "short" -> [ev |-> Append(ent, Ev("answer", m.id, Thrown)), w |-> w1, res |-> Resp(m.n)]
              [] m.kind = "throwb" -> [ev |-> ent, w |-> w1, res |-> Thrown]
              [] OTHER ->
                 LET i == Run(w1, mws, k + 1, t, sOf)
                     ev1 == ent \o i.ev
                 IN IF m.kind = "stat"
                    THEN [ev |-> ev1, res |-> i.res, w |-> [i.w EXCEPT !.codes = Bump(@, IF i.res.thrown THEN 500 ELSE i.res.status)]]
                    ELSE IF i.res.thrown
                    THEN IF m.kind = "catch" THEN [ev |-> Append(ev1, Ev("caught", m.id, Thrown)), w |-> i.w, res |-> Resp(m.n)]
                         ELSE [ev |-> ev1, w |-> i.w, res |-> Thrown]
                    ELSE [ev |-> Append(ev1, Ev("leave", m.id, i.res)), w |-> i.w,
                          res |-> IF m.kind = "throwa" THEN Thrown
                                  ELSE IF m.kind = "tag" THEN [i.res EXCEPT !.tags = Append(@, m.id)]
                                  ELSE IF m.kind = "status" THEN [i.res EXCEPT !.status = m.n]
                                  ELSE i.res]
Call(w, h, sOf) == Run(w, h.mws, 1, h.t, sOf)

\* the same call n times over (of a target whose answer does not depend on the counters): the counters count every one
RECURSIVE Add(_, _, _)
Add(codes, c, n) == IF \E i \in 1..Len(codes) : codes[i][1] = c
                    THEN [i \in 1..Len(codes) |-> IF codes[i][1] = c THEN <<c, codes[i][2] + n>> ELSE codes[i]]
                    ELSE Add(Bump(codes, c), c, n - 1)
Count(codes, c) == LET S == {i \in 1..Len(codes) : codes[i][1] = c} IN IF S = {} THEN 0 ELSE codes[CHOOSE i \in S : TRUE][2]
Many(w, h, sOf, n) ==
    LET w1 == Call(w, h, sOf).w
        d(c) == Count(w1.codes, c) - Count(w.codes, c)
        grown == {w1.codes[i][1] : i \in {j \in 1..Len(w1.codes) : d(w1.codes[j][1]) > 0}}
    IN [w EXCEPT !.total = @ + n * (w1.total - w.total),
                 !.codes = FoldSet(LAMBDA c, acc : Add(acc, c, n * d(c)), @, grown)]

\* what holds of every run, whatever is registered
Entered(ev) == SelectSeq(ev, LAMBDA e : e.k = "enter")
OnlyOnce(ev) == \A i, j \in 1..Len(ev) : i # j => ev[i].k # ev[j].k \/ ev[i].id # ev[j].id \/ ev[i].k = "handler"
Ordered(ev, mws) == LET ids == [i \in 1..Len(Entered(ev)) |-> Entered(ev)[i].id]
                        all == SelectSeq(mws, LAMBDA m : m.kind # "stat")
                    IN \A i \in 1..Len(ids) : ids[i] = all[i].id
\* leaving is in the reverse order of entering, and the handler runs innermost
Nested(ev) == \A i, j \in 1..Len(ev) : (ev[i].k = "enter" /\ ev[j].k \in {"leave", "caught"} /\ ev[i].id = ev[j].id)
                  => /\ i < j
                     /\ \A k \in 1..Len(ev) : (ev[k].k = "handler" => i < k /\ k < j)
                     /\ \A k, n \in 1..Len(ev) : (ev[k].k = "enter" /\ ev[n].k \in {"leave", "caught"} /\ ev[k].id = ev[n].id /\ i < k) => n < j
=============================================================================
