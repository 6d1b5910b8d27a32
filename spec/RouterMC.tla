------------------------------ MODULE RouterMC ------------------------------
(* Histories of registrations, lookups and calls over a small vocabulary: checks what
   Router.tla says about them and prints them for replay.                        *)
EXTENDS Router, Json
CONSTANTS MaxOps, Record
Paths == {<<47,97>>, <<47,98>>, <<47,115,47,102>>}          \* /a /b /s/f
StatusPath == <<47,95,105,111,110,47,115,116,97,116,117,115>>
Methods == {GET, HEAD, <<80,79,83,84>>}
Kinds == {"pass", "tag", "short", "throwb", "throwa", "catch", "status"}
Prefixset == {<<47,115>>, <<47>>, <<47,115,47>>}

VARIABLES w, slots, hist, last, done
vars == <<w, slots, hist, last, done>>
Cnt(op) == Len(SelectSeq(hist, LAMBDA e : e.op = op))
Log(e) == hist' = Append(hist, e)
Nil == [r |-> <<>>, h |-> <<>>]
Init == w = NewWorld /\ slots = <<>> /\ hist = <<>> /\ last = Nil /\ done = FALSE

Route == \E p \in Paths, m \in {GET, <<80,79,83,84>>, HEAD}, thr \in {0, 1} :
            LET r == [k |-> "route", m |-> m, p |-> p, id |-> Cnt("route") + 1, status |-> IF thr = 0 THEN 200 + Cnt("route") ELSE 0, thr |-> thr]
            IN /\ w' = AddRoute(w, r) /\ Log([op |-> "route", m |-> m, p |-> p, id |-> r.id, status |-> r.status, thr |-> thr]) /\ UNCHANGED <<slots, last>>
Static == \E x \in Prefixset : w' = AddStatic(w, [prefix |-> x, root |-> <<>>]) /\ Log([op |-> "static", prefix |-> x, n |-> Cnt("static") + 1]) /\ UNCHANGED <<slots, last>>
Mw == \E k \in Kinds : LET m == [id |-> Cnt("mw") + 1, kind |-> k, n |-> 500 + Cnt("mw")]
                       IN w' = AddMw(w, m) /\ Log([op |-> "mw", id |-> m.id, kind |-> k, n |-> m.n]) /\ UNCHANGED <<slots, last>>
Page == /\ Cnt("page") = 0
        /\ w' = AddRoute(AddMw(w, [id |-> 0, kind |-> "stat", n |-> 0]), [k |-> "page", m |-> GET, p |-> StatusPath, id |-> 0, status |-> 200, thr |-> 0])
        /\ Log([op |-> "page"]) /\ UNCHANGED <<slots, last>>
Get == \E p \in Paths \cup {StatusPath}, m \in Methods, s \in 1..2 :
            /\ slots' = (s :> Lookup(w, m, p)) @@ slots /\ Log([op |-> "get", slot |-> s, m |-> m, p |-> p]) /\ UNCHANGED <<w, last>>
DoCall == \E s \in DOMAIN slots : LET r == Call(w, slots[s], 404)
                                  IN w' = r.w /\ last' = [r |-> <<r>>, h |-> <<slots[s]>>] /\ Log([op |-> "call", slot |-> s]) /\ UNCHANGED slots
Op == ~done /\ Len(hist) < MaxOps /\ (Route \/ Static \/ Mw \/ Page \/ Get \/ DoCall) /\ UNCHANGED done
Emit == Record /\ ~done /\ Len(hist) = MaxOps /\ done' = TRUE /\ PrintT("BEH " \o ToJson(hist)) /\ UNCHANGED <<w, slots, hist, last>>
Next == Op \/ Emit
Spec == Init /\ [][Next]_vars

\* C16
Wrapped == last.r = <<>> \/ LET e == last.r[1].ev IN OnlyOnce(e) /\ Ordered(e, last.h[1].mws) /\ Nested(e)
\* without a middleware that cuts it short every one of them runs
AllRun == (last.r # <<>> /\ \A i \in 1..Len(last.h[1].mws) : last.h[1].mws[i].kind \notin {"short", "throwb"})
             => Len(Entered(last.r[1].ev)) = Cardinality({i \in 1..Len(last.h[1].mws) : last.h[1].mws[i].kind # "stat"})
\* C15: a lookup does not change, and exact routes come first
RouteFirst == \A s \in DOMAIN slots : slots[s].t.k = "static" =>
                  ~\E i \in 1..Len(hist) : /\ hist[i].op = "route" /\ hist[i].m = (IF slots[s].t.head THEN HEAD ELSE GET) /\ hist[i].p = slots[s].t.p
                                           /\ \E j \in (i + 1)..Len(hist) : /\ hist[j].op = "get" /\ hist[j].slot = s
                                                                            /\ \A k \in (j + 1)..Len(hist) : hist[k].op # "get" \/ hist[k].slot # s
\* C20
RECURSIVE Sum(_)
Sum(c) == IF c = <<>> THEN 0 ELSE c[1][2] + Sum(Tail(c))
Counted == Sum(w.codes) = w.total
=============================================================================
