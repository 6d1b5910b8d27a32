------------------------------ MODULE AppTrace ------------------------------
(* Trace validation of the program.  A trace is a history of runs of one binary, one
   after the other, and of what its clients saw:
     start a env busy out port  the command line; out: "done", "fail", "serve" (at port), "crash", "hang"
     req m p ref ua res         a request and the response to it ([st, len, ids, letters, hdrs, page]; st 0: none came)
     loose k log                requests whose answers nobody waits for: at most k of them
     spoil                      a client misbehaved
     signal n | closeout        told to stop | the reader of the standard output went away
     levels S                   the levels of the messages printed in this run
     exit code sig ms           the program ended, ms after it was last given cause
     lines ls at                what the access log has gained in this run, which lasted from and to at
     free ok                    whether the port can be bound again                     *)
EXTENDS App, Verdict, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s
vars == <<t, l, s>>

\* up: running; c: configuration; total, codes: requests so far; slack: how many more there may have been;
\* cause: "no", "may" (it may stop), "must"; lines: log lines owed; nol: how many more there may be
Idle == [up |-> FALSE, c |-> [ok |-> FALSE], total |-> 0, codes |-> <<>>, slack |-> 0, cause |-> "no", lines |-> <<>>, out |-> TRUE]
Yes(s2) == [ok |-> TRUE, why |-> "", s |-> s2]
No(why) == [ok |-> FALSE, why |-> why, s |-> s]

Values(hs, name) == {hs[i][2] : i \in {j \in 1..Len(hs) : hs[j][1] = name}}
CType == <<99,111,110,116,101,110,116,45,116,121,112,101>>
CLen == C!ContentLength
Is(ids, i) == \E k \in 1..Len(ids) : ids[k] = i
SumCodes(cs) == LET RECURSIVE Sum(_) Sum(i) == IF i = 0 THEN 0 ELSE cs[i][2] + Sum(i - 1) IN Sum(Len(cs))
CountOf(cs, k) == LET S == {i \in 1..Len(cs) : cs[i][1] = k} IN IF S = {} THEN 0 ELSE cs[One(S)][2]
AllCodes(cs) == {cs[i][1] : i \in 1..Len(cs)}
\* numbers shown on the status page; the request for it is counted in the total only
PageOK(pg) ==
    /\ pg.total \in (s.total + 1)..(s.total + 1 + s.slack)
    /\ \A k \in AllCodes(pg.codes) \cup AllCodes(s.codes) : CountOf(pg.codes, k) >= CountOf(s.codes, k)
    /\ SumCodes(pg.codes) <= SumCodes(s.codes) + s.slack
Fits(a, r) ==
    /\ r.st = a.status
    /\ a.any \/
       (/\ CASE a.k = "none" -> r.len = 0
             [] a.k = "letters" -> r.len = a.len /\ r.letters
             [] a.k = "file" -> r.len = a.len /\ (a.len = 0 \/ Is(r.ids, a.id))
             [] a.k = "page" -> PageOK(r.page)
        /\ (a.types # {} => \E ty \in a.types : Values(r.hdrs, CType) = {ty})
        /\ IF a.said >= 0 THEN Values(r.hdrs, CLen) = {C!Digits(a.said)} ELSE Values(r.hdrs, CLen) \subseteq {C!Digits(r.len)})

LineOf(e) == [m |-> e.m, p |-> e.p, status |-> e.res.st, len |-> e.res.len, ref |-> e.ref, ua |-> e.ua]
SetOf(q) == {q[i] : i \in 1..Len(q)}
Sets(x) == [x EXCEPT !.m = SetOf(@), !.p = SetOf(@), !.ref = SetOf(@), !.ua = SetOf(@)]
Local == <<49,50,55,46,48,46,48,46,49>>
\* the lines owed, in order, with at most that many others in between
RECURSIVE LinesOK(_, _, _, _, _, _)
LinesOK(ls, i, xs, k, more, at) ==
    IF i > Len(ls) THEN k > Len(xs)
    ELSE IF k <= Len(xs) /\ C!LineOK(ls[i], Local, at, Sets(xs[k])) THEN LinesOK(ls, i + 1, xs, k + 1, more, at)
    ELSE more > 0 /\ LinesOK(ls, i + 1, xs, k, more - 1, at)
LevelAt(v) == CHOOSE i \in 1..7 : Levels[i] = v

Prompt == 10000
Judge(e, x) ==
    CASE e.op = "start" ->
            LET r == Opts(e.a, NoOpts)  c == Config(r, e.env)  S == Starts(x, r, c, e.busy)
            IN IF s.up THEN No("harness: started twice")
               ELSE IF e.out \notin S
                    THEN No(CASE e.out = "serve" -> "serves although it must not start like this"
                              [] e.out = "fail" -> "fails to start although nothing is wrong"
                              [] e.out = "done" -> "succeeds without serving"
                              [] e.out = "hang" -> "neither serves nor exits"
                              [] OTHER -> "does not exit properly")
               ELSE IF e.out = "serve" /\ e.port # c.port THEN No("listens on another port")
               ELSE Yes([Idle EXCEPT !.up = e.out = "serve", !.c = c])
      [] e.op = "req" ->
            LET A == Replies(x, s.c, SetOf(e.m), SetOf(e.p))
            IN IF ~s.up THEN No("harness: request to nobody")
               ELSE IF e.res.st = 0 THEN IF s.cause # "no" THEN Yes([s EXCEPT !.slack = @ + 1]) ELSE No("no answer")
               ELSE IF \E a \in A : Fits(a, e.res)
                    THEN Yes([s EXCEPT !.total = @ + (IF Routed(SetOf(e.m), SetOf(e.p)) THEN 1 ELSE 0),
                                       !.codes = IF Routed(SetOf(e.m), SetOf(e.p)) THEN Bump(@, e.res.st) ELSE @,
                                       !.lines = Append(@, LineOf(e))])
               ELSE IF \A a \in A : a.status # e.res.st THEN No("wrong status")
               ELSE IF \E a \in A : a.k = "page" THEN No("the status page does not tell what happened")
               ELSE No("wrong content or headers")
      [] e.op = "loose" -> Yes([s EXCEPT !.slack = @ + e.k])
      [] e.op = "signal" -> Yes([s EXCEPT !.cause = "must"])
      [] e.op = "closeout" -> Yes([s EXCEPT !.cause = IF @ = "must" THEN @ ELSE "may", !.out = FALSE])
      \* told something after the output broke: it has tried to write
      [] e.op = "wrote" -> Yes(IF ~s.out /\ LevelAt(s.c.level) <= 3 THEN [s EXCEPT !.cause = "must"] ELSE s)
      [] e.op = "exit" ->
            IF s.cause = "no" THEN No("ended although nothing told it to")
            ELSE IF e.sig # 0 THEN No("killed by a signal instead of ending")
            ELSE IF e.code # 0 THEN No("ended with a failure status")
            ELSE IF e.ms > Prompt THEN No("took too long to end")
            ELSE Yes([s EXCEPT !.up = FALSE])
      [] e.op = "running" -> IF s.cause = "must" THEN No("does not end") ELSE IF s.up THEN Yes(s) ELSE No("harness: not running")
      [] e.op = "levels" -> IF \A i \in 1..Len(e.ls) : LevelAt(e.ls[i]) >= LevelAt(s.c.level)
                            THEN IF LevelAt(s.c.level) <= 3 /\ s.out /\ ~\E i \in 1..Len(e.ls) : e.ls[i] = "info" THEN No("prints nothing") ELSE Yes(s)
                            ELSE No("prints messages below the level asked for")
      [] e.op = "lines" ->
            IF ~Logged(x, s.c) THEN IF e.ls = <<>> THEN Yes(s) ELSE No("log lines where no log was asked for")
            ELSE IF LinesOK(e.ls, 1, s.lines, 1, s.slack, e.at) THEN Yes(s)
            ELSE IF Len(e.ls) < Len(s.lines) THEN No("requests missing from the access log")
            ELSE No("access log does not match the requests")
      [] e.op = "free" -> IF e.ok THEN Yes(s) ELSE No("the port is still taken")
      [] OTHER -> Yes(s)

Init == t \in 1..Len(Traces) /\ l = 1 /\ s = Idle
Step == /\ l > 0 /\ l <= Len(Traces[t].ev)
        /\ LET j == Judge(Traces[t].ev[l], Traces[t].cfg)
           IN IF j.ok THEN l' = l + 1 /\ s' = j.s ELSE Reject(Traces[t].id, l, j.why) /\ l' = 0 /\ UNCHANGED s
        /\ t' = t
Done == /\ l = Len(Traces[t].ev) + 1 /\ Accept(Traces[t].id) /\ l' = -1 /\ UNCHANGED <<t, s>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
