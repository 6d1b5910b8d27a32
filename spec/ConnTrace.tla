----------------------------- MODULE ConnTrace -----------------------------
(* Trace validation of one connection over a scripted transport.  Events:
     hs res | rd bytes | rblock | eof | rerr kind | wr offered accepted frames tail
     wblock | werr | wchanged | call route m p hdrs | log line | close | ret res avail
     fin out ref                                                            *)
EXTENDS ConnJudge, Verdict, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, c, x
vars == <<t, l, c, x>>

Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ c = NewConn /\ x = X0
Step == /\ l > 0 /\ l <= Len(Traces[t].ev)
        /\ LET j == Judge(c, x, Traces[t].ev[l], Traces[t].cfg)
           IN IF j.ok THEN l' = l + 1 /\ c' = j.c /\ x' = j.x
              ELSE Reject(Traces[t].id, l, j.why) /\ l' = 0 /\ UNCHANGED <<c, x>>
        /\ t' = t
Done == /\ l = Len(Traces[t].ev) + 1 /\ Accept(Traces[t].id) /\ l' = -1 /\ UNCHANGED <<t, c, x>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
\* sanity of the specification's own state
TypeOK == TableOK(c.D) /\ TableOK(c.T) /\ c.nc <= Len(c.calls) /\ Len(c.in) < 24 + 9 + MaxFrame + 65536
=============================================================================
