------------------------------ MODULE OwnTrace ------------------------------
(* Judges which descriptors real objects keep open.  Events:
     obj i fd | mv a b | as a b | cl a | del a       then open, lost, has (pairs <<i, fd>> where visible)
   lost: descriptors of nobody under test that were closed nevertheless.
   And TcpListener:  listen nb | conn i ip | acc who ip nb | none | ip want got *)
EXTENDS Own, Verdict, Integers, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, w, q
vars == <<t, l, w, q>>
Range(s) == {s[i] : i \in 1..Len(s)}
Yes(x, y) == [ok |-> TRUE, why |-> "", w |-> x, q |-> y]
Nope(why) == [ok |-> FALSE, why |-> why, w |-> w, q |-> q]
Own(e, x) == IF e.lost # <<>> THEN Nope("closed a descriptor it does not own")
             ELSE IF x.open \ Range(e.open) # {} THEN Nope("closed a descriptor that has an owner")
             ELSE IF Range(e.open) \ x.open # {} THEN Nope("left a descriptor open that has no owner")
             ELSE IF \E i \in 1..Len(e.has) : (IF Has(x, e.has[i][1]) = 0 THEN e.has[i][2] >= 0 ELSE e.has[i][2] # Has(x, e.has[i][1])) THEN Nope("holds another descriptor")
             ELSE Yes(x, q)
Judge(e) ==
    CASE e.op = "obj" -> Own(e, Make(w, e.a, e.fd))
      [] e.op = "mv" -> Own(e, MoveTo(w, e.a, e.b))
      [] e.op = "as" -> Own(e, Assign(w, e.a, e.b))
      [] e.op = "cl" -> Own(e, Close(w, e.a))
      [] e.op = "del" -> Own(e, Drop(w, e.a))
      [] e.op = "listen" -> IF e.nb THEN Yes(w, q) ELSE Nope("the listener blocks")
      [] e.op = "conn" -> Yes(w, Append(q, <<e.i, e.ip>>))
      [] e.op = "none" -> IF q = <<>> THEN Yes(w, q) ELSE Nope("a waiting client was not accepted")
      [] e.op = "acc" -> IF q = <<>> THEN Nope("accepted a client that is not there")
                         ELSE IF e.who # Head(q)[1] THEN Nope("accepted clients out of order")
                         ELSE IF e.ip # Head(q)[2] THEN Nope("wrong client address")
                         ELSE IF ~e.nb THEN Nope("the accepted socket blocks")
                         ELSE Yes(w, Tail(q))
      [] e.op = "ip" -> IF e.got = e.want THEN Yes(w, q) ELSE Nope("wrong client address")
      [] OTHER -> Nope("unexpected event " \o e.op)
Init == t \in 1..Len(Traces) /\ l = 1 /\ w = O0 /\ q = <<>>
Step == /\ l > 0 /\ l <= Len(Traces[t].ev)
        /\ LET j == Judge(Traces[t].ev[l])
           IN IF j.ok THEN l' = l + 1 /\ w' = j.w /\ q' = j.q ELSE Reject(Traces[t].id, l, j.why) /\ l' = 0 /\ UNCHANGED <<w, q>>
        /\ t' = t
Done == /\ l = Len(Traces[t].ev) + 1 /\ Accept(Traces[t].id) /\ l' = -1 /\ UNCHANGED <<t, w, q>>
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
