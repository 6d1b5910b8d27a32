---------------------------- MODULE PollerTrace ----------------------------
(* Judges what a real poller reported against the readiness that the kernel
   itself gave for every open descriptor just before and just after.  Events:
     open fd | close fd | set fd mask | rm fd
     poll res ms el sig before after ev   (pairs <<fd, mask>>)                *)
EXTENDS Poller, Verdict, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, want, stale, missed
vars == <<t, l, want, stale, missed>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Look(q) == [k \in {q[i][1] : i \in 1..Len(q)} |-> Bits(q[CHOOSE i \in 1..Len(q) : q[i][1] = k][2])]
Yes(w, s, m) == [ok |-> TRUE, why |-> "", want |-> w, stale |-> s, missed |-> m]
Nope(why) == [ok |-> FALSE, why |-> why, want |-> want, stale |-> stale, missed |-> missed]
N(k, why) == Nope("descriptor " \o ToString(k) \o ": " \o why)

Poll(e) ==
    LET before == Look(e.before)
        after == Look(e.after)
        at(f, k) == IF k \in DOMAIN f THEN Due(want[k], f[k]) ELSE {}
        due == {k \in DOMAIN want : at(before, k) # {} /\ at(after, k) # {}}      \* ready all the while
        told == {e.ev[i][1] : i \in 1..Len(e.ev)}
        rep == Look(e.ev)
        one(S) == CHOOSE k \in S : \A j \in S : k <= j
        stray == told \ DOMAIN want
        over == {k \in told \cap DOMAIN want : ~(rep[k] \subseteq (at(before, k) \cup at(after, k)))}
        under == {k \in told \cap DOMAIN want : ~((at(before, k) \cap at(after, k)) \subseteq rep[k])}
        empty == {k \in told : rep[k] = {}}
        patience == IF Cardinality(due) < 12 THEN Cardinality(due) ELSE 12 + Cardinality(due) \div 16    \* a crowd may be told in turns
        m2 == [k \in due \ told |-> (IF k \in DOMAIN missed THEN missed[k] ELSE 0) + 1]
    IN IF stale # {} THEN Yes(want, stale, <<>>)
       ELSE CASE e.res = "ok" ->
               IF e.ev = <<>> THEN Nope("reported neither events nor a timeout")
               ELSE IF Cardinality(told) # Len(e.ev) THEN Nope("reported a descriptor twice")
               ELSE IF stray # {} THEN N(one(stray), "reported although it is not registered")
               ELSE IF empty # {} THEN N(one(empty), "reported although it is not ready")
               ELSE IF over # {} THEN N(one(over), "reported for more than it is registered or ready for")
               ELSE IF under # {} THEN N(one(under), "reported without all it is ready for")
               ELSE IF \E k \in DOMAIN m2 : m2[k] > patience THEN N(one({k \in DOMAIN m2 : m2[k] > patience}), "is ready but never reported")
               ELSE Yes(want, stale, m2)
            [] e.res = "timeout" ->
               IF due # {} THEN N(one(due), "is ready but the poll timed out")
               ELSE IF e.el + 1 < e.ms THEN Nope("timed out early")
               ELSE IF e.el > e.ms + 5000 THEN Nope("timed out late")
               ELSE IF e.sig /\ e.el + 1000 > e.ms THEN Nope("slept through a signal")
               ELSE Yes(want, stale, <<>>)
            [] e.res = "intr" -> IF e.sig THEN Yes(want, stale, missed) ELSE Nope("reported a signal that was not sent")
            [] OTHER -> Nope("failed")

Judge(e) ==
    CASE e.op = "open" -> Yes(want, stale, missed)
      [] e.op = "close" -> Yes(want, IF e.fd \in DOMAIN want THEN stale \cup {e.fd} ELSE stale, Del(missed, e.fd))
      [] e.op = "set" -> Yes(Put(want, e.fd, Bits(e.mask)), stale \ {e.fd}, missed)
      [] e.op = "rm" -> Yes(Del(want, e.fd), stale \ {e.fd}, Del(missed, e.fd))
      [] e.op = "poll" -> Poll(e)
      [] OTHER -> Yes(want, stale, missed)

Init == t \in 1..Len(Traces) /\ l = 1 /\ want = <<>> /\ stale = {} /\ missed = <<>>
Step == /\ l > 0 /\ l <= Len(Traces[t].ev)
        /\ LET j == Judge(Traces[t].ev[l])
           IN IF j.ok THEN l' = l + 1 /\ want' = j.want /\ stale' = j.stale /\ missed' = j.missed
              ELSE Reject(Traces[t].id, l, j.why) /\ l' = 0 /\ UNCHANGED <<want, stale, missed>>
        /\ t' = t
Done == /\ l = Len(Traces[t].ev) + 1 /\ Accept(Traces[t].id) /\ l' = -1 /\ UNCHANGED <<t, want, stale, missed>>
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
