------------------------------ MODULE TcpTrace ------------------------------
(* Judges what TcpTransport did on a real socket.  Events:
     open | psend k | pshut | pclose rst | pread k ok end | shutdown | move ok | hs res
     read n res k ok clean f av | write n res k wr f | destroy open unread
   f: the fault given to the next system call of that direction; av: octets
  the kernel had for the reader just before (others may be in flight)        *)
EXTENDS Tcp, Verdict, Sequences, Integers, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s
vars == <<t, l, s>>
Yes(x) == [ok |-> TRUE, why |-> "", s |-> x]
Nope(why) == [ok |-> FALSE, why |-> why, s |-> s]
Judge(e) ==
    CASE e.op = "open" -> Yes(T0)
      [] e.op = "psend" -> Yes(PeerSend(s, e.k))
      [] e.op = "pshut" -> Yes(PeerShut(s))
      [] e.op = "pclose" -> Yes(PeerClose(s, e.rst))
      [] e.op = "read" ->
            IF ~e.ok THEN Nope("read other octets than the peer sent")
            ELSE IF ~e.clean THEN Nope("wrote outside the octets it reported")
            ELSE IF e.res = "data" /\ (e.k < 1 \/ e.k > e.n) THEN Nope("read reports an impossible count")
            ELSE IF e.av = 0 /\ s.in > 0 /\ e.res = "want" THEN Yes(s)
            ELSE IF ~MayRead(s, e.n, e.f, e.res, e.k) THEN Nope("read reports " \o e.res)
            ELSE Yes(AfterRead(s, e.res, e.k))
      [] e.op = "write" ->
            IF e.res = "data" /\ (e.k < 1 \/ e.k > e.n) THEN Nope("write reports an impossible count")
            ELSE IF ~MayWrite(s, e.n, e.f, e.wr, e.res, e.k) THEN Nope("write reports " \o e.res)
            ELSE Yes(AfterWrite(s, e.res, e.k))
      [] e.op = "shutdown" -> Yes(Shut(s))
      [] e.op = "pread" ->
            IF ~e.ok /\ ~s.rst THEN Nope("the peer received other octets than were written")
            ELSE IF ~MayReceive(s, e.k, e.end) THEN Nope("the peer did not receive what was written, then end of stream")
            ELSE Yes(AfterReceive(s, e.k))
      [] e.op = "move" -> IF e.ok THEN Yes(s) ELSE Nope("moving a transport closed or leaked its socket")
      [] e.op = "hs" -> IF e.res = "done" THEN Yes(s) ELSE Nope("no handshake is needed")
      [] e.op = "destroy" -> IF e.open THEN Nope("the socket outlives its transport") ELSE Yes(Destroy(s, e.unread))
      [] OTHER -> Nope("unexpected event " \o e.op)
Init == t \in 1..Len(Traces) /\ l = 1 /\ s = T0
Step == /\ l > 0 /\ l <= Len(Traces[t].ev)
        /\ LET j == Judge(Traces[t].ev[l])
           IN IF j.ok THEN l' = l + 1 /\ s' = j.s ELSE Reject(Traces[t].id, l, j.why) /\ l' = 0 /\ UNCHANGED s
        /\ t' = t
Done == /\ l = Len(Traces[t].ev) + 1 /\ Accept(Traces[t].id) /\ l' = -1 /\ UNCHANGED <<t, s>>
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
