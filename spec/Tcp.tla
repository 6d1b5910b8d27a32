-------------------------------- MODULE Tcp --------------------------------
(* A transport over a connected stream socket, as seen by its user and by the
   peer.  Octets are numbered, so a stream is a pair of counters.
     in      octets the peer has sent that have not been read
     fin     the peer sends no more          rst   the connection is reset
     told    the reset has been reported     mysh  we send no more
     out     octets taken from us that the peer has not received
     gone    the transport is closed         pgone the peer's socket is closed  *)
EXTENDS Naturals
T0 == [in |-> 0, fin |-> FALSE, rst |-> FALSE, told |-> FALSE, mysh |-> FALSE, out |-> 0, gone |-> FALSE, pgone |-> FALSE]
None == [f |-> "none", k |-> 0]
Fault(f, k) == [f |-> f, k |-> k]
Min(a, b) == IF a < b THEN a ELSE b

\* may read(n) answer with res (data: k octets)?
MayRead(s, n, f, res, k) ==
    LET most == Min(n, IF f.f = "short" THEN Min(f.k, s.in) ELSE s.in)
        data == res = "data" /\ k >= 1 /\ k <= Min(n, s.in)
    IN CASE f.f = "again" -> res = "want"
         [] f.f = "err" -> res = "fail"
         [] f.f = "eof" -> res = "closed"
         [] s.rst -> data \/ res = "fail" \/ (res = "closed" /\ (s.told \/ s.fin))
         [] s.in > 0 -> data
         [] s.fin -> res = "closed"
         [] OTHER -> res = "want"
\* may write(n) answer with res (data: k octets taken)?  writable: the socket was ready for output
MayWrite(s, n, f, writable, res, k) ==
    LET data == res = "data" /\ k >= 1 /\ k <= n
    IN CASE f.f = "again" -> res = "want"
         [] f.f = "err" -> res = "fail"
         [] s.mysh -> res = "fail"
         [] s.rst \/ s.pgone -> res = "fail" \/ data
         [] OTHER -> data \/ (res = "want" /\ ~writable)
AfterRead(s, res, k) == CASE res = "data" -> [s EXCEPT !.in = @ - k] [] res = "fail" -> [s EXCEPT !.told = s.rst] [] OTHER -> s
AfterWrite(s, res, k) == CASE res = "data" -> [s EXCEPT !.out = @ + (IF s.pgone THEN 0 ELSE k), !.rst = @ \/ s.pgone]
                           [] res = "fail" -> [s EXCEPT !.told = s.rst] [] OTHER -> s
Shut(s) == [s EXCEPT !.mysh = TRUE]
Destroy(s, unread) == [s EXCEPT !.gone = TRUE, !.rst = @ \/ unread]
PeerSend(s, k) == [s EXCEPT !.in = @ + k]
PeerShut(s) == [s EXCEPT !.fin = TRUE]
PeerClose(s, rst) == [s EXCEPT !.pgone = TRUE, !.rst = @ \/ rst, !.fin = @ \/ ~rst, !.out = 0]
\* what a peer that reads all it can finds: k octets, then end is eof, err or again
MayReceive(s, k, end) ==
    /\ k <= s.out
    /\ CASE s.rst -> TRUE
         [] end = "eof" -> k = s.out /\ (s.mysh \/ s.gone)
         [] end = "again" -> k = s.out /\ ~(s.mysh \/ s.gone)
         [] end = "some" -> TRUE
         [] OTHER -> FALSE
AfterReceive(s, k) == [s EXCEPT !.out = @ - k]
=============================================================================
