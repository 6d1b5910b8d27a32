------------------------------- MODULE TcpMC -------------------------------
(* The transport's contract explored with a small socket: what its user is told
   always lets both sides agree on what was transferred. *)
EXTENDS Tcp, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Cap, Record
VARIABLES s, sent, read, taken, recv, peereof, rep, n, op, h
vars == <<s, sent, read, taken, recv, peereof, rep, n, op, h>>
Faults == {None, Fault("again", 0), Fault("err", 0), Fault("short", 1)}
Init == s = T0 /\ sent = 0 /\ read = 0 /\ taken = 0 /\ recv = 0 /\ peereof = FALSE /\ rep = "none" /\ n = 0 /\ op = <<"init">> /\ h = <<>>
Op(o) == n < MaxOps /\ n' = n + 1 /\ op' = o /\ h' = IF Record THEN Append(h, o) ELSE h
Live == ~s.gone
Read(m, f) == /\ Live /\ Op(<<"read", m, f>>)
              /\ \E res \in {"data", "want", "closed", "fail"}, k \in 0..m :
                    /\ (res # "data" => k = 0) /\ MayRead(s, m, f, res, k)
                    /\ (f.f = "short" => k <= f.k)
                    /\ s' = AfterRead(s, res, k) /\ read' = read + k /\ rep' = res
              /\ UNCHANGED <<sent, taken, recv, peereof>>
Write(m, f) == /\ Live /\ Op(<<"write", m, f>>)
               /\ \E res \in {"data", "want", "fail"}, k \in 0..m :
                     /\ (res # "data" => k = 0) /\ MayWrite(s, m, f, s.out < Cap, res, k)
                     /\ (s.pgone \/ s.out + k <= Cap)
                     /\ s' = AfterWrite(s, res, k) /\ taken' = taken + k /\ rep' = "none"
               /\ UNCHANGED <<sent, read, recv, peereof>>
Shutdown == Live /\ ~s.mysh /\ Op(<<"shutdown">>) /\ s' = Shut(s) /\ rep' = "none" /\ UNCHANGED <<sent, read, taken, recv, peereof>>
End == Live /\ Op(<<"destroy">>) /\ s' = Destroy(s, s.in > 0) /\ rep' = "none" /\ UNCHANGED <<sent, read, taken, recv, peereof>>
PSend(k) == ~s.pgone /\ ~s.fin /\ s.in + k <= Cap /\ Live /\ Op(<<"psend", k>>) /\ s' = PeerSend(s, k) /\ sent' = sent + k /\ rep' = "none" /\ UNCHANGED <<read, taken, recv, peereof>>
PShut == ~s.pgone /\ ~s.fin /\ Op(<<"pshut">>) /\ s' = PeerShut(s) /\ rep' = "none" /\ UNCHANGED <<sent, read, taken, recv, peereof>>
PClose(rst) == ~s.pgone /\ Op(<<IF rst THEN "prst" ELSE "pclose">>) /\ s' = PeerClose(s, rst \/ s.out > 0) /\ rep' = "none" /\ UNCHANGED <<sent, read, taken, recv, peereof>>
PRead == ~s.pgone /\ Op(<<"pread">>)
         /\ \E k \in 0..Cap, end \in {"eof", "again", "err"} :
               MayReceive(s, k, end) /\ s' = AfterReceive(s, k) /\ recv' = recv + k /\ peereof' = (peereof \/ end = "eof")
         /\ rep' = "none" /\ UNCHANGED <<sent, read, taken>>
Next == \/ \E m \in {1, 3}, f \in Faults : Read(m, f) \/ Write(m, f)
        \/ Shutdown \/ End \/ PShut \/ PRead \/ \E k \in {1, 2} : PSend(k)
        \/ \E r \in BOOLEAN : PClose(r)
Finish == Record /\ n = MaxOps /\ n' = n + 1 /\ PrintT("BEH " \o ToJson(h)) /\ UNCHANGED <<s, sent, read, taken, recv, peereof, rep, op, h>>
Spec == Init /\ [][Next \/ Finish]_vars
\* octets are conserved
Conserved == read + s.in = sent /\ (s.pgone \/ s.rst \/ recv + s.out = taken)
\* end of stream is only reported when the stream has ended and all of it has been read
TrueEnd == rep = "closed" => (s.fin \/ s.rst) /\ (s.rst \/ read = sent)
\* the user is never told to wait for something that is there already
TrueWant == [][(rep' = "want" /\ op'[1] = "read" /\ op'[3].f = "none") => s.in = 0 /\ ~s.fin /\ ~s.rst]_vars
\* a peer that saw the end has got everything
Complete == peereof => s.rst \/ recv = taken
Inv == Conserved /\ TrueEnd /\ Complete
=============================================================================
