------------------------------ MODULE PollerMC ------------------------------
(* Design of both pollers over a descriptor table.  A number refers to a
   description until it is closed; the kernel's epoll set is keyed by both and
   forgets closed descriptions by itself, EPollPoller's own record does not.
   epoll_wait hands out at most as many events as its buffer holds, from a ready
   list that rotates; the buffer doubles whenever it was full.
   Domain: before the next poll a number that was closed has been removed, or set
   again after reuse.                                                          *)
EXTENDS Poller, TLC, Json
CONSTANTS Nums, MaxDesc, MaxOps, Buf0, Record
VARIABLES tab,      \* number -> description (0: closed)
          ready,    \* description -> what it is ready for
          used,     \* descriptions handed out so far
          want,     \* the user's view: number -> <<description, interest>>
          ereg,     \* EPollPoller: numbers it believes to be registered
          kern,     \* the kernel: number -> <<description, interest>>
          list,     \* the kernel's ready list (numbers, in the order in which they are handed out)
          buf,      \* size of the event buffer
          preg,     \* PollPoller: number -> interest
          outE, outP, polled, missed, n, h
vars == <<tab, ready, used, want, ereg, kern, list, buf, preg, outE, outP, polled, missed, n, h>>
Ints == {{1}, {2}, {1, 2}, {}}
Readies == {{}, {1}, {2}, {1, 2}, {1, 2, 4}, {1, 2, 4, 8}, {8}}
None == <<>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Note(op) == h' = IF Record THEN Append(h, op) ELSE h

Init == /\ tab = [k \in Nums |-> k] /\ ready = [k \in Nums |-> {}] /\ used = Cardinality(Nums) /\ want = <<>> /\ ereg = {} /\ kern = <<>> /\ list = <<>>
        /\ buf = Buf0 /\ preg = <<>> /\ outE = None /\ outP = None /\ polled = FALSE /\ missed = [k \in Nums |-> 0] /\ n = 0 /\ h = <<>>

Lowest == CHOOSE k \in Nums : tab[k] = 0 /\ \A j \in Nums : tab[j] = 0 => k <= j
Quiet == outE' = None /\ outP' = None /\ polled' = FALSE

Open == /\ \E k \in Nums : tab[k] = 0
        /\ used < MaxDesc /\ used' = used + 1
        /\ tab' = [tab EXCEPT ![Lowest] = used + 1] /\ ready' = Append(ready, {}) /\ Note(<<"open">>)
        /\ Quiet /\ UNCHANGED <<want, ereg, kern, list, buf, preg, missed>>
CloseIt(k) == /\ tab[k] # 0 /\ tab' = [tab EXCEPT ![k] = 0]
              /\ kern' = Del(kern, k) /\ list' = SelectSeq(list, LAMBDA x : x # k)
              /\ Note(<<"close", k>>) /\ Quiet /\ UNCHANGED <<ready, used, want, ereg, buf, preg, missed>>
Change(k, r) == /\ tab[k] # 0 /\ ready[tab[k]] # r /\ ready' = [ready EXCEPT ![tab[k]] = r]
                /\ Note(<<"ready", k, r>>) /\ Quiet /\ UNCHANGED <<tab, used, want, ereg, kern, list, buf, preg, missed>>
\* EPollPoller::set: MOD if it believes the number registered, ADD otherwise; MOD of an unknown number becomes ADD
Set(k, m) == /\ tab[k] # 0
             /\ want' = Put(want, k, <<tab[k], m>>) /\ preg' = Put(preg, k, m)
             /\ ereg' = ereg \cup {k} /\ kern' = Put(kern, k, <<tab[k], m>>)
             /\ Note(<<"set", k, m>>) /\ Quiet /\ UNCHANGED <<tab, ready, used, list, buf, missed>>
Remove(k) == /\ (k \in DOMAIN want \/ tab[k] # 0)
             /\ want' = Del(want, k) /\ preg' = Del(preg, k) /\ ereg' = ereg \ {k} /\ kern' = Del(kern, k)
             /\ list' = SelectSeq(list, LAMBDA x : x # k)
             /\ missed' = [missed EXCEPT ![k] = 0]
             /\ Note(<<"rm", k>>) /\ Quiet /\ UNCHANGED <<tab, ready, used, buf>>

Regular == \A k \in DOMAIN want : tab[k] # 0 /\ tab[k] = want[k][1]
\* the ready list: those already on it first, then the others
KReady == {k \in DOMAIN kern : Due(kern[k][2], ready[kern[k][1]]) # {}}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE x \in S : \A y \in S : x <= y IN <<k>> \o Ascending(S \ {k})
Range(q) == {q[i] : i \in 1..Len(q)}
Poll == /\ Regular
        /\ LET l2 == SelectSeq(list, LAMBDA x : x \in KReady) \o Ascending(KReady \ Range(list))
               m == IF Len(l2) < buf THEN Len(l2) ELSE buf
               told == {l2[i] : i \in 1..m}
           IN /\ outE' = [k \in told |-> Due(kern[k][2], ready[kern[k][1]])]
              /\ list' = SubSeq(l2, m + 1, Len(l2)) \o SubSeq(l2, 1, m)
              /\ buf' = IF m = buf THEN 2 * buf ELSE buf
              /\ missed' = [k \in Nums |-> IF k \in KReady /\ k \notin told THEN missed[k] + 1 ELSE 0]
        /\ LET rev == [k \in DOMAIN preg |-> Due(preg[k], ready[tab[k]])]
           IN outP' = [k \in {x \in DOMAIN rev : rev[x] # {}} |-> rev[k]]
        /\ polled' = TRUE /\ Note(<<"poll">>) /\ UNCHANGED <<tab, ready, used, want, ereg, kern, preg>>

Op == Open \/ (\E k \in Nums : CloseIt(k) \/ Remove(k) \/ (\E r \in Readies : Change(k, r)) \/ (\E m \in Ints : Set(k, m))) \/ Poll
Next == n < MaxOps /\ n' = n + 1 /\ Op
Finish == Record /\ n = MaxOps /\ n' = MaxOps + 1 /\ PrintT("BEH " \o ToJson(h)) /\ UNCHANGED <<tab, ready, used, want, ereg, kern, list, buf, preg, outE, outP, polled, missed, h>>
Spec == Init /\ [][Next \/ Finish]_vars

\* what is owed: every registered descriptor that is ready for what it is registered for
Owed == [k \in {x \in DOMAIN want : Due(want[x][2], ready[want[x][1]]) # {}} |-> Due(want[k][2], ready[want[k][1]])]
PollExact == polled => outP = Owed
EPollTrue == polled => \A k \in DOMAIN outE : k \in DOMAIN Owed /\ outE[k] = Owed[k]
EPollSome == polled /\ outE = None => Owed = None
InFull == \A k \in Nums : missed[k] <= 2
SameView == Regular => DOMAIN kern = DOMAIN want /\ DOMAIN preg = DOMAIN want
=============================================================================
