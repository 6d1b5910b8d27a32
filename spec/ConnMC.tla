------------------------------- MODULE ConnMC -------------------------------
(* Design model of one connection's process() loop: flush, fill, act, repeat,
   against an environment that delivers frames in pieces, takes output whole, in
   part or not at all, and may fail or close at any call.

   Frames are abstract: P preface, S settings, R / L request with a short / long
   response, N a frame that means nothing, E a connection error, G a client
   GOAWAY.  A frame is two input units; output units are <<frame, k>>, the
   server's GOAWAY is <<0, 0>>.

   Checked for all scripts up to MaxFrames: the properties C07-C13 at this level
   of abstraction.  With Record = TRUE behaviours are printed; they are made
   concrete and replayed in the real connection.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFrames, MaxCalls, Record
VARIABLES script, arr, rd, done, st, wbuf, out, calls, cap, fault, pc, ret, hist, ncalls
vars == <<script, arr, rd, done, st, wbuf, out, calls, cap, fault, pc, ret, hist, ncalls>>

Kinds == {"S", "R", "L", "N", "E", "G"}
Scripts == {<<"P">> \o s : s \in UNION {[1..n -> Kinds] : n \in 0..(MaxFrames - 1)}}
Units(s, i) == CASE s[i] \in {"P", "S", "R"} -> <<<<i, 1>>>>
                 [] s[i] = "L" -> <<<<i, 1>>, <<i, 2>>, <<i, 3>>>>
                 [] OTHER -> <<>>
RECURSIVE UpTo(_, _)
UpTo(s, n) == IF n = 0 THEN <<>> ELSE UpTo(s, n - 1) \o Units(s, n)
\* frames that count: up to the first E or G
Last(s) == LET S == {i \in 1..Len(s) : s[i] \in {"E", "G"}} IN IF S = {} THEN Len(s) ELSE CHOOSE i \in S : \A j \in S : i <= j
Expect(s) == UpTo(s, Last(s)) \o (IF s[Last(s)] = "E" THEN <<<<0, 0>>>> ELSE <<>>)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Min(a, b) == IF a < b THEN a ELSE b

Init == /\ script \in Scripts
        /\ arr = 0 /\ rd = 0 /\ done = 0 /\ st = "pre" /\ wbuf = <<>> /\ out = <<>> /\ calls = <<>>
        /\ cap = 0 /\ fault = "none" /\ pc = "idle" /\ ret = "none" /\ hist = <<>> /\ ncalls = 0

Left == 2 * Len(script) - rd - arr
Call == /\ pc = "idle" /\ ret # "DC" /\ ncalls < MaxCalls
        /\ \E k \in 0..Left, cp \in {0, 1, 99}, f \in {"none", "eof", "rerr", "werr"} :
              /\ (f \in {"rerr", "werr"} => ncalls > 0)
              /\ arr' = arr + k /\ cap' = cp /\ fault' = f
              /\ hist' = IF Record THEN Append(hist, [arrive |-> k, cap |-> cp, fault |-> f]) ELSE hist
        /\ pc' = "flush" /\ ncalls' = ncalls + 1
        /\ UNCHANGED <<script, rd, done, st, wbuf, out, calls, ret>>

Return(r) == ret' = r /\ pc' = "idle"
Flush == /\ pc = "flush"
         /\ IF wbuf = <<>> THEN pc' = "fill" /\ UNCHANGED <<wbuf, st, out, cap, ret>>
            ELSE IF fault = "werr" THEN wbuf' = <<>> /\ st' = "closed" /\ pc' = "fill" /\ UNCHANGED <<out, cap, ret>>
            ELSE LET n == Min(cap, Len(wbuf))
                 IN /\ out' = out \o SubSeq(wbuf, 1, n)
                    /\ wbuf' = SubSeq(wbuf, n + 1, Len(wbuf))
                    /\ cap' = cap - n
                    /\ IF n < Len(wbuf) THEN Return("WW") ELSE pc' = "fill" /\ UNCHANGED ret
                    /\ UNCHANGED st
         /\ UNCHANGED <<script, arr, rd, done, calls, fault, hist, ncalls>>
Fill == /\ pc = "fill"
        /\ rd' = rd + arr /\ arr' = 0
        /\ st' = CASE fault = "eof" -> "closed" [] fault = "rerr" -> "perr" [] OTHER -> st
        /\ pc' = "act"
        /\ UNCHANGED <<script, done, wbuf, out, calls, cap, fault, ret, hist, ncalls>>
Process(i) == /\ done' = i
              /\ wbuf' = wbuf \o Units(script, i)
              /\ calls' = IF script[i] \in {"R", "L"} THEN Append(calls, i) ELSE calls
              /\ st' = CASE script[i] = "E" -> "perr" [] script[i] = "G" -> "closed" [] OTHER -> "open"
              /\ pc' = "flush"
              /\ UNCHANGED <<out, cap, ret>>
Act == /\ pc = "act"
       /\ CASE st \in {"pre", "open"} ->
                 IF done < Len(script) /\ rd >= 2 * (done + 1) THEN Process(done + 1)
                 ELSE Return("WR") /\ UNCHANGED <<done, wbuf, calls, st, out, cap>>
            [] st = "perr" ->
                 LET all == wbuf \o <<<<0, 0>>>>
                     n == IF fault = "werr" THEN 0 ELSE Min(cap, Len(all))
                 IN /\ out' = out \o SubSeq(all, 1, n) /\ wbuf' = <<>> /\ Return("DC") /\ UNCHANGED <<done, calls, st, cap>>
            [] st = "closed" -> Return("DC") /\ UNCHANGED <<done, wbuf, calls, st, out, cap>>
       /\ UNCHANGED <<script, arr, rd, fault, hist, ncalls>>
Emit == /\ Record /\ pc = "idle" /\ (ret = "DC" \/ ncalls = MaxCalls)
        /\ PrintT("BEH " \o ToJson([script |-> script, calls |-> hist])) /\ pc' = "end"
        /\ UNCHANGED <<script, arr, rd, done, st, wbuf, out, calls, cap, fault, ret, hist, ncalls>>
Next == Call \/ Flush \/ Fill \/ Act \/ Emit
Spec == Init /\ [][Next]_vars

(****************************** properties ******************************)
Faulty == fault # "none"
\* C07, C08, C10: what is on the wire is a prefix of the one correct response stream
OutputCorrect == \/ IsPrefix(out, Expect(script))
                 \/ fault = "rerr" /\ IsPrefix(SubSeq(out, 1, Len(out) - 1), Expect(script)) /\ out[Len(out)] = <<0, 0>>
\* C07, C12: nothing is lost or reordered between the frames acted on and the wire
NothingLost == pc \in {"flush", "fill"} /\ st \in {"pre", "open"} => out \o wbuf = UpTo(script, done)
\* C08, C10, C13: handlers run for exactly the requests acted on, in order, none after E or G
CallsExact == calls = SelectSeq([i \in 1..done |-> i], LAMBDA i : script[i] \in {"R", "L"}) /\ done <= Last(script)
\* C12: at most one frame's output is pending
Bounded == Cardinality({wbuf[i][1] : i \in 1..Len(wbuf)}) <= 1
\* C27: waiting for input only with nothing to do
IdleClean == pc = "idle" /\ ret = "WR" => /\ wbuf = <<>>
                                           /\ ~(done < Len(script) /\ rd >= 2 * (done + 1))
                                           /\ st \in {"pre", "open"} /\ arr = 0
IdleBlocked == pc = "idle" /\ ret = "WW" => wbuf # <<>>
\* C10, C13: discarded only for a reason, and then with everything earlier answered
DiscardJustified == ret = "DC" => \/ fault \in {"eof", "rerr", "werr"}
                                  \/ done > 0 /\ script[done] \in {"E", "G"} /\ IsPrefix(UpTo(script, done), out)
\* C13: a fatal event is never waited out (unless output blocks before the server can notice)
Noticed == pc = "idle" /\ fault \in {"eof", "rerr"} /\ ncalls > 0 => ret \in {"DC", "WW"}
\* C12: nothing is read while output is pending
NoReadWhileBlocked == [][rd' > rd => wbuf = <<>>]_vars
=============================================================================
