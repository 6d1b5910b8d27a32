----------------------------- MODULE HpackTrace -----------------------------
(* Trace validation of the header compression code.  Each trace is a history
   on one decoder / one table; every event carries what the code was given and
   what it answered, and is accepted iff the operators of Hpack give the same.

   Verdicts are printed, one per trace (module Verdict). *)
EXTENDS Hpack, Verdict, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, T
vars == <<t, l, T>>

STRLIM == 4096
ULIM == 65536

Ev == Traces[t].ev[l]
\* duplicates allowed: first match positions, 0-based, -1 when absent
First(S, Test(_)) == LET idx == {i \in 1..Len(S) : Test(S[i])}
                     IN IF idx = {} THEN -1 ELSE (CHOOSE i \in idx : \A j \in idx : i <= j) - 1

(* what the specification requires of event e in table state X:
   [ok, why, T] *)
Good(X) == [ok |-> TRUE, why |-> "", T |-> X]
Bad(X, why) == [ok |-> FALSE, why |-> why, T |-> X]

JudgeDec(e, X) ==
    LET r == DecBlock(e.bytes, X, STRLIM, ULIM)
    IN IF e.res = "crash" THEN Bad(X, "the decoder crashed")
       ELSE IF e.res = "ok"
       THEN IF ~r.ok THEN Bad(X, "accepted a malformed block: " \o r.why)
            ELSE IF r.hdrs # e.hdrs THEN Bad(X, "decoded to other headers")
            ELSE Good(r.T)
       ELSE IF r.ok THEN Bad(X, "rejected a valid block") ELSE Good(X)

JudgeInt(e, X) ==    \* decode of an integer, with the rest of the input behind it
    LET r == DecInt(e.bytes, 1, e.prefix)
    IN IF e.res = "ok"
       THEN IF ~r.ok THEN Bad(X, "decoded a malformed integer")
            ELSE IF e.val # r.val THEN Bad(X, "decoded to another value")
            ELSE IF e.used # r.next - 1 THEN Bad(X, "consumed the wrong number of octets")
            ELSE Good(X)
       ELSE IF e.res = "err" THEN IF r.ok /\ r.octets <= 5 THEN Bad(X, "rejected a valid integer") ELSE Good(X)
       ELSE Bad(X, "crashed")

JudgeIntEnc(e, X) == IF e.res = "ok" /\ e.bytes = EncInt(e.val, e.prefix) THEN Good(X)
                     ELSE Bad(X, "integer not encoded canonically")

JudgeHuffDec(e, X) ==
    LET r == HuffDecode(e.bytes)
    IN IF e.res = "ok" THEN IF ~r.ok THEN Bad(X, "accepted invalid Huffman data")
                            ELSE IF r.val # e.val THEN Bad(X, "Huffman data decoded to another string")
                            ELSE Good(X)
       ELSE IF e.res = "err" THEN IF r.ok THEN Bad(X, "rejected valid Huffman data") ELSE Good(X)
       ELSE Bad(X, "crashed")

\* the encoder may choose Huffman or plain: whatever it emits has to decode to the string
JudgeStr(e, X) ==
    LET r == DecBlock(e.bytes, NewTable(4096), 16777216, 0)
    IN IF e.res = "ok" /\ r.ok /\ r.hdrs = <<<<e.name, e.val>>>> THEN Good(X)
       ELSE Bad(X, "emitted string does not decode to what was encoded")

\* a header block emitted by the server, read by a client with a table of 4096 octets
JudgeEnc(e, X) ==
    LET r == StrictBlock(e.bytes, X, 4096, 4096)
    IN IF e.res # "ok" THEN Bad(X, "the encoder crashed")
       ELSE IF ~r.ok THEN Bad(X, "emitted a block that does not decode: " \o r.why)
       ELSE IF r.hdrs # e.hdrs THEN Bad(X, "emitted block decodes to other headers")
       ELSE Good(r.T)

JudgeTab(e, X) ==
    LET Y == CASE e.op = "new" -> NewTable(e.max)
               [] e.op = "ins" -> Insert(X, <<e.name, e.val>>)
               [] e.op = "max" -> Resize(X, e.max)
               [] OTHER -> X
    IN IF e.res # "ok" THEN Bad(X, "crashed")
       ELSE IF e.count # Len(Y.ents) THEN Bad(X, "count is wrong")
       ELSE IF e.size # Y.size THEN Bad(X, "size is wrong")
       ELSE IF e.ents # Y.ents THEN Bad(X, "content is wrong")
       ELSE IF e.find # First(Y.ents, LAMBDA x : x = <<e.qname, e.qval>>) THEN Bad(X, "find is wrong")
       ELSE IF e.findname # First(Y.ents, LAMBDA x : x[1] = e.qname) THEN Bad(X, "find by name is wrong")
       ELSE Good(Y)

Judge(e, X) == CASE e.op = "dec" -> JudgeDec(e, X)
                 [] e.op = "int" -> JudgeInt(e, X)
                 [] e.op = "intenc" -> JudgeIntEnc(e, X)
                 [] e.op = "huff" -> JudgeHuffDec(e, X)
                 [] e.op = "str" -> JudgeStr(e, X)
                 [] e.op = "enc" -> JudgeEnc(e, X)
                 [] e.op = "table" -> Good(NewTable(e.max))
                 [] OTHER -> JudgeTab(e, X)

Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ T = NewTable(65536)

Step == /\ l > 0 /\ l <= Len(Traces[t].ev)
        /\ LET j == Judge(Ev, T)
           IN IF j.ok
              THEN /\ l' = l + 1
                   /\ T' = j.T
              ELSE /\ Reject(Traces[t].id, l, j.why)
                   /\ l' = 0
                   /\ T' = T
        /\ t' = t
Done == /\ l = Len(Traces[t].ev) + 1
        /\ Accept(Traces[t].id)
        /\ l' = -1
        /\ UNCHANGED <<t, T>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
TableBounded == TableOK(T)
=============================================================================
