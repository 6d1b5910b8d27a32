-------------------------------- MODULE Own --------------------------------
(* Objects that own descriptors (SocketFd and the transports) and what happens
   to ownership: holds[o] is the descriptor of object o, 0 if it has none.
   A state also says which descriptors are open and how often each was closed. *)
EXTENDS Naturals, FiniteSets, Sequences
O0 == [holds |-> <<>>, open |-> {}]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Less(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Has(w, o) == IF o \in DOMAIN w.holds THEN w.holds[o] ELSE 0
Shuts(w, o) == w.open \ {Has(w, o)}
Make(w, o, d) == [holds |-> With(w.holds, o, d), open |-> Shuts(w, o) \cup {d}]
MoveTo(w, a, b) == [holds |-> With(With(w.holds, b, Has(w, a)), a, 0), open |-> Shuts(w, b)]     \* b did not exist or is replaced
Assign(w, a, b) == IF a = b THEN w ELSE MoveTo(w, a, b)
Close(w, o) == [holds |-> With(w.holds, o, 0), open |-> Shuts(w, o)]
Drop(w, o) == [holds |-> Less(w.holds, o), open |-> Shuts(w, o)]
\* every open descriptor has exactly one owner
Owned(w) == /\ \A d \in w.open : Cardinality({o \in DOMAIN w.holds : w.holds[o] = d}) = 1
            /\ \A o \in DOMAIN w.holds : w.holds[o] # 0 => w.holds[o] \in w.open
=============================================================================
