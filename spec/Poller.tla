------------------------------- MODULE Poller -------------------------------
(* What a poller owes its user.  Readiness and interest are sets of
   1 readable, 2 writable, 4 hangup, 8 error. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Bits(m) == {b \in {1, 2, 4, 8} : (m \div b) % 2 = 1}
Always == {4, 8}                      \* reported whether asked for or not
Due(interest, ready) == ready \cap (interest \cup Always)
=============================================================================
