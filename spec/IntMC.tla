------------------------------- MODULE IntMC -------------------------------
(* The integer code of Hpack.tla on its own: every value of a range, every
   prefix, is encoded and decoded back, every truncation is refused, and no two
   values share an encoding. *)
EXTENDS Hpack, TLC
CONSTANTS Top
Edges == UNION {{Pow2(k) - 1, Pow2(k), Pow2(k) + 1} : k \in 1..15}
Limbs(S) == {<<0, v>> : v \in S} \cup {<<h, l>> : h \in {1, 255, 256, 32767, 32768, 65535}, l \in Edges \cup {0, 65535}}
VARIABLES v, p
Init == p \in 1..8 /\ v \in {<<n \div 65536, n % 65536>> : n \in 0..Top} \cup Limbs(Edges)
Next == UNCHANGED <<v, p>>
Spec == Init /\ [][Next]_<<v, p>>
E == EncInt(v, p)
RoundTrip == LET r == DecInt(E \o <<200>>, 1, p) IN r.ok /\ r.val = v /\ r.next = Len(E) + 1
Truncated == \A k \in 0..(Len(E) - 1) : ~DecInt(SubSeq(E, 1, k), 1, p).ok
Shortest == Len(E) <= 6 /\ (Len(E) > 1 => E[1] = Pow2(p) - 1) /\ (Len(E) > 2 => E[Len(E)] # 0)
=============================================================================
