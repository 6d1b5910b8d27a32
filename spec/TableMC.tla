------------------------------ MODULE TableMC ------------------------------
(* The dynamic table as a state machine, all histories up to Depth operations,
   over entries below, at and above the maximum sizes.  Checked: the invariants
   of a bounded FIFO; every history is printed and replayed in the real table. *)
EXTENDS Hpack, TLC, Json
CONSTANTS Depth
VARIABLES T, hist, log    \* log: all entries ever inserted since the table was last emptied by a size change, newest first
vars == <<T, hist, log>>
A == <<97>>
AB == <<97, 98>>
V4 == <<118, 118, 118, 118>>
Entries == {<<A, <<>>>>, <<A, A>>, <<AB, V4>>, <<A, V4 \o V4>>}   \* 33, 34, 38, 41 octets
Maxes == {0, 33, 67, 72, 110}
Q(n) == CASE n % 3 = 0 -> <<A, A>> [] n % 3 = 1 -> <<A, <<>>>> [] OTHER -> <<AB, V4>>
Rec(r) == [op |-> r[1], max |-> r[2], name |-> r[3], val |-> r[4], qname |-> Q(Len(hist))[1], qval |-> Q(Len(hist))[2]]

Init == \E m \in {33, 72, 110} : /\ T = NewTable(m)
                                 /\ hist = <<[op |-> "new", max |-> m, name |-> <<>>, val |-> <<>>, qname |-> A, qval |-> <<>>]>>
                                 /\ log = <<>>
Ins(e) == /\ T' = Insert(T, e) /\ hist' = Append(hist, Rec(<<"ins", 0, e[1], e[2]>>)) /\ log' = <<e>> \o log
SetMax(m) == /\ T' = Resize(T, m) /\ hist' = Append(hist, Rec(<<"max", m, <<>>, <<>>>>)) /\ log' = log
Next == /\ Len(hist) <= Depth
        /\ (\E e \in Entries : Ins(e)) \/ (\E m \in Maxes : SetMax(m))
        /\ IF Len(hist') = Depth + 1 THEN PrintT("BEH " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
Bounded == TableOK(T)
\* the content is always the newest entries
Newest == \E k \in 0..Len(log) : T.ents = SubSeq(log, 1, k)
\* nothing is dropped without need: directly after an insertion the next older entry would not fit
Maximal == LET k == Len(T.ents) IN
           hist[Len(hist)].op = "ins" /\ k < Len(log) /\ k > 0 =>
              \/ SizeOf(SubSeq(log, 1, k + 1)) > T.max
              \/ \E j \in 1..Len(hist) : hist[j].op = "max"
              \/ \E j \in 1..Len(log) : EntrySize(log[j]) > T.max
=============================================================================
