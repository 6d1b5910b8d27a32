----------------------------- MODULE StaticHist -----------------------------
(* A file tree that changes while it is served: what a request may get depends on
   the tree as it is when the handler runs, and on nothing that was there before.
   Edits and requests in any order; the histories are replayed in the real code.  *)
EXTENDS StaticFs, TLC, Json
CONSTANTS MaxOps, Record
W == <<119>> P == <<112>> O == <<111>> D == <<100>> L == <<108>>
F == <<97, 46, 116, 120, 116>>                       \* a.txt
Root == <<47,119,47,112>>                             \* /w/p
Prefix == <<47,115>>                                  \* /s
Mime == << [ext |-> <<>>, type |-> <<63>>], [ext |-> <<46,116,120,116>>, type |-> <<84>>] >>
n(p, k, i, t) == [path |-> p, kind |-> k, id |-> i, len |-> IF k = "file" THEN 9 ELSE 0, target |-> t]
R(q) == <<W, P>> \o q
Outside == {1, 2}                                     \* what the files outside hold
Start == << n(<<W>>, "dir", 0, <<>>), n(<<W, P>>, "dir", 0, <<>>), n(<<W, O>>, "dir", 0, <<>>), n(<<W, O, F>>, "file", 1, <<>>), n(<<W, O, D>>, "dir", 0, <<>>),
            n(<<W, O, D, F>>, "file", 2, <<>>), n(R(<<F>>), "file", 3, <<>>), n(R(<<D>>), "dir", 0, <<>>), n(R(<<D, F>>), "file", 4, <<>>), n(R(<<Index>>), "file", 5, <<>>) >>
Spots == {<<F>>, <<D>>, <<D, F>>, <<L>>, <<Index>>}
Out == <<46,46,47,111>>                               \* ../o
Texts == {Out, Out \o <<47>> \o F, <<47,119,47,111,47,100>>, D, F, <<100,47>> \o F, <<46,46,47,112,47,100>>}   \* outside, inside, absolute, through the root's own name
Asked == {<<47>> \o F, <<47,100,47>> \o F, <<47,108>>, <<47,108,47>> \o F, <<>>, <<47,100>>, <<47,100,47,46,46,47>> \o F}

VARIABLES fs, id, hist, done
vars == <<fs, id, hist, done>>
Log(e) == hist' = Append(hist, e)
Init == fs = Start /\ id = 6 /\ hist = <<>> /\ done = FALSE
Parent(p) == SubSeq(p, 1, Len(p) - 1)
CanPut(p) == Node(fs, Parent(p)).kind = "dir"
Write == \E q \in Spots : /\ CanPut(R(q)) /\ fs' = Put(fs, n(R(q), "file", id, <<>>)) /\ id' = id + 1
                          /\ Log([op |-> "put", kind |-> "file", path |-> q, id |-> id, target |-> <<>>])
Mkdir == \E q \in Spots : /\ CanPut(R(q)) /\ fs' = Put(fs, n(R(q), "dir", 0, <<>>)) /\ UNCHANGED id
                          /\ Log([op |-> "put", kind |-> "dir", path |-> q, id |-> 0, target |-> <<>>])
Link == \E q \in Spots, x \in Texts : /\ CanPut(R(q)) /\ fs' = Put(fs, n(R(q), "link", 0, x)) /\ UNCHANGED id
                                      /\ Log([op |-> "put", kind |-> "link", path |-> q, id |-> 0, target |-> x])
Rm == \E q \in Spots : /\ Node(fs, R(q)).kind # "none" /\ fs' = Remove(fs, R(q)) /\ UNCHANGED id
                       /\ Log([op |-> "rm", path |-> q])
Mv == \E a, b \in Spots : /\ a # b /\ Node(fs, R(a)).kind # "none" /\ ~Inside(R(b), R(a)) /\ ~Inside(R(a), R(b)) /\ CanPut(R(b))
                          /\ fs' = Move(fs, R(a), R(b)) /\ UNCHANGED id
                          /\ Log([op |-> "mv", path |-> a, to |-> b])
Get == \E x \in Asked : /\ Log([op |-> "get", path |-> x]) /\ UNCHANGED <<fs, id>>
Op == ~done /\ Len(hist) < MaxOps /\ (Write \/ Mkdir \/ Link \/ Rm \/ Mv \/ Get) /\ UNCHANGED done
Emit == Record /\ ~done /\ Len(hist) = MaxOps /\ done' = TRUE /\ PrintT("BEH " \o ToJson(hist)) /\ UNCHANGED <<fs, id, hist>>
Next == Op \/ Emit
Spec == Init /\ [][Next]_vars
View == <<fs, Len(hist), done>>

A(x) == Answers(fs, Mime, Root, Prefix, Prefix \o x)
\* nothing but what is in the tree now, and inside
Current == \A x \in Asked : \A a \in A(x) : a.id = 0 \/ (\E i \in 1..Len(fs) : fs[i].id = a.id /\ Inside(fs[i].path, <<W, P>>))
NeverOutside == \A x \in Asked : \A a \in A(x) : a.id \notin Outside
\* a plain file at its own place is served
Served == \A q \in {<<F>>, <<D, F>>} : (Node(fs, R(q)).kind = "file" /\ (Len(q) = 2 => Node(fs, R(<<D>>)).kind = "dir"))
              => \A a \in A(IF Len(q) = 1 THEN <<47>> \o F ELSE <<47,100,47>> \o F) : a.id = Node(fs, R(q)).id
OneNode == \A i, j \in 1..Len(fs) : fs[i].path = fs[j].path => i = j
NoOrphans == \A i \in 1..Len(fs) : Len(fs[i].path) > 1 => Node(fs, Parent(fs[i].path)).kind = "dir"
=============================================================================
