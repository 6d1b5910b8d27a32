------------------------------ MODULE StaticMC ------------------------------
(* All request paths of up to MaxLen components over one small tree that has every
   kind of trap, checked against an independent account of what the operating
   system would open, and printed for replay in the real code.                 *)
EXTENDS StaticFs, TLC, Json
CONSTANTS MaxLen, Record
c(x) == <<x>>
\* single letters stand for names: w work, p root, q sibling whose name starts with the root's (pq)
W == c(119) P == c(112) PQ == <<112, 113>> O == c(111)
F == <<97, 46, 116, 120, 116>>      \* a.txt
D == c(100) L == c(108) LD == <<108,100>> LI == <<108,105>> LL == <<108,108>> LX == <<108,120>> LA == <<108,97>> X == c(120)
n(p, k, i, t) == [path |-> p, kind |-> k, id |-> i, len |-> i, target |-> t]
s(str) == str
\* link texts
ToOut == <<46,46,47,111,47>> \o F          \* ../o/a.txt
ToOutDir == <<46,46,47,111>>               \* ../o
ToIn == <<100,47>> \o F                    \* d/a.txt
ToSelf == LL
ToMissing == <<46,46,47,111,47,120>>       \* ../o/x   (not there)
ToAbs == <<47,119,47,112,47,100>>          \* /w/p/d
Root == <<47,119,47,112>>
Tree == << n(<<W>>, "dir", 0, <<>>), n(<<W, P>>, "dir", 0, <<>>), n(<<W, PQ>>, "dir", 0, <<>>), n(<<W, O>>, "dir", 0, <<>>),
           n(<<W, O, F>>, "file", 9, <<>>), n(<<W, PQ, F>>, "file", 8, <<>>),
           n(<<W, P, F>>, "file", 1, <<>>), n(<<W, P, D>>, "dir", 0, <<>>), n(<<W, P, D, F>>, "file", 2, <<>>),
           n(<<W, P, L>>, "link", 0, ToOut), n(<<W, P, LD>>, "link", 0, ToOutDir), n(<<W, P, LI>>, "link", 0, ToIn),
           n(<<W, P, LL>>, "link", 0, ToSelf), n(<<W, P, LX>>, "link", 0, ToMissing), n(<<W, P, LA>>, "link", 0, ToAbs),
           n(<<W, P, D, L>>, "link", 0, <<46,46,47,46,46,47,112,113>>),
           n(<<W, P, Index>>, "file", 3, <<>>), n(<<W, P, D, X>>, "other", 0, <<>>) >>
Alphabet == {F, D, L, LD, LI, LL, LX, LA, X, DotDot, DotC, <<>>, W, P, PQ, O}
Mime == << [ext |-> <<>>, type |-> c(63)], [ext |-> <<46,116,120,116>>, type |-> c(84)] >>

RECURSIVE Join(_)
Join(cs) == IF Len(cs) = 0 THEN <<>> ELSE IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o <<Slash>> \o Join(Tail(cs))

\* what the kernel opens: fails at the first thing that is not there or no directory
RECURSIVE Phys(_, _, _)
Phys(cur, cs, fuel) ==
    IF cs = <<>> THEN [ok |-> TRUE, p |-> cur]
    ELSE IF Node(Tree, cur).kind # "dir" THEN [ok |-> FALSE, p |-> cur]
    ELSE IF cs[1] = <<>> \/ cs[1] = DotC THEN Phys(cur, Tail(cs), fuel)
    ELSE IF cs[1] = DotDot THEN Phys(IF cur = <<>> THEN cur ELSE SubSeq(cur, 1, Len(cur) - 1), Tail(cs), fuel)
    ELSE LET p == Append(cur, cs[1]) k == Node(Tree, p) IN
         IF k.kind = "none" THEN [ok |-> FALSE, p |-> p]
         ELSE IF k.kind = "link" THEN IF fuel = 0 THEN [ok |-> FALSE, p |-> p]
                                      ELSE Phys(IF Absolute(k.target) THEN <<>> ELSE cur, Comps(k.target) \o Tail(cs), fuel - 1)
         ELSE Phys(p, Tail(cs), fuel)

VARIABLES cs, printed
Path == <<47, 115>> \o <<Slash>> \o Join(cs)      \* /s/...
A == Answers(Tree, Mime, Root, <<47, 115>>, Path)
Rel == Remainder(<<47, 115>>, Path)
K == Phys(IF Absolute(Rel) THEN <<>> ELSE <<W, P>>, Comps(Rel), 40)
InRoot == Inside(K.p, <<W, P>>)
Init == cs = <<>> /\ printed = FALSE
Grow == ~printed /\ Len(cs) < MaxLen /\ \E a \in Alphabet : cs' = Append(cs, a) /\ UNCHANGED printed
Emit == Record /\ ~printed /\ printed' = TRUE /\ UNCHANGED cs /\ PrintT("BEH " \o ToJson(Path))
Next == Grow \/ Emit
Spec == Init /\ [][Next]_<<cs, printed>>

OutsideRefused == (K.ok /\ ~InRoot) => A = {[status |-> 403, id |-> 0, len |-> 0, types |-> {}]}
InsideServed == (K.ok /\ InRoot /\ Node(Tree, K.p).kind = "file") => \A a \in A : a.status = 200 /\ a.id = Node(Tree, K.p).id
ContentIsInside == \A a \in A : a.id \notin {8, 9}
NoContentUnless200 == \A a \in A : (a.status = 200) = (a.id # 0)
Answered == A # {} /\ \A a \in A : a.status \in {200, 403, 404}
\* existence outside is not revealed: every answer for a missing thing outside is that for an existing one
NoOracle == (~K.ok /\ ~Inside(K.p, <<W, P>>) /\ Node(Tree, K.p).kind = "none" /\ \A i \in 1..Len(cs) : cs[i] # LL)
               => 403 \in {a.status : a \in A} \/ Inside(Resolve(Tree, <<W, P>>, Rel).p, <<W, P>>)
=============================================================================
