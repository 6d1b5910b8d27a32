------------------------------ MODULE StaticFs ------------------------------
(* Static serving as a function of a file tree, a mapping (prefix, root) and a
   request path.  Paths are sequences of components, components sequences of
   octets.  A tree is a sequence of nodes
     [path, kind ("dir" | "file" | "link" | "other"), id, len, target]
   where target is the octets of a link's text; what is not listed is missing. *)
EXTENDS Naturals, Sequences, FiniteSets

Slash == 47
DotC == <<46>>
DotDot == <<46, 46>>
Index == <<105,110,100,101,120,46,104,116,109,108>>

RECURSIVE Split(_, _)
\* the components between slashes of octets b, the current one being acc
Split(b, acc) == IF b = <<>> THEN <<acc>>
                 ELSE IF b[1] = Slash THEN <<acc>> \o Split(Tail(b), <<>>)
                 ELSE Split(Tail(b), Append(acc, b[1]))
Comps(b) == Split(b, <<>>)
Absolute(b) == b # <<>> /\ b[1] = Slash
StartsWith(b, p) == Len(p) <= Len(b) /\ SubSeq(b, 1, Len(p)) = p
First(b, x) == IF \E i \in 1..Len(b) : b[i] = x THEN CHOOSE i \in 1..Len(b) : b[i] = x /\ \A j \in 1..(i - 1) : b[j] # x ELSE 0
Inside(p, root) == Len(root) <= Len(p) /\ SubSeq(p, 1, Len(root)) = root

Missing == [kind |-> "none", id |-> 0, len |-> 0, target |-> <<>>, path |-> <<>>]
Node(fs, p) == IF p = <<>> THEN [Missing EXCEPT !.kind = "dir"]
               ELSE LET S == {i \in 1..Len(fs) : fs[i].path = p}
                    IN IF S = {} THEN Missing ELSE fs[CHOOSE i \in S : TRUE]

\* edits
Remove(fs, p) == SelectSeq(fs, LAMBDA x : ~Inside(x.path, p))
Put(fs, x) == Append(Remove(fs, x.path), x)
Move(fs, a, b) == LET moved == SelectSeq(fs, LAMBDA x : Inside(x.path, a))
                      to(x) == [x EXCEPT !.path = b \o SubSeq(@, Len(a) + 1, Len(@))]
                  IN Remove(Remove(fs, a), b) \o [i \in 1..Len(moved) |-> to(moved[i])]

\* follows links, ".." and "."; what is missing is taken as a directory without links
\* ghost: some component passed through is no directory; loop: too many links
RECURSIVE Walk(_, _, _, _, _)
Walk(fs, cur, cs, fuel, ghost) ==
    IF cs = <<>> THEN [p |-> cur, ghost |-> ghost, loop |-> FALSE]
    ELSE LET c == cs[1] IN
         IF c = <<>> \/ c = DotC
              THEN Walk(fs, cur, Tail(cs), fuel, ghost \/ ((c = DotC \/ Len(cs) > 1) /\ Node(fs, cur).kind # "dir"))
         ELSE IF c = DotDot
              THEN Walk(fs, IF cur = <<>> THEN cur ELSE SubSeq(cur, 1, Len(cur) - 1), Tail(cs), fuel, ghost \/ Node(fs, cur).kind # "dir")
         ELSE LET p == Append(cur, c)  n == Node(fs, p)
              IN IF n.kind = "link"
                 THEN IF fuel = 0 THEN [p |-> p, ghost |-> ghost, loop |-> TRUE]
                      ELSE Walk(fs, IF Absolute(n.target) THEN <<>> ELSE cur, Comps(n.target) \o Tail(cs), fuel - 1, ghost)
                 ELSE Walk(fs, p, Tail(cs), fuel, ghost)
Resolve(fs, cur, b) == Walk(fs, IF Absolute(b) THEN <<>> ELSE cur, Comps(b), 40, FALSE)

\* the part of the request path that names the file
Remainder(prefix, path) ==
    LET r == SubSeq(path, Len(prefix) + 1, Len(path))
        q == First(r, 63)
        s == IF q = 0 THEN r ELSE SubSeq(r, 1, q - 1)
    IN IF s = <<>> \/ s = <<Slash>> THEN Index ELSE IF s[1] = Slash THEN Tail(s) ELSE s

Ext(c) == LET dots == {i \in 1..Len(c) : c[i] = 46}
          IN IF dots = {} THEN <<>> ELSE SubSeq(c, CHOOSE i \in dots : \A j \in dots : j <= i, Len(c))
TypeOf(mime, p) == IF p = <<>> THEN mime[1].type
                   ELSE LET e == Ext(p[Len(p)])
                            S == {i \in 1..Len(mime) : mime[i].ext = e /\ e # <<>>}
                        IN IF S = {} THEN mime[1].type ELSE mime[CHOOSE i \in S : TRUE].type   \* mime[1]: unknown

LastNamed(cs) == LET S == {i \in 1..Len(cs) : cs[i] # <<>>} IN IF S = {} THEN <<>> ELSE <<cs[CHOOSE i \in S : \A j \in S : j <= i]>>

\* the permitted answers, as a set of [status, id, len, types]; id 0: no content
Answers(fs, mime, root, prefix, path) ==
    LET rel == Remainder(prefix, path)
        rt == Resolve(fs, <<>>, root)
        r == Resolve(fs, rt.p, rel)
        n == Node(fs, r.p)
        no(s) == [status |-> s, id |-> 0, len |-> 0, types |-> {}]
        long == \E i \in 1..Len(Comps(rel)) : Len(Comps(rel)[i]) > 255
        nul == First(rel, 0) # 0
        trail == rel[Len(rel)] = Slash
        file == [status |-> 200, id |-> n.id, len |-> n.len,
                 types |-> {TypeOf(mime, r.p), TypeOf(mime, LastNamed(Comps(rel)))}]
    IN IF rt.loop \/ Node(fs, rt.p).kind # "dir" THEN {no(403), no(404)}
       ELSE IF r.loop \/ long \/ Len(rel) > 3500 THEN {no(403), no(404)}
       ELSE IF nul THEN {no(403), no(404)} \cup
                        (LET cut == Resolve(fs, rt.p, SubSeq(rel, 1, First(rel, 0) - 1)) m == Node(fs, cut.p)
                         IN IF ~cut.loop /\ Inside(cut.p, rt.p) /\ m.kind = "file"
                            THEN {[file EXCEPT !.id = m.id, !.len = m.len, !.types = {TypeOf(mime, cut.p), TypeOf(mime, r.p)}]} ELSE {})
       ELSE IF ~Inside(r.p, rt.p) THEN {no(403)}
       ELSE IF n.kind = "file" /\ ~trail THEN IF r.ghost THEN {file, no(404)} ELSE {file}
       ELSE {no(404)}
=============================================================================
