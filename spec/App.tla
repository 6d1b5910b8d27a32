-------------------------------- MODULE App --------------------------------
(* The ion-server program: what its command line means, whether it may start, what
   it then serves, what it logs, and when it ends.

   An argument is a string; octets of paths come along as sequences (see Opts).
   cfg.files tells what lies at a path given as a string: [s, kind, pair]
   with kind "cert" | "key" | "log" | "junk" (pair: which key belongs to which certificate). *)
EXTENDS Router
C == INSTANCE Conn

HasValue == {"--port", "-p", "--log-level", "-l", "--access-log", "--tls-cert-path", "--tls-key-path", "--custom-404-file-path"}
Flags == {"--cleartext", "--under-test", "--status-page"}
Levels == <<"trace", "debug", "info", "warn", "error", "critical", "off">>
Long(o) == CASE o = "-p" -> "--port" [] o = "-l" -> "--log-level" [] o = "-s" -> "--static" [] o = "-h" -> "--help" [] o = "-v" -> "--version" [] OTHER -> o

At(s, i) == SubSeq(s, i, i)
DigitOf == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
RECURSIVE Num(_, _, _)
\* -1: no decimal number; numbers too large for a port are all alike
Num(s, i, acc) == IF i > Len(s) THEN IF Len(s) = 0 THEN -1 ELSE acc
                  ELSE IF At(s, i) \notin DOMAIN DigitOf THEN -1
                  ELSE Num(s, i + 1, IF acc > 65535 THEN acc ELSE 10 * acc + DigitOf[At(s, i)])
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
LowerCh(c) == IF \E k \in 1..26 : At(Upper, k) = c THEN At(Lower, CHOOSE k \in 1..26 : At(Upper, k) = c) ELSE c
RECURSIVE LowerStr(_)
LowerStr(s) == IF Len(s) = 0 THEN "" ELSE LowerCh(At(s, 1)) \o LowerStr(SubSeq(s, 2, Len(s)))
EqAt(s) == IF \E i \in 3..Len(s) : At(s, i) = "=" THEN CHOOSE i \in 3..Len(s) : At(s, i) = "=" /\ \A j \in 3..(i - 1) : At(s, j) # "=" ELSE 0
LooksLikeOption(s) == Len(s) >= 2 /\ At(s, 1) = "-"

(* Reading the command line.  a: the arguments still to be read, as [s, b] (string, octets).
   r.v: option name -> [s, b] of its value; r.err: something is wrong with it.     *)
NoOpts == [err |-> FALSE, help |-> FALSE, version |-> FALSE, flags |-> {}, v |-> <<>>, static |-> <<>>]
Given(r, o) == o \in DOMAIN r.v
RECURSIVE Opts(_, _)
Opts(a, r) ==
    IF a = <<>> THEN r
    ELSE LET s == a[1].s
             o == Long(s)
             e == IF Len(s) > 2 /\ SubSeq(s, 1, 2) = "--" THEN EqAt(s) ELSE 0
             bad == [r EXCEPT !.err = TRUE]
             put(name, val, rest) == IF Given(r, name) THEN Opts(rest, bad) ELSE Opts(rest, [r EXCEPT !.v = (name :> val) @@ @])
         IN CASE s = "--" -> IF Len(a) = 1 THEN r ELSE bad
              [] o = "--help" -> Opts(Tail(a), [r EXCEPT !.help = TRUE])
              [] o = "--version" -> Opts(Tail(a), [r EXCEPT !.version = TRUE])
              [] o \in Flags -> Opts(Tail(a), [r EXCEPT !.flags = @ \cup {o}])
              [] o = "--static" -> IF Len(a) >= 3 /\ ~LooksLikeOption(a[2].s) /\ ~LooksLikeOption(a[3].s) /\ r.static = <<>>
                                   THEN Opts(SubSeq(a, 4, Len(a)), [r EXCEPT !.static = <<a[2], a[3]>>])
                                   ELSE Opts(Tail(a), bad)
              [] s \in HasValue -> IF Len(a) >= 2 /\ ~LooksLikeOption(a[2].s) THEN put(o, a[2], SubSeq(a, 3, Len(a))) ELSE Opts(Tail(a), bad)
              [] e > 0 /\ SubSeq(s, 1, e - 1) \in HasValue -> put(Long(SubSeq(s, 1, e - 1)), [s |-> SubSeq(s, e + 1, Len(s)), b |-> SubSeq(a[1].b, e + 1, Len(a[1].b))], Tail(a))
              [] OTHER -> Opts(Tail(a), bad)              \* unknown, or a stray value

DefaultPort == 8443
Value(r, o, dflt) == IF Given(r, o) THEN r.v[o].s ELSE dflt
\* env: [cert, key], "" where the environment does not say
Config(r, env) ==
    LET port == IF Given(r, "--port") THEN Num(r.v["--port"].s, 1, 0) ELSE DefaultPort
        level == LowerStr(Value(r, "--log-level", "info"))
    IN [ok |-> ~r.err /\ port \in 1..65535 /\ \E i \in 1..7 : Levels[i] = level,
        port |-> port, level |-> level,
        cleartext |-> "--cleartext" \in r.flags, test |-> "--under-test" \in r.flags, page |-> "--status-page" \in r.flags,
        static |-> r.static,
        log |-> Value(r, "--access-log", ""),
        cert |-> Value(r, "--tls-cert-path", env.cert), key |-> Value(r, "--tls-key-path", env.key),
        custom |-> IF Given(r, "--custom-404-file-path") THEN r.v["--custom-404-file-path"].b ELSE <<>>]

Has(files, s, kind) == \E i \in 1..Len(files) : files[i].s = s /\ files[i].kind = kind
Usable(files, cert, key) == \E i, j \in 1..Len(files) : /\ files[i].s = cert /\ files[i].kind = "cert"
                                                         /\ files[j].s = key /\ files[j].kind = "key" /\ files[j].pair = files[i].pair
\* the tree says what a path is (fs as in StaticFs)
What(fs, b) == LET r == Resolve(fs, <<>>, b) IN IF r.loop THEN Missing ELSE Node(fs, r.p)
IsFile(fs, b) == What(fs, b).kind = "file"
\* relative paths start where the program was started
Abs(x, b) == IF Absolute(b) THEN b ELSE x.cwd \o <<Slash>> \o b

\* how the program may start: "done" (printed something, success), "fail", "serve"
Starts(x, r, c, busy) ==
    IF r.help \/ r.version THEN IF c.ok THEN {"done"} ELSE {"done", "fail"}
    ELSE IF ~c.ok THEN {"fail"}
    ELSE IF busy THEN {"fail"}
    ELSE IF ~c.cleartext /\ ~Usable(x.files, c.cert, c.key) THEN {"fail"}
    ELSE {"serve"} \cup (IF \/ c.log # "" /\ ~Has(x.files, c.log, "log")              \* may be refused or done without
                            \/ c.static # <<>> /\ What(x.fs, Abs(x, c.static[2].b)).kind # "dir"
                            \/ c.custom # <<>> /\ ~IsFile(x.fs, Abs(x, c.custom))
                            \/ c.cleartext /\ (c.cert # "" \/ c.key # "") /\ ~Usable(x.files, c.cert, c.key)
                         THEN {"fail"} ELSE {})
Logged(x, c) == c.log # "" /\ Has(x.files, c.log, "log")

(***************************** what is served *****************************)
Ok == <<47,95,116,101,115,116,115,47,111,107>>
NoContent == <<47,95,116,101,115,116,115,47,110,111,95,99,111,110,116,101,110,116>>
NoPrivs == <<47,95,116,101,115,116,115,47,110,111,95,110,101,119,95,112,114,105,118,115>>
Medium == <<47,95,116,101,115,116,115,47,109,101,100,105,117,109,95,98,111,100,121>>
Large == <<47,95,116,101,115,116,115,47,108,97,114,103,101,95,98,111,100,121>>
StatusPath == <<47,95,105,111,110,47,115,116,97,116,117,115>>
\* body -1: that many letters A
Rt(p, st, len) == [k |-> "route", m |-> GET, p |-> p, id |-> 0, status |-> st, len |-> len, body |-> -1, thr |-> 0]
TestRoutes == <<Rt(Ok, 200, 0), Rt(NoContent, 204, 0), Rt(NoPrivs, 200, 0), Rt(Medium, 200, 131072), Rt(Large, 200, 2097152)>>
WorldOf(c) == [NewWorld EXCEPT !.routes = (IF c.test THEN TestRoutes ELSE <<>>) \o (IF c.page THEN <<[Rt(StatusPath, 200, 0) EXCEPT !.k = "page"]>> ELSE <<>>),
                               !.statics = IF c.static = <<>> THEN <<>> ELSE <<[prefix |-> c.static[1].b, root |-> c.static[2].b]>>]

(* The permitted answers to a request, as records
     [status, k (how the body is judged: "none", "letters", "page", "file"), id, len, types, said]
   where said is the content-length that must be given although there is no body (-1: none), and
   any: the body is left open.  m, p: sets of the values given (empty if none).                   *)
Ans(st) == [status |-> st, k |-> "none", id |-> 0, len |-> 0, types |-> {}, said |-> -1, any |-> FALSE]
FileAns(st, a, head) == IF head THEN [Ans(st) EXCEPT !.said = a.len, !.types = a.types]
                        ELSE [Ans(st) EXCEPT !.k = "file", !.id = a.id, !.len = a.len, !.types = a.types]
Plain(x, c, m, p) ==
    LET t == Target(WorldOf(c), m, p)
    IN CASE t.k = "route" -> {[Ans(t.r.status) EXCEPT !.k = IF t.r.len = 0 THEN "none" ELSE "letters", !.len = t.r.len]}
         [] t.k = "page" -> {[Ans(200) EXCEPT !.k = "page"]}
         [] t.k = "static" -> {IF a.status = 200 THEN FileAns(200, a, t.head) ELSE Ans(a.status) :
                               a \in Answers(x.fs, x.mime, Abs(x, c.static[2].b), c.static[1].b, p)}
         [] OTHER -> {Ans(404)}
\* every 404 is replaced, nothing else is
Custom(x, c, m, a) ==
    IF c.custom = <<>> \/ a.status # 404 THEN a
    ELSE IF IsFile(x.fs, Abs(x, c.custom))
         THEN LET n == What(x.fs, Abs(x, c.custom))
              IN FileAns(404, [id |-> n.id, len |-> n.len, types |-> {TypeOf(x.mime, n.path), TypeOf(x.mime, LastNamed(Comps(c.custom)))}], m = HEAD)
         ELSE [Ans(404) EXCEPT !.any = TRUE]
Permitted(x, c, m, p) == {Custom(x, c, m, a) : a \in Plain(x, c, m, p)}
Routed(m, p) == m # {} /\ p # {}
One(S) == CHOOSE v \in S : TRUE
Replies(x, c, m, p) == IF Routed(m, p) THEN Permitted(x, c, One(m), One(p)) ELSE {[Ans(400) EXCEPT !.any = TRUE]}
=============================================================================
