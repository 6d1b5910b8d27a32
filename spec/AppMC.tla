------------------------------- MODULE AppMC -------------------------------
(* Every way of starting the program over a small menu for each option, and then
   requests, signals and a broken output, one after the other; behaviours of this
   model are replayed with the real program.                                     *)
EXTENDS App, Json
CONSTANTS MaxOps, Odd, Record
Ports == <<<<>>,
  <<[s |-> "-p", b |-> <<45,112>>], [s |-> "20001", b |-> <<50,48,48,48,49>>]>>,
  <<[s |-> "--port=20001", b |-> <<45,45,112,111,114,116,61,50,48,48,48,49>>]>>,
  <<[s |-> "-p", b |-> <<45,112>>], [s |-> "0", b |-> <<48>>]>>,
  <<[s |-> "--port", b |-> <<45,45,112,111,114,116>>], [s |-> "65536", b |-> <<54,53,53,51,54>>]>>,
  <<[s |-> "--port", b |-> <<45,45,112,111,114,116>>], [s |-> "x1", b |-> <<120,49>>]>>,
  <<[s |-> "-p", b |-> <<45,112>>]>>>>
LevelMenu == <<<<>>,
  <<[s |-> "-l", b |-> <<45,108>>], [s |-> "off", b |-> <<111,102,102>>]>>,
  <<[s |-> "--log-level", b |-> <<45,45,108,111,103,45,108,101,118,101,108>>], [s |-> "INFO", b |-> <<73,78,70,79>>]>>,
  <<[s |-> "--log-level=Trace", b |-> <<45,45,108,111,103,45,108,101,118,101,108,61,84,114,97,99,101>>]>>,
  <<[s |-> "-l", b |-> <<45,108>>], [s |-> "loud", b |-> <<108,111,117,100>>]>>>>
Modes == <<<<[s |-> "--cleartext", b |-> <<45,45,99,108,101,97,114,116,101,120,116>>]>>,
  <<>>,
  <<[s |-> "--tls-cert-path", b |-> <<45,45,116,108,115,45,99,101,114,116,45,112,97,116,104>>], [s |-> "/w/c", b |-> <<47,119,47,99>>], [s |-> "--tls-key-path", b |-> <<45,45,116,108,115,45,107,101,121,45,112,97,116,104>>], [s |-> "/w/k", b |-> <<47,119,47,107>>]>>,
  <<[s |-> "--tls-cert-path=/w/c", b |-> <<45,45,116,108,115,45,99,101,114,116,45,112,97,116,104,61,47,119,47,99>>]>>,
  <<[s |-> "--tls-cert-path", b |-> <<45,45,116,108,115,45,99,101,114,116,45,112,97,116,104>>], [s |-> "/w/c", b |-> <<47,119,47,99>>], [s |-> "--tls-key-path", b |-> <<45,45,116,108,115,45,107,101,121,45,112,97,116,104>>], [s |-> "/w/k2", b |-> <<47,119,47,107,50>>]>>,
  <<[s |-> "--tls-cert-path", b |-> <<45,45,116,108,115,45,99,101,114,116,45,112,97,116,104>>], [s |-> "/w/j", b |-> <<47,119,47,106>>], [s |-> "--tls-key-path", b |-> <<45,45,116,108,115,45,107,101,121,45,112,97,116,104>>], [s |-> "/w/k", b |-> <<47,119,47,107>>]>>,
  <<[s |-> "--tls-cert-path", b |-> <<45,45,116,108,115,45,99,101,114,116,45,112,97,116,104>>], [s |-> "/w/no", b |-> <<47,119,47,110,111>>], [s |-> "--tls-key-path", b |-> <<45,45,116,108,115,45,107,101,121,45,112,97,116,104>>], [s |-> "/w/k", b |-> <<47,119,47,107>>]>>,
  <<[s |-> "--cleartext", b |-> <<45,45,99,108,101,97,114,116,101,120,116>>], [s |-> "--tls-cert-path", b |-> <<45,45,116,108,115,45,99,101,114,116,45,112,97,116,104>>], [s |-> "/w/j", b |-> <<47,119,47,106>>]>>>>
Statics == <<<<>>,
  <<[s |-> "--static", b |-> <<45,45,115,116,97,116,105,99>>], [s |-> "/s", b |-> <<47,115>>], [s |-> "/w/r", b |-> <<47,119,47,114>>]>>,
  <<[s |-> "-s", b |-> <<45,115>>], [s |-> "/s", b |-> <<47,115>>], [s |-> "/w/r/", b |-> <<47,119,47,114,47>>]>>,
  <<[s |-> "--static", b |-> <<45,45,115,116,97,116,105,99>>], [s |-> "/s", b |-> <<47,115>>], [s |-> "/w/no", b |-> <<47,119,47,110,111>>]>>,
  <<[s |-> "--static", b |-> <<45,45,115,116,97,116,105,99>>], [s |-> "/s", b |-> <<47,115>>]>>,
  <<[s |-> "-s", b |-> <<45,115>>], [s |-> "/s", b |-> <<47,115>>], [s |-> "--under-test", b |-> <<45,45,117,110,100,101,114,45,116,101,115,116>>]>>,
  <<[s |-> "--static", b |-> <<45,45,115,116,97,116,105,99>>], [s |-> "/", b |-> <<47>>], [s |-> "/w/r", b |-> <<47,119,47,114>>]>>,
  <<[s |-> "-s", b |-> <<45,115>>], [s |-> "/s", b |-> <<47,115>>], [s |-> "r", b |-> <<114>>]>>>>
Customs == <<<<>>,
  <<[s |-> "--custom-404-file-path", b |-> <<45,45,99,117,115,116,111,109,45,52,48,52,45,102,105,108,101,45,112,97,116,104>>], [s |-> "/w/4.html", b |-> <<47,119,47,52,46,104,116,109,108>>]>>,
  <<[s |-> "--custom-404-file-path=/w/no", b |-> <<45,45,99,117,115,116,111,109,45,52,48,52,45,102,105,108,101,45,112,97,116,104,61,47,119,47,110,111>>]>>,
  <<[s |-> "--custom-404-file-path", b |-> <<45,45,99,117,115,116,111,109,45,52,48,52,45,102,105,108,101,45,112,97,116,104>>], [s |-> "4.html", b |-> <<52,46,104,116,109,108>>]>>,
  <<[s |-> "--custom-404-file-path", b |-> <<45,45,99,117,115,116,111,109,45,52,48,52,45,102,105,108,101,45,112,97,116,104>>], [s |-> "/w/r", b |-> <<47,119,47,114>>]>>>>
Logs == <<<<>>,
  <<[s |-> "--access-log", b |-> <<45,45,97,99,99,101,115,115,45,108,111,103>>], [s |-> "/w/log", b |-> <<47,119,47,108,111,103>>]>>,
  <<[s |-> "--access-log=/w/no/log", b |-> <<45,45,97,99,99,101,115,115,45,108,111,103,61,47,119,47,110,111,47,108,111,103>>]>>>>
Extras == <<<<>>,
  <<[s |-> "--bogus", b |-> <<45,45,98,111,103,117,115>>]>>,
  <<[s |-> "stray", b |-> <<115,116,114,97,121>>]>>,
  <<[s |-> "-h", b |-> <<45,104>>]>>,
  <<[s |-> "--version", b |-> <<45,45,118,101,114,115,105,111,110>>]>>,
  <<[s |-> "--port", b |-> <<45,45,112,111,114,116>>]>>>>
Flagss == <<<<>>, <<[s |-> "--under-test", b |-> <<45,45,117,110,100,101,114,45,116,101,115,116>>]>>, <<[s |-> "--status-page", b |-> <<45,45,115,116,97,116,117,115,45,112,97,103,101>>]>>, <<[s |-> "--under-test", b |-> <<45,45,117,110,100,101,114,45,116,101,115,116>>], [s |-> "--status-page", b |-> <<45,45,115,116,97,116,117,115,45,112,97,103,101>>]>>>>
Envs == << [cert |-> "", key |-> ""], [cert |-> "/w/c", key |-> "/w/k"], [cert |-> "/w/j", key |-> "/w/k"] >>
Paths == {<<47,95,116,101,115,116,115,47,111,107>>, <<47,95,116,101,115,116,115,47,110,111,95,99,111,110,116,101,110,116>>, <<47,95,116,101,115,116,115,47,110,111,95,110,101,119,95,112,114,105,118,115>>, <<47,95,116,101,115,116,115,47,109,101,100,105,117,109,95,98,111,100,121>>, <<47,95,116,101,115,116,115,47,108,97,114,103,101,95,98,111,100,121>>, <<47,95,105,111,110,47,115,116,97,116,117,115>>, <<47,115,47,97,46,116,120,116>>, <<47,115,47>>, <<47,115,47,110,111>>, <<47,115,47,46,46,47,52,46,104,116,109,108>>, <<47,97,46,116,120,116>>, <<47,110,111,110,101>>, <<47>>}
POST == <<80,79,83,84>>
n(p, k, i, len) == [path |-> p, kind |-> k, id |-> i, len |-> len, target |-> <<>>]
X == [files |-> << [s |-> "/w/c", kind |-> "cert", pair |-> 1], [s |-> "/w/k", kind |-> "key", pair |-> 1], [s |-> "/w/k2", kind |-> "key", pair |-> 2],
                   [s |-> "/w/j", kind |-> "junk", pair |-> 0], [s |-> "/w/log", kind |-> "log", pair |-> 0] >>,
      cwd |-> <<47,119>>, mime |-> << [ext |-> <<>>, type |-> <<63>>], [ext |-> <<46,116,120,116>>, type |-> <<84>>], [ext |-> <<46,104,116,109,108>>, type |-> <<72>>] >>,
      fs |-> << n(<<<<119>>>>, "dir", 0, 0), n(<<<<119>>, <<114>>>>, "dir", 0, 0), n(<<<<119>>, <<114>>, <<97,46,116,120,116>>>>, "file", 1, 5),
                n(<<<<119>>, <<114>>, Index>>, "file", 3, 6), n(<<<<119>>, <<52,46,104,116,109,108>>>>, "file", 2, 7) >>]

VARIABLES g, busy, ph, c, total, codes, lines, cause, last, hist
vars == <<g, busy, ph, c, total, codes, lines, cause, last, hist>>
Argv == Modes[g.mode] \o Ports[g.port] \o Statics[g.static] \o Customs[g.custom] \o Flagss[g.flags] \o Logs[g.log] \o LevelMenu[g.level] \o Extras[g.extra]
Menu == [mode : 1..Len(Modes), port : 1..Len(Ports), static : 1..Len(Statics), custom : 1..Len(Customs), flags : 1..4, log : 1..Len(Logs), level : 1..Len(LevelMenu), extra : 1..Len(Extras), env : 1..3]
Oddity(h) == Cardinality({f \in DOMAIN h : h[f] > 1})
Rec(x) == IF Record THEN Append(hist, x) ELSE hist
\* one menu for generation: mostly usable modes, a few options at a time
Pick(S) == RandomElement(IF hist = <<>> THEN S ELSE {})   \* (of state level, lest it be evaluated only once)
SomeMenus == {[mode |-> Pick({1, 1, 2, 3} \cup {Pick(1..Len(Modes))}), port |-> Pick({1, 2, 3} \cup {Pick(1..Len(Ports))}), static |-> Pick({1, 2, 3, 7, 8} \cup {Pick(1..Len(Statics))}),
             custom |-> Pick(1..Len(Customs)), flags |-> Pick(1..4), log |-> Pick(1..Len(Logs)), level |-> Pick({1, 1, 2, 3, 4} \cup {Pick(1..Len(LevelMenu))}),
             extra |-> Pick({1} \cup (IF Pick(1..5) = 1 THEN 1..Len(Extras) ELSE {})), env |-> Pick(1..3)]}
None == [mode |-> 1, port |-> 1, static |-> 1, custom |-> 1, flags |-> 1, log |-> 1, level |-> 1, extra |-> 1, env |-> 1]
Init == /\ IF Record THEN g = None /\ busy = FALSE /\ ph = "menu" ELSE g \in {h \in Menu : Oddity(h) <= Odd} /\ busy \in BOOLEAN /\ ph = "new"
        /\ c = [ok |-> FALSE] /\ total = 0 /\ codes = <<>> /\ lines = 0 /\ cause = FALSE /\ last = <<>> /\ hist = <<>>
Choose == /\ ph = "menu" /\ ph' = "new"
          /\ \E h \in SomeMenus : g' = h
          /\ busy' = (Pick(1..8) = 1)
          /\ UNCHANGED <<c, total, codes, lines, cause, last, hist>>
Opt == Opts(Argv, NoOpts)
Start == /\ ph = "new"
         /\ c' = Config(Opt, Envs[g.env])
         /\ \E o \in Starts(X, Opt, c', busy) :
               /\ ph' = CASE o = "serve" -> "up" [] OTHER -> o
               /\ hist' = Rec([op |-> "start", a |-> [i \in 1..Len(Argv) |-> Argv[i].s], env |-> Envs[g.env], busy |-> busy])
         /\ UNCHANGED <<g, busy, total, codes, lines, cause, last>>
Req == /\ ph = "up" /\ lines < MaxOps
       /\ \E m \in {{GET}, {HEAD}, {POST}, {}}, p \in {{q} : q \in Paths} \cup {{}} :
             \E a \in Replies(X, c, m, p) :
                /\ last' = <<m, p, a>>
                /\ total' = IF Routed(m, p) THEN total + 1 ELSE total
                /\ codes' = IF Routed(m, p) THEN Bump(codes, a.status) ELSE codes
                /\ hist' = Rec([op |-> "req", m |-> m, p |-> p])
       /\ lines' = lines + 1
       /\ UNCHANGED <<g, busy, ph, c, cause>>
Stop == /\ ph = "up" /\ ~cause /\ (Record => lines >= RandomElement(0..MaxOps))
        /\ cause' = TRUE
        /\ \E how \in {"int", "term", "out"} : hist' = Rec([op |-> how])
        /\ UNCHANGED <<g, busy, ph, c, total, codes, lines, last>>
Exit == /\ ph = "up" /\ cause /\ ph' = "gone" /\ UNCHANGED <<g, busy, c, total, codes, lines, cause, last, hist>>
End == Record /\ ph \in {"gone", "done", "fail"} /\ PrintT("BEH " \o ToJson(hist)) /\ ph' = "over" /\ UNCHANGED <<g, busy, c, total, codes, lines, cause, last, hist>>
Next == Choose \/ Start \/ Req \/ Stop \/ Exit \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Exit)

Up == ph = "up"
StartsSafely == Up => c.ok /\ ~busy /\ (c.cleartext \/ (c.cert = "/w/c" /\ c.key = "/w/k"))
\* everything that is served was asked for
OnlyAsked == last # <<>> =>
    LET p == last[2] a == last[3] IN
    /\ (a.k = "letters" \/ a.status = 204) => c.test
    /\ (a.k = "page") => c.page /\ p = {StatusPath}
    /\ (a.status = 200 /\ ~a.k = "page" /\ p # {} /\ ~\E r \in 1..Len(TestRoutes) : p = {TestRoutes[r].p}) => c.static # <<>>
    /\ (last[1] = {} \/ p = {}) <=> a.status = 400
\* the custom page: all 404s, nothing but 404s, no body for HEAD
Answer(d, m, p) == Permitted(X, d, m, p)
CustomOnly == (Up /\ lines = 0) => \A m \in {GET, HEAD, POST}, p \in Paths :
    LET d == [c EXCEPT !.custom = <<>>] IN
    /\ {a.status : a \in Answer(c, m, p)} = {a.status : a \in Answer(d, m, p)}
    /\ {a \in Answer(c, m, p) : a.status # 404} = {a \in Answer(d, m, p) : a.status # 404}
    /\ (c.custom # <<>> /\ IsFile(X.fs, Abs(X, c.custom))) =>
          \A a \in Answer(c, m, p) : a.status = 404 => IF m = HEAD THEN a.k = "none" /\ a.said = 7 ELSE a.k = "file" /\ a.id = 2
HeadParity == (Up /\ lines = 0 /\ c.static # <<>>) => \A p \in Paths :
    \A a \in Answer(c, GET, p), b \in Answer(c, HEAD, p) :
       (a.k = "file" /\ b.status = a.status) => b.said = a.len /\ b.types = a.types /\ b.k = "none"
Counts == /\ total = (LET RECURSIVE Sum(_) Sum(i) == IF i = 0 THEN 0 ELSE codes[i][2] + Sum(i - 1) IN Sum(Len(codes)))
          /\ total <= lines
EndsOnlyWhenTold == ph = "gone" => cause
Ends == (cause /\ Up) ~> (ph = "gone")
=============================================================================
