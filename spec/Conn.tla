-------------------------------- MODULE Conn --------------------------------
(* One HTTP/2 connection as a state machine over octets in and frames out.

   The state says what the server still owes: Feed digests received octets into
   expected handler calls and expected output, Call and Out check off what the
   server did.  Reading, framing, header compression, request dispatch and the
   framing of responses are all here; how the bytes travel (segmentation,
   blocking, failures) is up to the modules that use this one: ConnTrace for a
   single connection, ServerTrace for many.

   cfg.routes is the sequence of registered routes
     [m, p, status, hdrs, body, len, thr]; thr # 0 means the handler throws.
   cfg.wrap, if there, holds the numbers of the requests for which a middleware
   throws while it wraps the handler.                                        *)
EXTENDS Hpack, FiniteSets

Preface == <<80,82,73,32,42,32,72,84,84,80,47,50,46,48,13,10,13,10,83,77,13,10,13,10>>
MaxFrame == 16384
DATA == 0  HEADERS == 1  SETTINGS == 4  GOAWAY == 7  WINDOW_UPDATE == 8  CONTINUATION == 9
Bit(n, b) == (n \div b) % 2 = 1
Zero4 == <<0, 0, 0, 0>>

ColonPath == <<58,112,97,116,104>>
ColonMethod == <<58,109,101,116,104,111,100>>
ColonStatus == <<58,115,116,97,116,117,115>>
ContentLength == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
ServerName == <<115,101,114,118,101,114>>
PoweredBy == <<120,45,112,111,119,101,114,101,100,45,98,121>>
Ion == <<105,111,110>>
Referer == <<114,101,102,101,114,101,114>>
UserAgent == <<117,115,101,114,45,97,103,101,110,116>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>

\* ph: hs (handshaking), pre (preface outstanding), open, fail (connection error, GOAWAY owed),
\*     bye (client sent GOAWAY), badpre (wrong preface), closing (the server closes)
NewConn == [ph |-> "hs", in |-> <<>>, off |-> 0, D |-> NewTable(65536),
            q |-> <<>>,          \* output owed, oldest first
            calls |-> <<>>, nc |-> 0,   \* handler calls expected so far; made so far
            nd |-> 0,                   \* requests handed to the router so far
           logs |-> <<>>, nl |-> 0, na |-> 0,   \* log entries expected so far; written; responses complete
            T |-> NewTable(4096), limit |-> 4096, low |-> 16777216]   \* the client's header table

Owed(k) == [k |-> k, stream |-> Zero4, status |-> 0, hdrs |-> <<>>, body |-> 0, len |-> 0, call |-> 0,
            at |-> 0, sizes |-> <<>>, st |-> "hdr", frag |-> <<>>, sent |-> 0]
Push(c, item) == [c EXCEPT !.q = Append(@, item)]
Fail(c) == [Push(c, [Owed("goaway") EXCEPT !.at = c.off]) EXCEPT !.ph = "fail"]

Header(hs, name) == LET S == {i \in 1..Len(hs) : hs[i][1] = name}
                    IN IF S = {} THEN <<>> ELSE <<hs[CHOOSE i \in S : \A j \in S : i <= j][2]>>
Values(hs, name) == {hs[i][2] : i \in {j \in 1..Len(hs) : hs[j][1] = name}}
RouteOf(cfg, m, p) == LET S == {i \in 1..Len(cfg.routes) : cfg.routes[i].m = m /\ cfg.routes[i].p = p}
                      IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

\* the response owed to a request with header list hs
Respond(c, cfg, stream, hs) ==
    LET path == Header(hs, ColonPath)
        meth == Header(hs, ColonMethod)
        put(d, it) == Push([d EXCEPT !.logs = Append(@, [m |-> Values(hs, ColonMethod), p |-> Values(hs, ColonPath), status |-> it.status, len |-> it.len,
                                                          ref |-> Values(hs, Referer), ua |-> Values(hs, UserAgent), call |-> it.call])], it)
        item == [Owed("resp") EXCEPT !.stream = stream, !.at = c.off]
        c1 == [c EXCEPT !.nd = @ + 1]
    IN IF path = <<>> \/ meth = <<>> THEN put(c, [item EXCEPT !.status = 400])
       ELSE LET i == RouteOf(cfg, meth[1], path[1])
            IN IF "wrap" \in DOMAIN cfg /\ \E k \in 1..Len(cfg.wrap) : cfg.wrap[k] = c1.nd THEN put(c1, [item EXCEPT !.status = 500])
               ELSE IF i = 0 THEN put(c1, [item EXCEPT !.status = 404])
               ELSE LET r == cfg.routes[i]
                        n == Len(c.calls) + 1
                        c2 == [c1 EXCEPT !.calls = Append(@, [route |-> i, m |-> meth[1], p |-> path[1], hdrs |-> hs])]
                    IN IF r.thr # 0 THEN put(c2, [item EXCEPT !.status = 500, !.call = n])
                       ELSE put(c2, [item EXCEPT !.status = r.status, !.hdrs = r.hdrs, !.body = r.body,
                                                  !.len = r.len, !.call = n])

\* a HEADERS payload: pad length, priority fields, block, padding
OnHeaders(c, cfg, flags, stream, pl) ==
    LET skip == (IF Bit(flags, 8) THEN 1 ELSE 0) + (IF Bit(flags, 32) THEN 5 ELSE 0)
    IN IF Len(pl) < skip THEN Fail(c)
       ELSE LET pad == IF Bit(flags, 8) THEN pl[1] ELSE 0
            IN IF pad > Len(pl) - skip THEN Fail(c)
               ELSE LET r == DecBlock(SubSeq(pl, skip + 1, Len(pl) - pad), c.D, 4096, 65536)
                    IN IF ~r.ok THEN Fail(c)
                       ELSE Respond([c EXCEPT !.D = r.T], cfg, stream, r.hdrs)

\* values of SETTINGS_HEADER_TABLE_SIZE in a SETTINGS payload
TableSizes(pl) ==
    LET val(k) == LET b == 6 * (k - 1) IN IF pl[b + 3] > 0 THEN 16777216 ELSE pl[b + 4] * 65536 + pl[b + 5] * 256 + pl[b + 6]
        is(k) == pl[6 * k - 5] = 0 /\ pl[6 * k - 4] = 1
    IN FoldLeft(LAMBDA a, k : IF is(k) THEN Append(a, val(k)) ELSE a, <<>>, [k \in 1..(Len(pl) \div 6) |-> k])

OnFrame(c, cfg, type, flags, stream, pl) ==
    CASE type = SETTINGS /\ ~Bit(flags, 1) ->
             IF Len(pl) % 6 # 0 THEN Fail(c)
             ELSE Push(c, [Owed("ack") EXCEPT !.at = c.off, !.sizes = TableSizes(pl)])
      [] type = HEADERS -> OnHeaders(c, cfg, flags, stream, pl)
      [] type = WINDOW_UPDATE -> IF Len(pl) = 4 THEN c ELSE Fail(c)
      [] type = GOAWAY -> [c EXCEPT !.ph = "bye"]
      [] OTHER -> c

Strip(c, n) == [c EXCEPT !.in = SubSeq(@, n + 1, Len(@)), !.off = @ + n]
RECURSIVE Digest(_, _)
Digest(c, cfg) ==
    IF c.ph = "pre" THEN
        IF Len(c.in) < 24 THEN c
        ELSE IF SubSeq(c.in, 1, 24) = Preface
             THEN Digest(Strip(Push([c EXCEPT !.ph = "open"], Owed("settings")), 24), cfg)
             ELSE [c EXCEPT !.ph = "badpre"]
    ELSE IF c.ph = "open" /\ Len(c.in) >= 9 THEN
        LET b == c.in
            n == b[1] * 65536 + b[2] * 256 + b[3]
        IN IF n > MaxFrame THEN Fail(c)
           ELSE IF Len(b) < 9 + n THEN c
           ELSE LET d == OnFrame(c, cfg, b[4], b[5], <<b[6] % 128, b[7], b[8], b[9]>>, SubSeq(b, 10, 9 + n))
                IN Digest(Strip(d, 9 + n), cfg)
    ELSE c

Feed(c, cfg, bytes) == Digest([c EXCEPT !.in = @ \o bytes], cfg)
WrongPreface(c) == \/ c.ph = "badpre"
                   \/ c.ph = "pre" /\ \E k \in 1..(IF Len(c.in) < 24 THEN Len(c.in) ELSE 24) : c.in[k] # Preface[k]

(************************** what the server did **************************)
Ok(c) == [ok |-> TRUE, why |-> "", c |-> c]
No(c, why) == [ok |-> FALSE, why |-> why, c |-> c]

\* number of called requests whose response is not yet complete
Unanswered(c) == Cardinality({i \in 1..Len(c.q) : c.q[i].call > 0 /\ c.q[i].call <= c.nc})

Call(c, route, m, p, hdrs) ==
    IF c.nc >= Len(c.calls) THEN No(c, "handler called without a request for it")
    ELSE LET x == c.calls[c.nc + 1]
         IN IF x.route # route THEN No(c, "another handler called than the request's")
            ELSE IF x.m # m \/ x.p # p THEN No(c, "handler called with another method or path")
            ELSE IF x.hdrs # hdrs THEN No(c, "handler called with other request headers")
            ELSE Ok([c EXCEPT !.nc = @ + 1])

Settings3 == {<<0,3,0,0,0,100>>, <<0,4,0,0,255,255>>, <<0,5,0,0,64,0>>}
Chunks6(pl) == {SubSeq(pl, 6 * k - 5, 6 * k) : k \in 1..(Len(pl) \div 6)}

\* status first, then the handler's headers in order, then length and server headers in any order
HeadersOK(it, hs) ==
    LET want == <<<<ColonStatus, Digits(it.status)>>>> \o it.hdrs
        rest == (IF it.len > 0 THEN {<<ContentLength, Digits(it.len)>>} ELSE {})
                \cup {<<ServerName, Ion>>, <<PoweredBy, Ion>>}
        n == Len(want)
    IN /\ Len(hs) = n + Cardinality(rest)
       /\ SubSeq(hs, 1, n) = want
       /\ {hs[i] : i \in (n + 1)..Len(hs)} = rest

Pop(c) == [c EXCEPT !.q = Tail(@), !.na = IF c.q[1].k = "resp" THEN @ + 1 ELSE @]
SetHead(c, it) == [c EXCEPT !.q[1] = it]

\* a HEADERS or CONTINUATION frame of the response at the head of the queue
OutBlock(c, it, f) ==
    LET frag == it.frag \o f.pl
    IN IF ~Bit(f.flags, 4) THEN Ok(SetHead(c, [it EXCEPT !.st = "cont", !.frag = frag]))
       ELSE LET r == StrictBlock(frag, c.T, c.limit, c.low)
            IN IF ~r.ok THEN No(c, "response header block does not decode: " \o r.why)
               ELSE IF ~HeadersOK(it, r.hdrs) THEN No(c, "wrong response headers")
               ELSE LET c2 == [c EXCEPT !.T = r.T, !.low = 16777216]
                    IN Ok(IF it.len = 0 THEN Pop(c2) ELSE SetHead(c2, [it EXCEPT !.st = "data", !.frag = <<>>]))

\* one complete frame on the wire: f = [type, flags, stream, len, pl (not for DATA), m (DATA: bodies matching at this point)]
Out(c, f) ==
    IF f.len > MaxFrame THEN No(c, "frame larger than 16384 octets")
    ELSE IF c.q = <<>> THEN No(c, "frame sent without cause")
    ELSE LET it == c.q[1]
         IN CASE it.k = "settings" ->
                   IF f.type = SETTINGS /\ f.flags = 0 /\ f.stream = Zero4 /\ f.len = 18 /\ Chunks6(f.pl) = Settings3
                   THEN Ok(Pop(c)) ELSE No(c, "first frame is not the server's SETTINGS")
              [] it.k = "ack" ->
                   IF f.type = SETTINGS /\ f.flags = 1 /\ f.stream = Zero4 /\ f.len = 0
                   THEN Ok([Pop(c) EXCEPT !.limit = IF it.sizes = <<>> THEN @ ELSE it.sizes[Len(it.sizes)],
                                          !.low = FoldLeft(LAMBDA a, n : IF n < a THEN n ELSE a, @, it.sizes)])
                   ELSE No(c, "expected a SETTINGS ACK")
              [] it.k = "goaway" ->
                   IF f.type = GOAWAY /\ f.stream = Zero4 /\ f.len >= 8 /\ SubSeq(f.pl, 5, 8) = <<0, 0, 0, 1>>
                   THEN Ok(Pop(c)) ELSE No(c, "expected GOAWAY with PROTOCOL_ERROR")
              [] it.k = "goaway0" ->
                   IF f.type = GOAWAY /\ f.stream = Zero4 /\ f.len >= 8 /\ SubSeq(f.pl, 5, 8) = Zero4
                   THEN Ok(Pop(c)) ELSE No(c, "expected GOAWAY with NO_ERROR")
              [] OTHER ->
                   IF f.stream # it.stream THEN No(c, "frame on another stream than the response's")
                   ELSE IF it.st = "hdr" THEN
                       IF f.type # HEADERS THEN No(c, "response does not start with HEADERS")
                       ELSE IF it.call > c.nc THEN No(c, "response sent although the handler did not run")
                       ELSE IF Bit(f.flags, 1) # (it.len = 0) THEN No(c, "END_STREAM wrong on HEADERS")
                       ELSE IF Bit(f.flags, 8) \/ Bit(f.flags, 32) THEN No(c, "unexpected flags on HEADERS")
                       ELSE OutBlock(c, it, f)
                   ELSE IF it.st = "cont" THEN
                       IF f.type = CONTINUATION THEN OutBlock(c, it, f) ELSE No(c, "header block interrupted")
                   ELSE IF f.type # DATA THEN No(c, "response body interrupted")
                   ELSE IF Bit(f.flags, 8) THEN No(c, "unexpected flags on DATA")
                   ELSE IF it.sent + f.len > it.len \/ ~(\E k \in 1..Len(f.m) : f.m[k] = it.body)
                        THEN No(c, "response body differs from the handler's")
                   ELSE IF Bit(f.flags, 1)
                        THEN IF it.sent + f.len = it.len THEN Ok(Pop(c)) ELSE No(c, "response body cut short")
                   ELSE Ok(SetHead(c, [it EXCEPT !.sent = @ + f.len]))

(******************************* access log *******************************)
HexVal(d) == IF d \in 48..57 THEN d - 48 ELSE IF d \in 65..70 THEN d - 55 ELSE IF d \in 97..102 THEN d - 87 ELSE 99
Lit(b, i, s) == i > 0 /\ i + Len(s) - 1 <= Len(b) /\ SubSeq(b, i, i + Len(s) - 1) = s
\* position in b after the literal s at i, 0 if it is not there
Skips(b, i, s) == IF Lit(b, i, s) THEN i + Len(s) ELSE 0
\* ... after the field value v: plain characters as they are, others escaped
RECURSIVE Esc(_, _, _, _)
Esc(b, i, v, k) ==
    IF k > Len(v) THEN i
    ELSE IF i = 0 \/ i > Len(b) THEN 0
    ELSE IF v[k] \in 32..126 /\ v[k] # 34 /\ v[k] # 92 THEN IF b[i] = v[k] THEN Esc(b, i + 1, v, k + 1) ELSE 0
    ELSE IF b[i] # 92 \/ i = Len(b) THEN 0
    ELSE IF b[i + 1] = 120 THEN IF i + 3 <= Len(b) /\ HexVal(b[i + 2]) * 16 + HexVal(b[i + 3]) = v[k] THEN Esc(b, i + 4, v, k + 1) ELSE 0
    ELSE IF \/ b[i + 1] = v[k] /\ v[k] \in {34, 92}
            \/ <<b[i + 1], v[k]>> \in {<<110, 10>>, <<114, 13>>, <<116, 9>>, <<98, 8>>, <<118, 11>>, <<102, 12>>}
         THEN Esc(b, i + 2, v, k + 1) ELSE 0
Dash == <<45>>
\* positions after one of the values in S (a dash if there is none)
Field(b, I, S) == {i \in UNION {{Esc(b, i, v, 1) : v \in (IF S = {} \/ S = {<<>>} THEN S \cup {Dash} ELSE S)} : i \in I} : i > 0}
Text(b, I, s) == {Skips(b, i, s) : i \in I} \ {0}
Num(i, b) == i <= Len(b) /\ b[i] \in 48..57
\* [dd/Mon/yyyy:hh:mm:ss +zzzz], some zone's way of writing an instant (seconds since 1970)
Months == <<<<74,97,110>>, <<70,101,98>>, <<77,97,114>>, <<65,112,114>>, <<77,97,121>>, <<74,117,110>>, <<74,117,108>>, <<65,117,103>>, <<83,101,112>>,
            <<79,99,116>>, <<78,111,118>>, <<68,101,99>>>>
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Days(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 31
Before1(y) == 365 * (y - 1970) + (y - 1969) \div 4 - (y - 1901) \div 100 + (y - 1601) \div 400     \* days before a year
RECURSIVE Before2(_, _)                                                                             \* ... and before a month in it
Before2(y, m) == IF m = 1 THEN Before1(y) ELSE Before2(y, m - 1) + Days(y, m - 1)
Two(b, i) == (b[i] - 48) * 10 + b[i + 1] - 48
Stamp(b, i, at) ==     \* at: from and to
    IF i + 27 > Len(b) THEN 0
    ELSE IF ~/\ b[i] = 91 /\ b[i + 27] = 93
             /\ \A k \in {1, 2, 8, 9, 10, 11, 13, 14, 16, 17, 19, 20, 23, 24, 25, 26} : Num(i + k, b)
             /\ b[i + 3] = 47 /\ b[i + 7] = 47 /\ b[i + 12] = 58 /\ b[i + 15] = 58 /\ b[i + 18] = 58 /\ b[i + 21] = 32
             /\ b[i + 22] \in {43, 45}
         THEN 0
    ELSE LET ms == {m \in 1..12 : Months[m] = SubSeq(b, i + 4, i + 6)}
             m == CHOOSE x \in ms : TRUE
             y == Two(b, i + 8) * 100 + Two(b, i + 10)
             d == Two(b, i + 1)
             off == (IF b[i + 22] = 45 THEN -60 ELSE 60) * (Two(b, i + 23) * 60 + Two(b, i + 25))
         IN IF /\ ms # {} /\ y \in 1970..2037 /\ d \in 1..Days(y, m)
               /\ Two(b, i + 13) < 24 /\ Two(b, i + 16) < 60 /\ Two(b, i + 19) < 60 /\ Two(b, i + 25) < 60
               /\ (Before2(y, m) + d - 1) * 86400 + Two(b, i + 13) * 3600 + Two(b, i + 16) * 60 + Two(b, i + 19) - off \in at[1]..at[2]
            THEN i + 28 ELSE 0
LineOK(b, ip, at, x) ==
    LET i1 == Text(b, {1}, (IF ip = <<>> THEN Dash ELSE ip) \o <<32,45,32,45,32>>)
        i2 == {Stamp(b, i, at) : i \in i1} \ {0}
        i3 == Field(b, Text(b, i2, <<32, 34>>), x.m)
        i4 == Field(b, Text(b, i3, <<32>>), x.p)
        i5 == Text(b, i4, <<32,72,84,84,80,47,50,34,32>> \o Digits(x.status) \o <<32>> \o Digits(x.len) \o <<32, 34>>)
        i6 == Field(b, i5, x.ref)
        i7 == Field(b, Text(b, i6, <<34, 32, 34>>), x.ua)
        i8 == Text(b, i7, <<34>>)
    IN Len(b) + 1 \in i8
Log(c, cfg, line, at) ==
    IF c.nl >= Len(c.logs) THEN No(c, "log line without an answered request")
    ELSE LET x == c.logs[c.nl + 1]
         IN IF x.call > c.nc THEN No(c, "request logged before its handler ran")
            ELSE IF ~LineOK(line, cfg.ip, at, x) THEN No(c, "log line does not describe the request")
            ELSE Ok([c EXCEPT !.nl = @ + 1])

RECURSIVE OutAll(_, _, _)
OutAll(c, fs, k) == IF k > Len(fs) THEN Ok(c)
                    ELSE LET r == Out(c, fs[k]) IN IF r.ok THEN OutAll(r.c, fs, k + 1) ELSE r

\* received octets that cannot have been acted on yet
Unprocessed(c) == IF c.q = <<>> THEN 0 ELSE c.off + Len(c.in) - c.q[1].at
=============================================================================
