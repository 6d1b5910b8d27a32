------------------------------- MODULE Hpack -------------------------------
(* HPACK (RFC 7541) as pure operators over octet sequences: integers, Huffman
   strings, the dynamic table, and header blocks.  This is the one source of
   truth for header compression: the design model HpackMC, the trace specs
   HpackTrace and ConnTrace, and the codec enumerations all use it.

   Octet strings are sequences of 0..255; a header is <<name, value>>.
   TLC integers are 32 bit signed, so unsigned 32 bit values are kept as
   two 16 bit limbs <<hi, lo>>. *)
EXTENDS Integers, Sequences, SequencesExt, HpackData

Pow2(n) == 2^n

(************************** integers, section 5.1 **************************)
\* v * 2^s as limbs, for v < 128 and s \in {0,7,14,21,28}; may exceed 32 bits
Scaled(v, s) == IF s < 16
                THEN <<(v * Pow2(s)) \div 65536, (v * Pow2(s)) % 65536>>
                ELSE <<v * Pow2(s - 16), 0>>
AddLimbs(a, b) == LET lo == a[2] + b[2]
                  IN <<a[1] + b[1] + (lo \div 65536), lo % 65536>>

\* continuation octets from position p (1-based) on; k is the number already read
RECURSIVE IntCont(_, _, _, _)
IntCont(b, p, k, sum) ==
    IF p > Len(b) THEN [ok |-> FALSE, why |-> "truncated", val |-> <<0, 0>>, next |-> p, octets |-> k]
    ELSE LET v == b[p] % 128
             s == 7 * k
             \* beyond five continuation octets only zero payloads keep the value in range
             sum2 == IF k <= 4 THEN AddLimbs(sum, Scaled(v, s))
                     ELSE IF v = 0 THEN sum ELSE <<65536, 0>>
         IN IF sum2[1] > 65535 THEN [ok |-> FALSE, why |-> "overflow", val |-> <<0, 0>>, next |-> p, octets |-> k]
            ELSE IF b[p] >= 128 THEN IntCont(b, p + 1, k + 1, sum2)
            ELSE [ok |-> TRUE, why |-> "", val |-> sum2, next |-> p + 1, octets |-> k + 1]

\* octets = number of continuation octets; an implementation may refuse more than five
DecInt(b, p, prefix) ==
    IF p > Len(b) THEN [ok |-> FALSE, why |-> "truncated", val |-> <<0, 0>>, next |-> p, octets |-> 0]
    ELSE LET m == Pow2(prefix) - 1
             v == b[p] % Pow2(prefix)
         IN IF v < m THEN [ok |-> TRUE, why |-> "", val |-> <<0, v>>, next |-> p + 1, octets |-> 0]
            ELSE IntCont(b, p + 1, 0, <<0, m>>)

\* a decoded value as a TLC integer; everything above 2^24 is as good as infinite here
Small(v) == IF v[1] >= 256 THEN 16777216 ELSE v[1] * 65536 + v[2]

\* canonical encoding of limbs v with the given prefix (pattern bits zero)
RECURSIVE EncCont(_)
Low7(v) == v[2] % 128
Shr7(v) == <<v[1] \div 128, (v[2] \div 128) + (v[1] % 128) * 512>>
SubSmall(v, m) == IF v[2] >= m THEN <<v[1], v[2] - m>> ELSE <<v[1] - 1, v[2] + 65536 - m>>
EncCont(v) == IF v[1] = 0 /\ v[2] < 128 THEN <<v[2]>>
              ELSE <<128 + Low7(v)>> \o EncCont(Shr7(v))
EncInt(v, prefix) ==
    LET m == Pow2(prefix) - 1
    IN IF v[1] = 0 /\ v[2] < m THEN <<v[2]>> ELSE <<m>> \o EncCont(SubSmall(v, m))

(*********************** Huffman strings, section 5.2 ***********************)
HuffInit == [node |-> 1, pend |-> 0, ones |-> TRUE, out |-> <<>>, bad |-> FALSE]
HuffBit(st, bit) ==
    IF st.bad THEN st
    ELSE LET c == HuffTree[st.node][bit + 1]
         IN IF c > 0 THEN [st EXCEPT !.node = c, !.pend = @ + 1, !.ones = @ /\ bit = 1]
            ELSE IF c = -257 THEN [st EXCEPT !.bad = TRUE]            \* EOS in a string
            ELSE [st EXCEPT !.node = 1, !.pend = 0, !.ones = TRUE, !.out = Append(@, (-c) - 1)]
HuffOctet(st, o) ==
    HuffBit(HuffBit(HuffBit(HuffBit(HuffBit(HuffBit(HuffBit(HuffBit(st,
        (o \div 128) % 2), (o \div 64) % 2), (o \div 32) % 2), (o \div 16) % 2),
        (o \div 8) % 2), (o \div 4) % 2), (o \div 2) % 2), o % 2)
HuffDecode(octets) ==
    LET st == FoldLeft(HuffOctet, HuffInit, octets)
    IN [ok |-> ~st.bad /\ st.pend < 8 /\ st.ones, val |-> st.out]
\* encoding: the codes one after the other, then ones up to the octet boundary
HuffEncode(str) ==
    LET bits == FoldLeft(LAMBDA a, o : a \o HuffCode[o + 1], <<>>, str)
        n == (Len(bits) + 7) \div 8
        bit(i) == IF i <= Len(bits) THEN bits[i] ELSE 1
    IN [k \in 1..n |-> LET z == 8 * (k - 1) IN
            bit(z+1)*128 + bit(z+2)*64 + bit(z+3)*32 + bit(z+4)*16 + bit(z+5)*8 + bit(z+6)*4 + bit(z+7)*2 + bit(z+8)]
HuffBits(str) == FoldLeft(LAMBDA a, o : a + HuffLen[o + 1], 0, str)

(********************** dynamic table, sections 2.3, 4 **********************)
EntrySize(e) == Len(e[1]) + Len(e[2]) + 32
SizeOf(ents) == FoldLeft(LAMBDA a, e : a + EntrySize(e), 0, ents)
NewTable(max) == [ents |-> <<>>, size |-> 0, max |-> max]

RECURSIVE Evict(_, _)
Evict(T, room) ==      \* drop the oldest entries until room octets fit under the maximum
    IF T.size + room <= T.max \/ T.ents = <<>> THEN T
    ELSE LET old == T.ents[Len(T.ents)]
         IN Evict([T EXCEPT !.ents = SubSeq(@, 1, Len(@) - 1), !.size = @ - EntrySize(old)], room)

Insert(T, e) ==
    IF EntrySize(e) > T.max THEN [T EXCEPT !.ents = <<>>, !.size = 0]
    ELSE LET U == Evict(T, EntrySize(e))
         IN [U EXCEPT !.ents = <<e>> \o @, !.size = @ + EntrySize(e)]
Resize(T, max) == Evict([T EXCEPT !.max = max], 0)

TableOK(T) == /\ T.size = SizeOf(T.ents)
              /\ T.size <= T.max
IndexOK(T, i) == i >= 1 /\ i <= 61 + Len(T.ents)
Lookup(T, i) == IF i <= 61 THEN StaticTable[i] ELSE T.ents[i - 61]

(*************************** header blocks, section 6 ***********************)
\* lim: greatest string length accepted; ulim: greatest table size update accepted
StrErr(p) == [ok |-> FALSE, val |-> <<>>, next |-> p]
DecStr(b, p, lim) ==
    IF p > Len(b) THEN StrErr(p)
    ELSE LET n == DecInt(b, p, 7)
             len == Small(n.val)
         IN IF ~n.ok THEN StrErr(p)
            ELSE IF len > Len(b) - n.next + 1 THEN StrErr(p)
            ELSE LET raw == SubSeq(b, n.next, n.next + len - 1)
                 IN IF b[p] >= 128
                    THEN LET h == HuffDecode(raw)
                         IN IF h.ok /\ Len(h.val) <= lim
                            THEN [ok |-> TRUE, val |-> h.val, next |-> n.next + len] ELSE StrErr(p)
                    ELSE IF len <= lim THEN [ok |-> TRUE, val |-> raw, next |-> n.next + len] ELSE StrErr(p)

FieldErr(T, p, why) == [ok |-> FALSE, why |-> why, hdr |-> <<>>, T |-> T, next |-> p]
DecLiteral(b, p, prefix, add, T, lim) ==
    LET ix == DecInt(b, p, prefix)
        i  == Small(ix.val)
    IN IF ~ix.ok THEN FieldErr(T, p, "index")
       ELSE IF i # 0 /\ ~IndexOK(T, i) THEN FieldErr(T, p, "index")
       ELSE LET nm == IF i = 0 THEN DecStr(b, ix.next, lim)
                      ELSE [ok |-> TRUE, val |-> Lookup(T, i)[1], next |-> ix.next]
            IN IF ~nm.ok THEN FieldErr(T, p, "name")
               ELSE LET vl == DecStr(b, nm.next, lim)
                    IN IF ~vl.ok THEN FieldErr(T, p, "value")
                       ELSE LET h == <<nm.val, vl.val>>
                            IN [ok |-> TRUE, why |-> "", hdr |-> <<h>>,
                                T |-> IF add THEN Insert(T, h) ELSE T, next |-> vl.next]

\* one representation at position p
DecField(b, p, T, lim, ulim) ==
    LET o == b[p]
    IN IF o >= 128 THEN
            LET ix == DecInt(b, p, 7)
                i == Small(ix.val)
            IN IF ix.ok /\ IndexOK(T, i)
               THEN [ok |-> TRUE, why |-> "", hdr |-> <<Lookup(T, i)>>, T |-> T, next |-> ix.next]
               ELSE FieldErr(T, p, "index")
       ELSE IF o >= 64 THEN DecLiteral(b, p, 6, TRUE, T, lim)
       ELSE IF o >= 32 THEN
            LET n == DecInt(b, p, 5)
            IN IF n.ok /\ Small(n.val) <= ulim
               THEN [ok |-> TRUE, why |-> "", hdr |-> <<>>, T |-> Resize(T, Small(n.val)), next |-> n.next]
               ELSE FieldErr(T, p, "update")
       ELSE DecLiteral(b, p, 4, FALSE, T, lim)

RECURSIVE DecFrom(_, _, _, _, _, _)
DecFrom(b, p, T, hs, lim, ulim) ==
    IF p > Len(b) THEN [ok |-> TRUE, why |-> "", hdrs |-> hs, T |-> T]
    ELSE LET f == DecField(b, p, T, lim, ulim)
         IN IF f.ok THEN DecFrom(b, f.next, f.T, hs \o f.hdr, lim, ulim)
            ELSE [ok |-> FALSE, why |-> f.why, hdrs |-> <<>>, T |-> T]
DecBlock(b, T, lim, ulim) == DecFrom(b, 1, T, <<>>, lim, ulim)

(* A strict client: size updates only at the start of a block, within its
   announced limit, and present if the limit fell below the size in use.   *)
RECURSIVE LeadingUpdates(_, _, _)
LeadingUpdates(b, p, acc) ==
    IF p <= Len(b) /\ b[p] >= 32 /\ b[p] < 64
    THEN LET n == DecInt(b, p, 5) IN IF n.ok THEN LeadingUpdates(b, n.next, Append(acc, Small(n.val))) ELSE [p |-> p, ups |-> acc]
    ELSE [p |-> p, ups |-> acc]
RECURSIVE StrictFrom(_, _, _, _)
StrictFrom(b, p, T, hs) ==
    IF p > Len(b) THEN [ok |-> TRUE, why |-> "", hdrs |-> hs, T |-> T]
    ELSE IF b[p] >= 32 /\ b[p] < 64 THEN [ok |-> FALSE, why |-> "late size update", hdrs |-> <<>>, T |-> T]
    ELSE LET f == DecField(b, p, T, 16777216, 0)
         IN IF f.ok THEN StrictFrom(b, f.next, f.T, hs \o f.hdr)
            ELSE [ok |-> FALSE, why |-> f.why, hdrs |-> <<>>, T |-> T]
\* limit: largest update now permitted; low: smallest limit announced since the last block
StrictBlock(b, T, limit, low) ==
    LET lead == LeadingUpdates(b, 1, <<>>)
        T2 == FoldLeft(LAMBDA X, n : Resize(X, n), T, lead.ups)
        mins == FoldLeft(LAMBDA a, n : IF n < a THEN n ELSE a, T.max, lead.ups)
    IN IF \E k \in 1..Len(lead.ups) : lead.ups[k] > limit
       THEN [ok |-> FALSE, why |-> "size update above limit", hdrs |-> <<>>, T |-> T]
       ELSE IF mins > low
       THEN [ok |-> FALSE, why |-> "missing size update", hdrs |-> <<>>, T |-> T]
       ELSE StrictFrom(b, lead.p, T2, <<>>)
=============================================================================
