------------------------------ MODULE HpackMC ------------------------------
(* Design model: an encoder and a decoder which share a header compression
   context, one header block after the other.  The encoder chooses freely among
   all representations RFC 7541 offers.  Checked exhaustively for small
   alphabets (HpackMC.cfg): whatever the encoder chose, the decoder recovers the
   header list and the two tables stay equal.  With Record = TRUE every complete
   behaviour is printed, to be replayed in the real decoder.                  *)
EXTENDS Hpack, TLC, Json, FiniteSets
CONSTANTS NameLens, ValueLens,  \* entries are made of strings of these lengths
          Sizes,                \* table size updates
          MaxBlocks, MaxFields, Record, StartSize,
          Few                   \* fewer representations, for exhaustive search
VARIABLES E, D,       \* tables of encoder and decoder
          blk, hdrs,  \* the block being built and what it is meant to say
          nf, nb,     \* fields in it, blocks done
          good,       \* every block so far was decoded to what was meant
          hist
vars == <<E, D, blk, hdrs, nf, nb, good, hist>>

Letters == <<120, 121>>
Strs(lens) == UNION {{[i \in 1..n |-> Letters[k]] : k \in 1..2} : n \in lens}
Names == Strs(NameLens)
Vals == Strs(ValueLens)

Init == /\ E = NewTable(StartSize) /\ D = NewTable(StartSize)
        /\ blk = <<>> /\ hdrs = <<>> /\ nf = 0 /\ nb = 0 /\ good = TRUE /\ hist = <<>>

Pat(octets, bits) == <<octets[1] + bits>> \o Tail(octets)
Limb(n) == <<n \div 65536, n % 65536>>
StrLit(s, huff) == IF huff THEN LET h == HuffEncode(s) IN Pat(EncInt(Limb(Len(h)), 7), 128) \o h
                   ELSE EncInt(Limb(Len(s)), 7) \o s

\* an update is only allowed at the start of a block
Update(n) == /\ nf = 0 /\ Len(blk) < 3 /\ nb < MaxBlocks
             /\ E' = Resize(E, n)
             /\ blk' = blk \o Pat(EncInt(Limb(n), 5), 32)
             /\ UNCHANGED <<D, hdrs, nf, nb, good, hist>>

Put(bytes, h, T2) == /\ blk' = blk \o bytes /\ hdrs' = Append(hdrs, h) /\ E' = T2
                     /\ nf' = nf + 1 /\ UNCHANGED <<D, nb, good, hist>>

Pick(S) == IF Few THEN S ELSE {RandomElement(S)}
Huffs == IF Few THEN {FALSE} ELSE BOOLEAN
SomeIndex == (IF Few THEN {1} ELSE {1, 2, 4, 15, 61}) \cup (62 .. 61 + Len(E.ents))
Indexed == \E i \in SomeIndex : Put(Pat(EncInt(Limb(i), 7), 128), Lookup(E, i), E)
\* form: 6/64 incremental, 4/0 without, 4/16 never
Forms == IF Few THEN {<<6, 64>>, <<4, 0>>} ELSE {<<6, 64>>, <<4, 0>>, <<4, 16>>}
LitIdx == \E f \in Forms, i \in Pick(SomeIndex \ {2, 4}), v \in Pick(Vals), hf \in Huffs :
            LET h == <<Lookup(E, i)[1], v>>
            IN Put(Pat(EncInt(Limb(i), f[1]), f[2]) \o StrLit(v, hf), h, IF f[1] = 6 THEN Insert(E, h) ELSE E)
LitNew == \E f \in Forms, n \in Pick(Names), v \in Pick(Vals), hn \in Huffs, hv \in Huffs :
            Put(<<f[2]>> \o StrLit(n, hn) \o StrLit(v, hv), <<n, v>>, IF f[1] = 6 THEN Insert(E, <<n, v>>) ELSE E)
Field == nf < MaxFields /\ nb < MaxBlocks /\ (Indexed \/ LitIdx \/ LitNew)

Deliver == /\ nf > 0
           /\ LET r == DecBlock(blk, D, 4096, 65536)
              IN /\ good' = (good /\ r.ok /\ r.hdrs = hdrs)
                 /\ D' = r.T
           /\ nb' = nb + 1 /\ nf' = 0 /\ blk' = <<>> /\ hdrs' = <<>>
           /\ hist' = IF Record THEN Append(hist, [bytes |-> blk, hdrs |-> hdrs]) ELSE hist
           /\ UNCHANGED E
           /\ IF Record /\ nb' = MaxBlocks THEN PrintT("BEH " \o ToJson(hist')) ELSE TRUE
Next == (\E n \in Sizes : Update(n)) \/ Field \/ Deliver
Spec == Init /\ [][Next]_vars

Recovered == good
InSync == nf = 0 /\ blk = <<>> => D = E
Bounded == TableOK(E) /\ TableOK(D)
=============================================================================
