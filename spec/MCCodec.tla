------------------------------ MODULE MCCodec -------------------------------
(* What was encoded is decoded: all elements and short sequences of fields up to W bits, all small material. *)
EXTENDS Codec, FiniteSets
CONSTANTS MaxW, MaxLen
VARIABLES w, s, m
SeqsOver(n, S) == UNION { [1..k -> S] : k \in 0..n }
Few(x) == IF x <= 2 THEN 0..(2^x - 1) ELSE { 0, 1, 2^(x - 1), 2^x - 1 }
Mats == { [masks |-> [i \in 1..b |-> i % 2],
           keys |-> [c \in 1..2 |-> [k \in 1..kl |-> [x \in 1..b |-> (4 * c + 2 * k + x) % 8]]],
           randoms |-> r] : b \in 1..3, kl \in 0..3, r \in { <<>>, <<5>>, <<1, 0, 7>> } }
Init == /\ w \in 1..MaxW /\ m \in Mats
        /\ s \in SeqsOver(MaxLen, Few(w)) \cup { <<v>> : v \in 0..(2^w - 1) }
Next == UNCHANGED <<w, s, m>>
Spec == Init /\ [][Next]_<<w, s, m>>
RoundTrip == DecSeq(w, EncSeq(w, s)) = s
Size == Len(EncSeq(w, s)) = 1 + SeqSize(w, s) /\ 256^NumBytes(w) >= 2^w /\ 256^(NumBytes(w) - 1) < 2^w
MatTrip == w >= 3 => DecMat(w, EncMat(w, m)) = m
=============================================================================
