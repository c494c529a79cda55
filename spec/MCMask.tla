------------------------------- MODULE MCMask -------------------------------
(***************************************************************************)
(* What the leader sees (P03), counted over all masks for a small field.   *)
(* A state is a choice of the secret; the views of the leader for all      *)
(* masks and all sharings of the secret are compared with those of 0.      *)
(***************************************************************************)
EXTENDS Share, TLC
CONSTANTS N, T, L, Leaky      \* Leaky: "no", "reuse" (one mask for two openings), "nozero" (degree t+l-1 mask on products)
Xs == [i \in 1..N |-> i - 1]
Pos == [i \in 1..L |-> N + i - 1]
D == T + L - 1
R == AllSharings(Xs, D)
Z == SharingsOf(Xs, Pos, N - 1, [i \in 1..L |-> 0])
Masks == { AddSeq(r, z) : r \in R, z \in Z }
\* r + z takes every value equally often.
Even == \A y \in { AddSeq(r, z) : r \in { r \in R : r[1] = 0 /\ r[2] = 1 }, z \in Z } :
          Cardinality({ <<r, z>> \in R \X Z : AddSeq(r, z) = y }) * Order^N = Cardinality(R) * Cardinality(Z)
Secs == [1..L -> Elem]
Sharings == [s \in Secs |-> SharingsOf(Xs, Pos, D, s)]
Sh(s) == Sharings[s]
View1(s) == { AddSeq(MulSeq(x, y), m) : x \in Sh(s), y \in Sh(s), m \in IF Leaky = "nozero" THEN R ELSE Masks }
View2(s) == { <<AddSeq(x, m), AddSeq(y, m)>> : x \in Sh(s), y \in Sh([i \in 1..L |-> 0]), m \in Masks }
Zero == [i \in 1..L |-> 0]
V10 == View1(Zero)
V20 == View2(Zero)
ASSUME Leaky # "no" \/ Even
VARIABLE s
Init == s \in Secs
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Independent == IF Leaky = "reuse" THEN View2(s) = V20 ELSE View1(s) = V10
=============================================================================
