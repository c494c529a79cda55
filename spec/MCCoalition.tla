---------------------------- MODULE MCCoalition ----------------------------
(***************************************************************************)
(* What a coalition of T parties holds and receives when a product is      *)
(* opened to a leader and dealt again (P05), for all coins over a small    *)
(* field. A state is a choice of secrets, coalition and leader; the joint  *)
(* views are compared with those of the secrets 0.                         *)
(***************************************************************************)
EXTENDS Share, TLC
CONSTANTS N, T, L, How  \* How: "right", "thin" (masks of degree L-1), "bare" (no zero sharing)
Xs == [i \in 1..N |-> i - 1]
Pos == [i \in 1..L |-> N + i - 1]
D == T + L - 1
Secs == [1..L -> Elem]
Zero == [i \in 1..L |-> 0]
Low == [s \in Secs |-> SharingsOf(Xs, Pos, D, s)]
R == AllSharings(Xs, IF How = "thin" THEN L - 1 ELSE D)
Z == SharingsOf(Xs, Pos, N - 1, Zero)
Of(s, C) == [p \in C |-> s[p]]
\* The value opened, and the view of coalition C: what it holds of x, y, r, z and what it receives from others.
Opened(x, y, r, z) == AddSeq(AddSeq(MulSeq(x, y), r), IF How = "bare" THEN [i \in 1..N |-> 0] ELSE z)
Sum(a, b) == SecretsOf(Xs, Pos, N - 1, AddSeq(a, b))
Views(sx, sy, C, leader) ==
  IF leader \in C
    THEN { <<Of(x, C), Of(y, C), Of(r, C), Of(z, C), Of(Opened(x, y, r, z), (1..N) \ C)>> : x \in Low[sx], y \in Low[sy], r \in R, z \in Z }
    ELSE UNION { LET e == Sum(MulSeq(x, y), r) IN { <<Of(x, C), Of(y, C), Of(r, C), Of(n, C)>> : n \in Low[e] } : x \in Low[sx], y \in Low[sy], r \in R }
Base == [C \in { C \in SUBSET (1..N) : Cardinality(C) = T }, q \in 1..N |-> Views(Zero, Zero, C, q)]
VARIABLES done, sx, sy, coal, leader
vars == <<done, sx, sy, coal, leader>>
Init == /\ sx = Zero /\ sy = Zero /\ done = FALSE
        /\ coal \in { C \in SUBSET (1..N) : Cardinality(C) = T }
        /\ leader \in 1..N
Next == /\ ~done /\ done' = TRUE
        /\ sx' \in Secs /\ sy' \in Secs
        /\ UNCHANGED <<coal, leader>>
Spec == Init /\ [][Next]_vars
Independent == Views(sx, sy, coal, leader) = Base[coal, leader]
=============================================================================
