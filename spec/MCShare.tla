------------------------------ MODULE MCShare -------------------------------
(***************************************************************************)
(* Registers holding sharings and local operations on them (S01, S02), all *)
(* tamperings (S03) and all views (S04), exhaustively for a small field.   *)
(***************************************************************************)
EXTENDS Share
CONSTANTS N, L, T           \* parties, secrets, privacy threshold
Xs == [i \in 1..N |-> i - 1]
Pos == [i \in 1..L |-> N + i - 1]
D == T + L - 1
CRows == [d \in 0..(N - 1) |-> CheckRows(Xs, d)]
SRows == [d \in 0..(N - 1) |-> SecretRows(Xs, Pos, d)]
Sec(d, s) == SecretsBy(SRows[d], d, s)
All == AllSharings(Xs, D)
VARIABLES b, deg, sh, sec    \* a dealt sharing of degree D and a register operated on with it
vars == <<b, deg, sh, sec>>
Init == /\ sh \in All /\ b \in All /\ deg = D /\ sec = Sec(D, sh)
OpAdd == deg' = deg /\ sh' = AddSeq(sh, b) /\ sec' = AddSeq(sec, Sec(D, b))
OpScale(c) == deg' = deg /\ sh' = Scale(c, sh) /\ sec' = Scale(c, sec)
OpConst(c) == deg' = deg /\ sh' = [i \in 1..N |-> sh[i] ^^ c] /\ sec' = [i \in 1..L |-> sec[i] ^^ c]
OpMul == deg + D < N /\ deg' = deg + D /\ sh' = MulSeq(sh, b) /\ sec' = MulSeq(sec, Sec(D, b))
Next == /\ (OpAdd \/ OpMul \/ \E c \in Elem : OpScale(c) \/ OpConst(c))
        /\ UNCHANGED b
\* Fewer initial states for larger parameters.
Init3 == b \in { x \in All : x[1] = 5 /\ x[2] \in {0, 1} /\ x[3] \in {1, 6} } /\ sh \in All /\ deg = D /\ sec = Sec(D, sh)
Init4 == b \in { x \in All : x[1] = 5 } /\ sh \in All /\ deg = D /\ sec = Sec(D, sh)
Spec == Init /\ [][Next]_vars
Homomorphic == ConsistentBy(CRows[deg], deg, sh) /\ Sec(deg, sh) = sec
\* Every change of at most N - deg - 1 shares of the register is detected.
Changes(k) == { q \in SUBSET (1..N) : Cardinality(q) <= k /\ q # {} }
Tamper == \A q \in Changes(N - deg - 1) : \A v \in [q -> Elem] :
            (\E p \in q : v[p] # sh[p]) => ~ConsistentBy(CRows[deg], deg, [i \in 1..N |-> IF i \in q THEN v[i] ELSE sh[i]])
\* Any T shares are uniform, given the secrets.
Private == \A q \in { x \in SUBSET (1..N) : Cardinality(x) = T } :
             /\ Cardinality({ <<Sec(D, x), View(x, q)>> : x \in All }) = Order^(L + T)
             /\ Cardinality(All) = Order^(L + T)
ASSUME Private
=============================================================================
