------------------------------ MODULE JointGen ------------------------------
(***************************************************************************)
(* Joint generation of sharings (R01, R02): every party deals a sharing,   *)
(* the results are the images of the dealt sharings under a matrix M with  *)
(* one column per party. A state is what a coalition of T parties knows:   *)
(* the sharings it dealt and its shares of the others' sharings, which     *)
(* arrive one after the other. For every such knowledge each outcome is    *)
(* caused by equally many choices of the others.                           *)
(***************************************************************************)
EXTENDS Share, TLC
CONSTANTS N, T, L, Kind, Mat       \* Kind: "rand", "zero", "bit"; Mat: "good", "bad"
Parties == 1..N
Xs == Map(N, LAMBDA i : i - 1)
Pos == Map(L, LAMBDA i : N + i - 1)
D == IF Kind = "zero" THEN N - 1 ELSE T + L - 1
SecRows == SecretRows(Xs, Pos, D)
Sec(s) == SecretsBy(SecRows, D, s)
\* The sharings a party may deal.
Dealable == { s \in AllSharings(Xs, D) :
                CASE Kind = "rand" -> TRUE
                  [] Kind = "zero" -> \A k \in 1..L : Sec(s)[k] = 0
                  [] Kind = "bit" -> \A k \in 1..L : Sec(s)[k] \in {0, 1} }
\* Powers of the points 1..n; two equal columns for the bad one; one parity row for bits.
PowAt(x, k) == FoldLeft(LAMBDA a, i : Mul(a, x), 1, Map(k, LAMBDA i : i))
Matrix == IF Kind = "bit" THEN << Map(N, LAMBDA p : IF Mat = "bad" /\ p > 1 THEN 0 ELSE 1) >>
          ELSE Map(N - T, LAMBDA r : Map(N, LAMBDA p : PowAt(IF Mat = "bad" /\ p = N THEN 1 ELSE p, r)))
Rws == Len(Matrix)
Comb(row, ds) == Map(N, LAMBDA q : Dot(row, Map(N, LAMBDA p : ds[p][q])))
Results(ds) == Map(Rws, LAMBDA r : Comb(Matrix[r], ds))
VARIABLES co, known, at
vars == <<co, known, at>>
Init == co \in { C \in SUBSET Parties : Cardinality(C) = T } /\ at = 0 /\ known = <<>>
\* The next party deals; the coalition learns the sharing or its shares of it.
Learns(C, p, s) == IF p \in C THEN s ELSE Map(N, LAMBDA q : IF q \in C THEN s[q] ELSE -1)
Deal == /\ at < N /\ at' = at + 1 /\ UNCHANGED co
        /\ \E s \in Dealable : known' = Append(known, Learns(co, at + 1, s))
Next == Deal
Spec == Init /\ [][Next]_vars
Fits(p) == { s \in Dealable : Learns(co, p, s) = known[p] }
RECURSIVE Deals(_)
Deals(k) == IF k = 0 THEN {<<>>} ELSE { Append(c, s) : c \in Deals(k - 1), s \in Fits(k) }
\* What the results may be: all sharings of the kind that agree with the coalition's shares of them.
Fixed(r) == Map(N, LAMBDA q : IF q \in co THEN Dot(Matrix[r], Map(N, LAMBDA p : known[p][q])) ELSE -1)
Possible(r) == { s \in Dealable : \A q \in co : s[q] = Fixed(r)[q] }
Outcomes == IF Rws = 1 THEN { <<a>> : a \in Possible(1) } ELSE { <<a, b>> : a \in Possible(1), b \in Possible(2) }
Unpredictable ==
  at = N => LET all == Deals(N)
                res == [c \in all |-> Results(c)]
                img == { res[c] : c \in all }
            IN /\ img = Outcomes
               /\ \A o \in {CHOOSE x \in img : TRUE} \cup {res[CHOOSE c \in all : TRUE]} :
                    Cardinality({ c \in all : res[c] = o }) * Cardinality(img) = Cardinality(all)
\* Every result is of the kind (R01).
Valid == at = N => \A c \in Deals(N) : \A r \in 1..Rws : Results(c)[r] \in Dealable
=============================================================================
