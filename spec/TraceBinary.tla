---------------------------- MODULE TraceBinary -----------------------------
(***************************************************************************)
(* Validates recorded binary extraction matrices (M05): the matrix read is *)
(* the transposed file, and it keeps full rank without the inputs of any t *)
(* parties, i.e. no sum of a non-empty set of rows has weight t or less.   *)
(* With up to 14 rows all sums are enumerated (in Gray code order); for    *)
(* more rows sums of few rows, and sets of removed inputs with an inverse  *)
(* of the matrix restricted to a basis of the rest.                        *)
(* Rows are sequences of integers holding 24 columns each.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
H == Trace[1]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TInit == /\ IsEvent("init")
         /\ E.read = E.file /\ Len(E.read) = E.n
         /\ Len(E.rows) = E.k
XorRow(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
Zero == [i \in 1..((H.n + 23) \div 24) |-> 0]
Count == [v \in 0..4095 |-> Cardinality({ i \in 0..11 : (v \div 2^i) % 2 = 1 })]
Weight(a) == FoldLeft(LAMBDA acc, v : acc + Count[v % 4096] + Count[v \div 4096], 0, a)
SumOf(rows) == FoldLeft(LAMBDA acc, r : XorRow(acc, H.rows[r]), Zero, rows)
\* Lowest set bit of i, counted from 1: the row to flip in step i of the Gray code.
Flip(i) == CHOOSE j \in 1..20 : i % 2^j # 0 /\ i % 2^(j - 1) = 0
\* All non-empty sums, 128 at a time to keep the stack small.
AllHeavy == LET step(acc, i) == IF acc.ok THEN LET s == XorRow(acc.s, H.rows[Flip(i)])
                                               IN [s |-> s, ok |-> Weight(s) > H.t] ELSE acc
            IN FoldLeft(step, [s |-> Zero, ok |-> TRUE], [i \in 1..(2^H.k - 1) |-> i]).ok
TDistance == IsEvent("distance") /\ AllHeavy
TSum == IsEvent("sum") /\ Weight(SumOf(E.rows)) > H.t
        
Col(r, c) == (H.rows[r][((c - 1) \div 24) + 1] \div 2^((c - 1) % 24)) % 2
\* inv * (rows restricted to the basis) = identity
TRemoved == /\ IsEvent("removed")
            /\ Len(E.gone) <= H.t /\ Len(E.basis) = H.k /\ Len(E.inv) = H.k
            /\ \A i \in 1..H.k : E.basis[i] \notin { E.gone[j] : j \in 1..Len(E.gone) }
            /\ \A i \in 1..H.k :
                 LET s == SumOf(SelectSeq([j \in 1..H.k |-> j], LAMBDA j : E.inv[i][j] = 1))
                 IN \A j \in 1..H.k : LET c == E.basis[j] IN
                      (s[((c - 1) \div 24) + 1] \div 2^((c - 1) % 24)) % 2 = IF i = j THEN 1 ELSE 0
TraceInit == l = 1
TraceNext == TInit \/ TDistance \/ TSum \/ TRemoved
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
