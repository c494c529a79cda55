------------------------------- MODULE MCCost -------------------------------
EXTENDS Cost
CONSTANTS MaxN, MaxL, MaxKey, MaxMssg, MaxBlocks
VARIABLES x, b
Init == /\ x \in {y \in [n : 3..MaxN, t : 0..2, l : 1..MaxL, key : 1..MaxKey, mssg : 1..MaxMssg, dim : {1, MaxN}] :
                    y.n >= 2 * y.t + 2 * y.l - 1 /\ y.n >= y.t + 2 * y.l}
        /\ b \in [nin : 1..2, na : 0..MaxBlocks, nx : 0..MaxBlocks, ni : 0..1]
Next == UNCHANGED <<x, b>>
Spec == Init /\ [][Next]_<<x, b>>
Never == NeverMore(x, b)
Equal == EqualIfFull(x, b)
Near == NearlyEqual(x, b)
\* must fail: batches that are not full are counted differently
Always == EstGarbling(x, b) = SentGarbling(x, b)
=============================================================================
