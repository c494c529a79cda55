----------------------------- MODULE MCCollect ------------------------------
(* All arrival sequences; Emit writes each of them for replay on the code. *)
EXTENDS Collect, TLC, CSV, IOUtils, Json
CONSTANTS N, MaxLen, MaxOther
VARIABLE hist
Init == CInit(N) /\ hist = <<>>
Next == \/ /\ Len(hist) < MaxLen
           /\ \/ \E p \in Parties : ArriveHere(p, Len(hist) + 1) /\ hist' = Append(hist, <<p, 0>>)
              \/ /\ Len(other) < MaxOther
                 /\ \E p \in Parties : ArriveOther(Len(hist) + 1) /\ hist' = Append(hist, <<p, 1>>)
        \/ Call /\ UNCHANGED hist
        \/ Ret /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<cvars, hist>>
\* Generation: arrivals only.
GenNext == /\ Len(hist) < MaxLen
           /\ \/ \E p \in Parties : ArriveHere(p, Len(hist) + 1) /\ hist' = Append(hist, <<p, 0>>)
              \/ /\ Len(other) < MaxOther
                 /\ \E p \in Parties : ArriveOther(Len(hist) + 1) /\ hist' = Append(hist, <<p, 1>>)
GenSpec == Init /\ [][GenNext]_<<cvars, hist>>
Emit == CSVWrite("%1$s", <<ToJson([n |-> N, arr |-> hist])>>, IOEnv.GEN)
=============================================================================
