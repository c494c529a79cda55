----------------------------- MODULE GenBarrier -----------------------------
(* Schedules of entering and delivery of Barrier, for replay on the code. *)
EXTENDS Barrier, TLC, CSV, IOUtils, Json
CONSTANT MaxLen
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == /\ Len(hist) < MaxLen
         /\ \/ \E p \in Party : Enter(p) /\ hist' = Append(hist, <<p, 65535>>)
            \/ \E p, q \in Party : Deliver(p, q) /\ hist' = Append(hist, <<p, q>>)
            \/ \E p \in Party : (Take(p) \/ Advance(p)) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = MaxLen => CSVWrite("%1$s", <<ToJson([n |-> Cardinality(Party), rounds |-> Rounds, steps |-> hist])>>, IOEnv.GEN)
=============================================================================
