------------------------------ MODULE GenProto ------------------------------
(* Schedules of Proto: the order in which links deliver, for replay. *)
EXTENDS MCProto, Json, IOUtils, CSV
VARIABLE h
gvars == <<ph, link, pool, out, h>>
GInit == Init /\ h = <<>>
GStep == \/ \E i \in I, p \in Parties : (Open(i, p) \/ Finish(i, p)) /\ h' = h
         \/ \E i \in I : Collect(i) /\ h' = h
         \/ \E p, q \in Parties : Deliver(p, q) /\ h' = Append(h, <<p, q>>)
Over == /\ AllDone /\ UNCHANGED gvars
        /\ CSVWrite("%1$s", <<ToJson([steps |-> h, leaders |-> <<LeaderA, LeaderB>>, after |-> After])>>, IOEnv.GEN)
GNext == GStep \/ Over
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
