------------------------------- MODULE GenNet -------------------------------
(* Behaviours of the contract NetAPI with a history of calls and arrivals, for replay on the code. *)
EXTENDS NetAPI, TLC, CSV, IOUtils, Json
CONSTANTS Ids, MaxSend, MaxLen
VARIABLES hist, k
Init == APIInit /\ hist = <<>> /\ k = 0
Log(x) == hist' = Append(hist, x)
GSend == \E p \in Party, to \in Party \cup {All}, id \in Ids :
           /\ Send(p, to, [id |-> id, dig |-> Len(hist), len |-> 0, idlen |-> 0])
           /\ Log([a |-> "send", p |-> p, q |-> 0, to |-> to, id |-> id]) /\ UNCHANGED k
GRecv == \E q \in Party, id \in Ids :
           /\ Recv(q, id, k + 1) /\ k' = k + 1
           /\ Log([a |-> "recv", p |-> 0, q |-> q, to |-> 0, id |-> id])
GArrive == \E p, q \in Party : Arrive(p, q) /\ Log([a |-> "arrive", p |-> p, q |-> q, to |-> 0, id |-> 0]) /\ UNCHANGED k
GReturn == \E q, p \in Party : \E r \in pend[q] : \E i \in 1..arr[p][q] :
             Return(q, r.k, p, i) /\ UNCHANGED <<hist, k>>
GNext == Len(hist) < MaxLen /\ (GSend \/ GRecv \/ GArrive \/ GReturn)
GSpec == Init /\ [][GNext]_<<apivars, hist, k>>
Emit == Len(hist) = MaxLen => CSVWrite("%1$s", <<ToJson([n |-> Cardinality(Party), steps |-> hist])>>, IOEnv.GEN)
=============================================================================
