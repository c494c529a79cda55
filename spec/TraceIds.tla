------------------------------ MODULE TraceIds ------------------------------
(* Judges recorded identifiers: sufficient, distinct in the whole tree, reproducible. *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, families
E == Trace[l]
TraceInit == l = 1 /\ families = 0
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Range(s) == { s[i] : i \in 1..Len(s) }
TFamily == /\ IsEvent("family")
           /\ Len(E.ids) = E.bound /\ Cardinality(Range(E.ids)) = E.bound
           /\ E.bound > 0 => E.parent \notin Range(E.ids)
           /\ E.again
           /\ families' = families + 1
TLarge == /\ IsEvent("large") /\ E.got = E.bound /\ E.distinct = E.bound
          /\ families' = families + 1
TTree == /\ IsEvent("tree") /\ Cardinality(Range(E.ids)) = Len(E.ids)
         /\ families' = families + 1
TraceNext == TFamily \/ TLarge \/ TTree
TraceSpec == TraceInit /\ [][TraceNext]_<<l, families>>
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
