---------------------------- MODULE TraceBarrier ----------------------------
(* Validates recorded synchronizations: entering and leaving are observed. *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, round, inside
tvars == <<l, round, inside>>
E == Trace[l]
Party == 0..(Trace[1].n - 1)
Entered(p) == round[p] + (IF inside[p] THEN 1 ELSE 0)
TraceInit == l = 2 /\ round = [p \in Party |-> 0] /\ inside = [p \in Party |-> FALSE]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TEnter == /\ IsEvent("enter") /\ ~inside[E.p] /\ E.k = round[E.p]
          /\ inside' = [inside EXCEPT ![E.p] = TRUE] /\ UNCHANGED round
TLeave == /\ IsEvent("leave") /\ inside[E.p] /\ E.k = round[E.p]
          /\ \A q \in Party : Entered(q) > E.k
          /\ inside' = [inside EXCEPT ![E.p] = FALSE]
          /\ round' = [round EXCEPT ![E.p] = @ + 1]
\* Messages under another ID are not affected.
TOther == IsEvent("other") /\ E.ok /\ UNCHANGED <<round, inside>>
TEnd == /\ IsEvent("end") /\ E.status = "done" /\ E.left = 0
        /\ \A p \in Party : round[p] = E.rounds /\ ~inside[p]
        /\ UNCHANGED <<round, inside>>
TReset == /\ IsEvent("init") /\ E.n = Trace[1].n /\ Trace[l - 1].e = "end"
          /\ round' = [p \in Party |-> 0] /\ inside' = [p \in Party |-> FALSE]
TraceNext == TEnter \/ TLeave \/ TOther \/ TEnd \/ TReset
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Safe == \A p, q \in Party : round[p] <= Entered(q)
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter, Len(Trace)>>)
                 /\ TLCGet("stats").diameter = Len(Trace) /\ Trace[Len(Trace)].e = "end"
=============================================================================
