---------------------------- MODULE TraceCollect ----------------------------
(* Validates recorded collections against Collect. *)
EXTENDS Collect, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<cvars, l>>
E == Trace[l]
TraceInit == CInit(Trace[1].n) /\ l = 2
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TReset == /\ IsEvent("init") /\ ~MustReturn
          /\ n' = E.n /\ pool' = <<>> /\ other' = <<>>
          /\ got' = [p \in 0..(E.n - 1) |-> 0]
          /\ called' = FALSE /\ returned' = FALSE /\ arrived' = <<>>
TArrive == IsEvent("arrive") /\ IF E.id = 0 THEN ArriveHere(E.p, E.m) ELSE ArriveOther(E.m)
TCall == IsEvent("call") /\ Call
TRet == IsEvent("ret") /\ Ret /\ E.out = Result
TWaiting == IsEvent("waiting") /\ called /\ ~returned /\ ~Complete /\ UNCHANGED cvars
\* Later receives under the other ID get exactly its messages; under the collected ID they get all
\* messages that came after the call was complete and none that it returned.
TLeft == /\ IsEvent("left")
         /\ IF E.id = 1 THEN E.m = other
            ELSE LET after == [i \in 1..Len(pool) |-> pool[i].m]
                 IN /\ SelectSeq(E.m, LAMBDA m : m \in { after[i] : i \in 1..Len(after) }) = after
                    /\ \A i \in 1..Len(E.m) : \A p \in Parties : E.m[i] # got[p]
         /\ UNCHANGED cvars
TraceNext == TReset \/ TArrive \/ TCall \/ TRet \/ TWaiting \/ TLeft
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter, Len(Trace)>>)
                 /\ TLCGet("stats").diameter = Len(Trace)
=============================================================================
