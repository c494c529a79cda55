---------------------------- MODULE TraceSample -----------------------------
(* Judges recorded samples of random field elements (M03): every histogram is one of independent uniform samples. *)
EXTENDS Stat, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TInit == IsEvent("init")
THist == IsEvent("hist") /\ (Uniform(E) = TRUE)
TPoints == IsEvent("points") /\ \A i \in 1..Len(E.counts) : Near(E.counts[i], E.mean)
TraceInit == l = 1
TraceNext == TInit \/ THist \/ TPoints
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
