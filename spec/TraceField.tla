----------------------------- MODULE TraceField -----------------------------
(* Validates recorded arithmetic of all fields against Field. *)
EXTENDS Field, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<fvars, l>>
E == Trace[l]
TraceInit == FInit /\ l = 1
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
\* A new process: the polynomials stay what they were.
TNew == IsEvent("init") /\ UNCHANGED fvars
TField == /\ IsEvent("field") /\ E.order = 2^E.w
          /\ E.zero = <<0, 0>> /\ E.one = <<1, 1>>
          /\ Meet(E.w, E.poly)
TOps == IsEvent("ops") /\ OpsRight(E.w, E) /\ last' = <<E.w>> /\ UNCHANGED met
TConv == IsEvent("conv") /\ ConvRight(E.w, E) /\ last' = <<E.w>> /\ UNCHANGED met
TraceNext == TNew \/ TField \/ TOps \/ TConv
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
