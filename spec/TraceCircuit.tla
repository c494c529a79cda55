---------------------------- MODULE TraceCircuit ----------------------------
(* Validates what the code loads, evaluates and packs against Circuit. *)
EXTENDS Circuit, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c
tvars == <<l, c>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TFile == /\ IsEvent("init") /\ c' = [nw |-> E.nw, inw |-> E.inw, outw |-> E.outw, gates |-> E.gates]
         /\ ((E.nw > 2000 \/ WellFormed(c')) = TRUE)     \* shipped circuits are assumed well-formed
LoadedRight(x) == /\ x.gates = c.gates /\ x.wires = c.nw
                  /\ x.inputs = InputGroups(c) /\ x.outputs = OutputGroups(c)
TLoaded == IsEvent("loaded") /\ (LoadedRight(E) = TRUE) /\ UNCHANGED c
\* Several evaluations: parallel sequences of inputs and outputs.
TEval == /\ IsEvent("eval") /\ UNCHANGED c
         /\ ((\A k \in 1..Len(E.inp) : E.out[k] = Eval(c, E.inp[k])) = TRUE)
PackedRight(x) ==
  /\ PackRight(c, x.k, x)
  /\ x.wires = c.nw /\ x.perblock = x.k
  /\ x.counts = <<BlockCount(c, x.k, "AND"), BlockCount(c, x.k, "XOR"), BlockCount(c, x.k, "INV")>>
TPack == IsEvent("pack") /\ (PackedRight(E) = TRUE) /\ UNCHANGED c
TraceInit == l = 1 /\ c = <<>>
TraceNext == TFile \/ TLoaded \/ TEval \/ TPack
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
