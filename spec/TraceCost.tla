----------------------------- MODULE TraceCost -----------------------------
(***************************************************************************)
(* Validates recorded traffic of garbling and preprocessing, and what the  *)
(* script for communication estimates prints for the same circuit (E01).   *)
(***************************************************************************)
EXTENDS Cost, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TInit == IsEvent("init")
\* Elements sent in a run of each protocol between all pairs of parties.
TTraffic == /\ IsEvent("traffic")
            /\ E.garble = SentGarbling(E.x, E.b)
            /\ E.preproc = SentPreproc(E.x, E.b)
\* --- printed figures: p thousandths of unit u (0: bytes, 1: 1000 bytes, 2: 10^6 bytes), the share of one party ---
Abs(a) == IF a < 0 THEN -a ELSE a
AsPrinted(p, u, n, bytes) ==
  CASE u = 0 -> 2 * Abs(p * n - 1000 * bytes) <= n
    [] u = 1 -> 2 * Abs(p * n - bytes) <= n
    [] OTHER -> 2 * Abs(1000 * p * n - bytes) <= 1000 * n
Figure(ls, phase, label) == {i \in 1..Len(ls) : ls[i][1] = phase /\ ls[i][2] = label}
Shows(x, size, ls, phase, label, elements) ==
  /\ Cardinality(Figure(ls, phase, label)) = 1
  /\ \A i \in Figure(ls, phase, label) : AsPrinted(ls[i][3], ls[i][4], x.n, elements * size)
\* The blocks that the estimate assumes: all gates of a kind packed together.
Dense(x, c) == [nin |-> Ceil(c.inputs, x.l), na |-> Ceil(c.ands, x.l), nx |-> Ceil(c.xors, x.l), ni |-> 0]
EstimateRight(x, b, size, ls) ==
  /\ Shows(x, size, ls, "Garbling", "Transform masks and labels", EstTrans(x, b))
  /\ Shows(x, size, ls, "Garbling", "Compute plaintexts", SentPlain(x, b))
  /\ Shows(x, size, ls, "Garbling", "Total", EstGarbling(x, b))
  /\ Shows(x, size, ls, "Preprocessing", "Generate keys", 0)
  /\ Shows(x, size, ls, "Preprocessing", "Generate masks", 0)
  /\ Shows(x, size, ls, "Preprocessing", "Generate errors", EstErrors(x, b))
  /\ Shows(x, size, ls, "Preprocessing", "rand", EstRand(x, b))
  /\ Shows(x, size, ls, "Preprocessing", "zero", EstZero(x, b))
  /\ Shows(x, size, ls, "Preprocessing", "bitrand", EstBit(x, b))
  /\ Shows(x, size, ls, "Preprocessing", "Total", EstPreproc(x, b))
TEstimate == /\ IsEvent("estimate")
             /\ E.ok
             /\ (EstimateRight(E.x, Dense(E.x, E.c), E.size, E.lines) = TRUE)
TraceInit == l = 1
TraceNext == TInit \/ TTraffic \/ TEstimate
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
