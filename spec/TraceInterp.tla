---------------------------- MODULE TraceInterp -----------------------------
(***************************************************************************)
(* Validates recorded interpolation matrices (M04). The evaluations of     *)
(* x^k for all k below the number of old points span those of all          *)
(* admissible polynomials, so that checking the monomials is complete.     *)
(***************************************************************************)
EXTENDS GF, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceW == Trace[1].w
TracePoly == Trace[1].poly
VARIABLE l
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
\* x^k for small tables by logarithm, otherwise by repeated multiplication.
Power(x, k) == IF k = 0 THEN 1 ELSE IF x = 0 THEN 0
               ELSE IF Table THEN ExpTab[(((LogTab[x] - 1) * k) % (Order - 1)) + 1]
               ELSE FoldLeft(LAMBDA acc, i : LET sq == Mul(acc, acc) IN IF BitOf(k, i) = 1 THEN Mul(sq, x) ELSE sq,
                             1, [i \in 1..10 |-> 10 - i])
Powers(xs, k) == [i \in 1..Len(xs) |-> Power(xs[i], k)]
TInit == IsEvent("init") /\ Irreducible(W, Poly)
TInterp == /\ IsEvent("interp")
           /\ E.shape = <<Len(E.npos), Len(E.cpos)>>
           /\ \A i \in 1..Len(E.ks) :
                LET k == E.ks[i]  old == Powers(E.cpos, k)
                IN \A r \in 1..Len(E.npos) : Dot(E.m[r], old) = Power(E.npos[r], k)
TraceInit == l = 1
TraceNext == TInit \/ TInterp
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
