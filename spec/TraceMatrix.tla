---------------------------- MODULE TraceMatrix -----------------------------
(***************************************************************************)
(* Validates recorded extraction and code matrices (M05). A matrix has one *)
(* row per input (code position); any as many rows as there are columns    *)
(* must be independent, shown by an inverse for each selection. Pairs of   *)
(* rows of two-column matrices are checked directly.                       *)
(***************************************************************************)
EXTENDS GF, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceW == Trace[1].w
TracePoly == Trace[1].poly
VARIABLES l, m
tvars == <<l, m>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TInit == IsEvent("init") /\ Irreducible(W, Poly) /\ m' = <<>>
MatrixRight(x) ==
  /\ Len(x.m) = x.inp /\ \A i \in 1..x.inp : Len(x.m[i]) = x.out /\ \A j \in 1..x.out : x.m[i][j] \in Elem
  /\ IF x.out = 1 THEN \A i \in 1..x.inp : x.m[i][1] # 0 ELSE TRUE
  /\ IF x.out = 2 THEN \A i \in 1..x.inp : \A j \in (i + 1)..x.inp : Mul(x.m[i][1], x.m[j][2]) # Mul(x.m[i][2], x.m[j][1]) ELSE TRUE
\* The extraction matrix is documented with one row per output, the code matrix with one per position.
TMatrix == /\ IsEvent("matrix")
           /\ E.shape = IF E.kind = "extract" THEN <<E.out, E.inp>> ELSE <<E.inp, E.out>>
           /\ (MatrixRight(E) = TRUE)
           /\ m' = E.m
Column(a, j) == [i \in 1..Len(a) |-> a[i][j]]
TSet == /\ IsEvent("set") /\ UNCHANGED m
        /\ Distinct(E.rows) /\ Len(E.rows) = Len(m[1])
        /\ LET sub == [i \in 1..Len(E.rows) |-> m[E.rows[i]]]
               k == Len(E.rows)
           IN /\ Len(E.inv) = k
              /\ \A i \in 1..k : \A j \in 1..k : Dot(sub[i], Column(E.inv, j)) = IF i = j THEN 1 ELSE 0
TraceInit == l = 1 /\ m = <<>>
TraceNext == TInit \/ TMatrix \/ TSet
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
