------------------------------- MODULE Field --------------------------------
(***************************************************************************)
(* Fields of several sizes used in one process (M01). The state is the set *)
(* of fields met so far with the polynomial each of them was found to use; *)
(* every operation is that of the field modulo its polynomial, whatever    *)
(* happened in other fields before.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise
G == INSTANCE GF WITH W <- 1, Poly <- 1
VARIABLES met, last        \* met: w -> polynomial; last: what was just computed
fvars == <<met, last>>
FInit == met = <<>> /\ last = <<>>
InF(w, x) == x >= 0 /\ x < 2^w
\* First or repeated meeting of the field of size 2^w.
Meet(w, poly) ==
  /\ w \in DOMAIN met => met[w] = poly
  /\ w \notin DOMAIN met => InF(w, poly) /\ G!Irreducible(w, poly)
  /\ met' = [v \in DOMAIN met \cup {w} |-> IF v = w THEN poly ELSE met[v]]
  /\ last' = <<w>>
Times(w, a, b) == G!MulIn(w, met[w], a, b)
OpsRight(w, o) ==
  /\ o.differ = 0
  /\ \A i \in 1..Len(o.a) :
       LET a == o.a[i]  b == o.b[i] IN
       /\ o.add[i] = (a ^^ b) /\ o.sub[i] = (a ^^ b)
       /\ o.mul[i] = Times(w, a, b)
       /\ IF b = 0 THEN TRUE ELSE InF(w, o.div[i]) /\ Times(w, o.div[i], b) = a
  /\ o.sum = G!SumSeq(o.a)
  /\ o.dot = G!SumSeq(o.mul)
ConvRight(w, o) == \A i \in 1..Len(o.out) : o.out[i] = G!ReduceIn(w, met[w], o.bits[i])
=============================================================================
