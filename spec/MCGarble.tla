------------------------------ MODULE MCGarble ------------------------------
(***************************************************************************)
(* Symbolic garbling and evaluation: all circuits with the given bounds,   *)
(* all masks, all inputs, gates evaluated in any possible order. A key is  *)
(* a pair <<wire, bit>>; a row can be opened with the keys it is made for. *)
(* Formula: how the code computes the selector bit of each row.            *)
(***************************************************************************)
EXTENDS Garble, FiniteSets
CONSTANTS NIn, NGates, Wrong
VARIABLES c, mask, inp, st         \* st: wires known to the evaluator, as [wire -> <<masked value, key>>]
vars == <<c, mask, inp, st>>
Gate(k) == [t : {"AND", "XOR"}, i : {<<a, b>> : a, b \in 0..(NIn + k - 2)}, o : {NIn + k - 1}]
           \cup [t : {"INV"}, i : {<<a>> : a \in 0..(NIn + k - 2)}, o : {NIn + k - 1}]
RECURSIVE GateSeqs(_)
GateSeqs(k) == IF k = 0 THEN {<<>>} ELSE { Append(s, g) : s \in GateSeqs(k - 1), g \in Gate(k) }
Nw == NIn + NGates
\* Selectors as the protocol computes them from shares of the masks.
Selector(g, r) ==
  LET a == mask[g.i[1]]  o == mask[g.o]
      b == IF g.t = "INV" THEN 0 ELSE mask[g.i[2]]
      s == (a * b + o) % 2
  IN CASE g.t = "INV" -> IF r = 1 THEN (a + o + 1) % 2 ELSE (a + o) % 2
       [] g.t = "XOR" -> IF r \in {1, 4} THEN (a + b + o) % 2 ELSE (a + b + o + 1) % 2
       [] g.t = "AND" -> CASE r = 1 -> s
                           [] r = 2 -> IF Wrong THEN (s + b) % 2 ELSE (s + a) % 2
                           [] r = 3 -> IF Wrong THEN (s + a) % 2 ELSE (s + b) % 2
                           [] r = 4 -> (3 * s + a + b + 1) % 2
Row(g, r) == LET v == RowInputs(g.t, r) IN
             [need |-> [x \in 1..Len(v) |-> <<g.i[x], v[x]>>], val |-> Selector(g, r), key |-> <<g.o, Selector(g, r)>>]
Init == /\ c \in { [nw |-> Nw, inw |-> <<NIn>>, outw |-> <<1>>, gates |-> g] : g \in GateSeqs(NGates) }
        /\ mask \in [0..(Nw - 1) -> 0..1]
        /\ inp \in { <<b>> : b \in [1..NIn -> 0..1] }
        /\ st = [w \in 0..(NIn - 1) |-> LET v == Flip(inp[1][w + 1], mask[w]) IN <<v, <<w, v>>>>]
Step(k) == LET g == c.gates[k] IN
           /\ g.o \notin DOMAIN st /\ \A x \in 1..Len(g.i) : g.i[x] \in DOMAIN st
           /\ LET r == Row(g, RowOf(g.t, [x \in 1..Len(g.i) |-> st[g.i[x]][1]])) IN
              /\ \A x \in 1..Len(g.i) : r.need[x] = st[g.i[x]][2]
              /\ st' = [w \in DOMAIN st \cup {g.o} |-> IF w = g.o THEN <<r.val, r.key>> ELSE st[w]]
           /\ UNCHANGED <<c, mask, inp>>
Next == \E k \in 1..NGates : Step(k)
Spec == Init /\ [][Next]_vars
\* Every wire known to the evaluator carries its masked value and the key selected by it.
Evaluated == LET v == EvalWires(c, inp) IN
             \A w \in DOMAIN st : st[w] = <<Flip(v[w], mask[w]), <<w, Flip(v[w], mask[w])>>>>
Completes == DOMAIN st = 0..(Nw - 1) \/ ENABLED Next
=============================================================================
