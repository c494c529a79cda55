------------------------------ MODULE ProtoId -------------------------------
(***************************************************************************)
(* Identifiers of nested sub-protocols (N06). A node hands out children by *)
(* appending a counter of a fixed number of digits (base Base, least       *)
(* significant digit first) to its identifier. The number of digits depends*)
(* on the bound; the last counter value is never handed out.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Base, MaxBound, MaxNodes
VARIABLES nodes,   \* identifiers in use
          parent, bound, digits, ctr, count   \* the builder at work
vars == <<nodes, parent, bound, digits, ctr, count>>

RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE Base * Pow(k - 1)
\* Fewest digits such that b identifiers exist besides the excluded last one.
DigitsFor(b) == CHOOSE k \in 0..(b + 1) : Pow(k) >= b + 1 /\ (k > 0 => Pow(k - 1) < b + 1)
Init == /\ nodes = {<<>>} /\ parent = <<>> /\ count = 0
        /\ bound \in 0..MaxBound
        /\ digits = DigitsFor(bound)
        /\ ctr = [i \in 1..DigitsFor(bound) |-> 0]
Inc(c) == [i \in DOMAIN c |-> IF \A j \in 1..(i - 1) : c[j] = Base - 1
                              THEN (c[i] + 1) % Base ELSE c[i]]
Last(c) == \A i \in DOMAIN c : c[i] = Base - 1
NextId == /\ ~Last(ctr) /\ count < bound /\ Cardinality(nodes) < MaxNodes
          /\ parent \o ctr \notin nodes \* asserted by Fresh below
          /\ nodes' = nodes \cup {parent \o ctr}
          /\ ctr' = Inc(ctr) /\ count' = count + 1
          /\ UNCHANGED <<parent, bound, digits>>
\* Continue at a node that has no children yet.
Descend == \E x \in nodes, b \in 1..MaxBound :
             /\ \A y \in nodes : y # x => ~(Len(y) > Len(x) /\ SubSeq(y, 1, Len(x)) = x)
             /\ x # parent \/ count = 0
             /\ Len(x) < 4
             /\ parent' = x /\ bound' = b /\ digits' = DigitsFor(b) /\ count' = 0
             /\ ctr' = [i \in 1..DigitsFor(b) |-> 0]
             /\ UNCHANGED nodes
Next == NextId \/ Descend
Spec == Init /\ [][Next]_vars
\* As many children as the bound are available, and each is new.
Sufficient == count < bound => ~Last(ctr)
Fresh == (count < bound /\ ~Last(ctr)) => parent \o ctr \notin nodes
=============================================================================
