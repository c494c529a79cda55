----------------------------- MODULE MCCircuit ------------------------------
(***************************************************************************)
(* Evaluation in any order compatible with the wires gives the meaning in  *)
(* file order: all circuits with the given bounds, all inputs.             *)
(***************************************************************************)
EXTENDS Circuit
CONSTANTS NIn, NGates
VARIABLES c, inp, val, done
vars == <<c, inp, val, done>>
Gate(k) == [t : {"AND", "XOR"}, i : {<<a, b>> : a, b \in 0..(NIn + k - 2)}, o : {NIn + k - 1}]
           \cup [t : {"INV"}, i : {<<a>> : a \in 0..(NIn + k - 2)}, o : {NIn + k - 1}]
RECURSIVE GateSeqs(_)
GateSeqs(k) == IF k = 0 THEN {<<>>} ELSE { Append(s, g) : s \in GateSeqs(k - 1), g \in Gate(k) }
Init == /\ c \in { [nw |-> NIn + NGates, inw |-> <<1, NIn - 1>>, outw |-> <<1, 1>>, gates |-> g] : g \in GateSeqs(NGates) }
        /\ inp \in { <<<<b[1]>>, [j \in 1..(NIn - 1) |-> b[j + 1]]>> : b \in [1..NIn -> 0..1] }
        /\ val = Start(c, inp) /\ done = {}
Known == 0..(NIn - 1) \cup { c.gates[k].o : k \in done }
Step(k) == /\ k \notin done /\ \A x \in 1..Len(c.gates[k].i) : c.gates[k].i[x] \in Known
           /\ val' = EvalGate(val, c.gates[k]) /\ done' = done \cup {k} /\ UNCHANGED <<c, inp>>
Next == \E k \in 1..NGates : Step(k)
Spec == Init /\ [][Next]_vars
Formed == WellFormed(c)
Confluent == LET v == EvalWires(c, inp) IN \A w \in Known : val[w] = v[w]
Complete == done # 1..NGates => ENABLED Next
=============================================================================
