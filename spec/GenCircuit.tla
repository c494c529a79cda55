----------------------------- MODULE GenCircuit -----------------------------
(***************************************************************************)
(* Builds circuits gate by gate. TLC writes all of them (small bounds) or  *)
(* random ones (simulation). The steps of a behaviour are its gates.       *)
(***************************************************************************)
EXTENDS Circuit, TLC, Json, IOUtils, CSV
CONSTANTS MaxIn, MaxGates, MinGates, AnyOrder, Outs
VARIABLES inw, ng, gates, outw
vars == <<inw, ng, gates, outw>>
InWidths == { s \in UNION { [1..k -> 0..MaxIn] : k \in 1..3 } : Width(s) \in 1..MaxIn /\ \A i \in 1..Len(s) : s[i] > 0 }
Nw == Width(inw) + ng
Ready == 0..(Width(inw) - 1) \cup { gates[j].o : j \in 1..Len(gates) }
Free == (0..(Nw - 1)) \ Ready
OutWidths == { s \in UNION { [1..k -> 0..Nw] : k \in 1..Outs } : Width(s) \in 1..Nw /\ \A i \in 1..Len(s) : s[i] > 0 }
SimOuts == { <<1>>, <<Nw>>, <<1, Nw - 1>>, <<(Nw + 1) \div 2, Nw \div 2>>, <<1, 1, Nw - 2>> }
Init == inw \in InWidths /\ ng \in MinGates..MaxGates /\ gates = <<>> /\ outw = <<>>
AddGate == /\ Len(gates) < ng /\ UNCHANGED <<inw, ng, outw>>
           /\ \E o \in IF AnyOrder THEN Free ELSE { CHOOSE x \in Free : \A y \in Free : x <= y } :
              \/ \E t \in {"AND", "XOR"}, a, b \in Ready : gates' = Append(gates, [t |-> t, i |-> <<a, b>>, o |-> o])
              \/ \E a \in Ready : gates' = Append(gates, [t |-> "INV", i |-> <<a>>, o |-> o])
Emit(c) == CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.GEN)
Finish == /\ Len(gates) = ng /\ outw = <<>> /\ UNCHANGED <<inw, ng, gates>>
          /\ outw' \in IF Outs > 0 THEN OutWidths ELSE { s \in SimOuts : \A i \in 1..Len(s) : s[i] > 0 }
          /\ LET c == [nw |-> Nw, inw |-> inw, outw |-> outw', gates |-> gates]
             IN WellFormed(c) /\ Emit([nw |-> c.nw, inw |-> c.inw, outw |-> c.outw, gates |-> c.gates, steps |-> gates \o <<outw'>>])
Next == AddGate \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
