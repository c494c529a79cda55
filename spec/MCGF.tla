------------------------------- MODULE MCGF ---------------------------------
(* The specified arithmetic is a field, and interpolation works: all pairs and triples. *)
EXTENDS GF
VARIABLES a, b
Init == a \in Elem /\ b \in Elem
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
ASSUME Irreducible(W, Poly)
FieldAxioms ==
  /\ Mul(a, b) \in Elem /\ Mul(a, b) = SlowMul(a, b)
  /\ Mul(a, b) = Mul(b, a) /\ Mul(a, 1) = a /\ Mul(a, 0) = 0
  /\ Add(a, b) \in Elem /\ Add(a, a) = 0
  /\ a # 0 => Mul(a, Inv(a)) = 1
  /\ b # 0 => Mul(Div(a, b), b) = a
  /\ \A c \in Elem : /\ Mul(Mul(a, b), c) = Mul(a, Mul(b, c))
                     /\ Mul(a, Add(b, c)) = Add(Mul(a, b), Mul(a, c))
Line(x) == Add(a, Mul(b, x))
Interpolates == \A y \in Elem : Dot(LagrangeRow(<<0, 1>>, y), <<Line(0), Line(1)>>) = Line(y)
=============================================================================
