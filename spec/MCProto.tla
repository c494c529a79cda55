------------------------------ MODULE MCProto -------------------------------
(* Two instances over GF(8) with 3 parties: a degree reduction and a       *)
(* transformation, concurrently or consecutively; all delivery schedules.  *)
EXTENDS Proto, TLC
CONSTANTS LeaderA, LeaderB, After, SameId
\* Party points 1..3, default slot 0, wires at 4 and 5.
Red == [leader |-> LeaderA, old |-> <<0>>, new |-> <<0>>, f |-> <<1>>, x |-> <<3, 7, 1>>,
        m |-> AddSeq(Deal(<<0>>, <<6>>, <<2>>), Apply(Lagrange(<<0, 1, 2>>, Xs), <<0, 5, 3>>)),
        r |-> Deal(<<0>>, <<6>>, <<2>>), after |-> 0, id |-> 1]
Tra == [leader |-> LeaderB, old |-> <<4>>, new |-> <<5>>, f |-> <<1>>, x |-> <<2, 2, 6>>,
        m |-> Apply(Lagrange(<<4, 1, 2>>, Xs), <<7, 1, 4>>),
        r |-> Deal(<<5>>, <<7>>, <<1>>), after |-> After, id |-> IF SameId THEN 1 ELSE 2]
TwoInst == <<Red, Tra>>
TwoCoins == {<<5>>}
AllCoins == {<<c>> : c \in Elem}
=============================================================================
