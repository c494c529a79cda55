------------------------------ MODULE Collect -------------------------------
(***************************************************************************)
(* Collecting one message from each party under one protocol ID (N03).     *)
(* Messages under ID 0 are those to be collected, ID 1 stands for any other*)
(* ID. A call takes messages from the pool one at a time; the first of each*)
(* party is kept, repeated ones are dropped, and the call is complete when *)
(* every party was heard.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
VARIABLES n,       \* number of parties
          pool,    \* messages under ID 0 not yet consumed: seq of [p, m]
          other,   \* messages under ID 1: seq of m
          got,     \* got[p]: message kept for party p, 0 if none
          called, returned,
          arrived  \* history of all arrivals under ID 0
cvars == <<n, pool, other, got, called, returned, arrived>>

Parties == 0..(n - 1)
CInit(k) == /\ n = k /\ pool = <<>> /\ other = <<>>
            /\ got = [p \in 0..(k - 1) |-> 0]
            /\ called = FALSE /\ returned = FALSE /\ arrived = <<>>

Complete == \A p \in Parties : got[p] # 0

\* A call that is complete returns before anything else happens.
MustReturn == called /\ ~returned /\ Complete
\* The waiting call consumes the pool while it is incomplete.
RECURSIVE Consume(_, _)
Consume(g, s) == IF s = <<>> \/ (\A p \in DOMAIN g : g[p] # 0) THEN <<g, s>>
                 ELSE Consume(IF g[Head(s).p] = 0 THEN [g EXCEPT ![Head(s).p] = Head(s).m] ELSE g, Tail(s))
Drain(s) == LET r == Consume(got, s) IN got' = r[1] /\ pool' = r[2]

ArriveHere(p, m) ==
  /\ ~MustReturn
  /\ arrived' = Append(arrived, [p |-> p, m |-> m])
  /\ IF called /\ ~returned THEN Drain(Append(pool, [p |-> p, m |-> m]))
     ELSE pool' = Append(pool, [p |-> p, m |-> m]) /\ UNCHANGED got
  /\ UNCHANGED <<n, other, called, returned>>
ArriveOther(m) == /\ ~MustReturn
                  /\ other' = Append(other, m)
                  /\ UNCHANGED <<n, pool, got, called, returned, arrived>>
Call == /\ ~called /\ called' = TRUE
        /\ Drain(pool)
        /\ UNCHANGED <<n, other, returned, arrived>>
Result == [i \in 1..n |-> got[i - 1]]
Ret == /\ MustReturn
       /\ returned' = TRUE
       /\ UNCHANGED <<n, pool, other, got, called, arrived>>

\* --- declarative meaning, checked against the machine ------------------------
FirstOf(p) == LET S == SelectSeq(arrived, LAMBDA x : x.p = p) IN IF S = <<>> THEN 0 ELSE Head(S).m
HeardAll == \A p \in Parties : FirstOf(p) # 0
ResultRight == returned => \A p \in Parties : got[p] = FirstOf(p)
CompleteIff == called => (Complete <=> HeardAll)
\* Messages that arrive after the completing one stay available; none is both returned and left.
Rest == IF ~HeardAll THEN <<>>
        ELSE LET c == CHOOSE i \in 1..Len(arrived) :
                        /\ \A p \in Parties : \E j \in 1..i : arrived[j].p = p
                        /\ \E p \in Parties : \A j \in 1..(i - 1) : arrived[j].p # p
             IN SubSeq(arrived, c + 1, Len(arrived))
RestKept == (called /\ Complete) => pool = Rest
=============================================================================
