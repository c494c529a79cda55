------------------------------ MODULE BenchFig ------------------------------
(***************************************************************************)
(* The traffic figures of the benchmark programs (B01): a party reads its  *)
(* counters before it sends the first message of the work and again before *)
(* it goes on. The figure of a sender holds its message of the work unless *)
(* that came early, and at most one message of the next synchronization;   *)
(* only at the first party, at the end, also the sender's report.          *)
(***************************************************************************)
EXTENDS Bench
VARIABLES got,     \* got[p][q]: messages of q that arrived at p
          mark,    \* mark[p]: counters at the begin of the measurement
          fig      \* fig[p]: figures of the last measurement
fvars == <<vars, got, mark, fig>>
Zero == [p \in Party |-> [q \in Party |-> 0]]
FInit == Init /\ got = Zero /\ mark = Zero /\ fig = Zero
AfterWork(p) == pc[p] > 1 /\ Prog[pc[p] - 1] = "w"
Read(p) == /\ mark' = IF Step(p) = "w" THEN [mark EXCEPT ![p] = got[p]] ELSE mark
           /\ fig' = IF AfterWork(p) THEN [fig EXCEPT ![p] = [q \in Party |-> got[p][q] - mark[p][q]]] ELSE fig
FNext == \E p \in Party :
           \/ Send(p) /\ Read(p) /\ UNCHANGED got
           \/ (Transmit(p) \/ Take(p) \/ Advance(p) \/ Exit(p)) /\ UNCHANGED <<got, mark, fig>>
           \/ \E q \in Party : Deliver(p, q) /\ got' = [got EXCEPT ![q][p] = @ + 1] /\ UNCHANGED <<mark, fig>>
FSpec == FInit /\ [][FNext]_fvars
LastRep(p) == pc[p] > 3 * Reps
Bounded == \A p, q \in Party : /\ fig[p][q] >= 0
                               /\ fig[p][q] <= (IF Save /\ p = 0 /\ LastRep(p) THEN 3 ELSE 2)
\* must fail: a figure can miss the message of the work, and can hold one of the next synchronization
Exact == \A p, q \in Party : pc[p] > 3 /\ sent[p] => fig[p][q] = 1
=============================================================================
