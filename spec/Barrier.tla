------------------------------ MODULE Barrier -------------------------------
(***************************************************************************)
(* Consecutive synchronizations under one protocol ID (N04). In each of the*)
(* Phases of a synchronization a party broadcasts under the ID of the phase*)
(* and waits for a message of every party under that ID; repeated messages *)
(* of a party are dropped by the collection (module Collect).              *)
(* With one phase the barrier is not reusable: a fast party's message for  *)
(* the next synchronization can be taken, and dropped, by the previous one.*)
(* TLC finds this with Phases = 1 (MCBarrier1.cfg must fail).              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Party, Phases, Rounds
VARIABLES round,   \* round[p]: synchronizations left by p so far
          phase,   \* phase[p]: 0 outside, otherwise current phase
          link,    \* link[p][q]: phases of the messages in flight, FIFO
          pool,    \* pool[q][f]: senders of the messages that arrived under phase f, in order
          heard    \* heard[q]: parties heard in the current phase
vars == <<round, phase, link, pool, heard>>

Init == /\ round = [p \in Party |-> 0]
        /\ phase = [p \in Party |-> 0]
        /\ link = [p \in Party |-> [q \in Party |-> <<>>]]
        /\ pool = [q \in Party |-> [f \in 1..Phases |-> <<>>]]
        /\ heard = [p \in Party |-> {}]

SendAll(p, f) == link' = [link EXCEPT ![p] = [q \in Party |-> Append(@[q], f)]]

Enter(p) == /\ phase[p] = 0 /\ round[p] < Rounds
            /\ phase' = [phase EXCEPT ![p] = 1]
            /\ heard' = [heard EXCEPT ![p] = {}]
            /\ SendAll(p, 1)
            /\ UNCHANGED <<round, pool>>

Deliver(p, q) == /\ link[p][q] # <<>>
                 /\ link' = [link EXCEPT ![p][q] = Tail(@)]
                 /\ pool' = [pool EXCEPT ![q][Head(link[p][q])] = Append(@, p)]
                 /\ UNCHANGED <<round, phase, heard>>

Take(q) == /\ phase[q] # 0 /\ heard[q] # Party
           /\ pool[q][phase[q]] # <<>>
           /\ heard' = [heard EXCEPT ![q] = @ \cup {Head(pool[q][phase[q]])}]
           /\ pool' = [pool EXCEPT ![q][phase[q]] = Tail(@)]
           /\ UNCHANGED <<round, phase, link>>

Advance(p) == /\ phase[p] # 0 /\ heard[p] = Party
              /\ heard' = [heard EXCEPT ![p] = {}]
              /\ IF phase[p] < Phases
                 THEN /\ phase' = [phase EXCEPT ![p] = @ + 1]
                      /\ SendAll(p, phase[p] + 1)
                      /\ UNCHANGED <<round, pool>>
                 ELSE /\ phase' = [phase EXCEPT ![p] = 0]
                      /\ round' = [round EXCEPT ![p] = @ + 1]
                      /\ UNCHANGED <<link, pool>>

Next == \/ \E p \in Party : Enter(p) \/ Take(p) \/ Advance(p)
        \/ \E p, q \in Party : Deliver(p, q)
Fair == /\ \A p \in Party : /\ WF_vars(Enter(p))
                             /\ WF_vars(Take(p))
                             /\ WF_vars(Advance(p))
        /\ \A p \in Party : \A q \in Party : WF_vars(Deliver(p, q))
Spec == Init /\ [][Next]_vars /\ Fair

\* Number of synchronizations entered.
Entered(p) == round[p] + (IF phase[p] # 0 THEN 1 ELSE 0)
\* Nobody has left the k-th before all have entered it.
Safe == \A p, q \in Party : round[p] <= Entered(q)
Finished == \A p \in Party : round[p] = Rounds
Live == <>[]Finished
NoResidue == Finished => \A p, q \in Party : /\ \A f \in 1..Phases : pool[q][f] = <<>>
                                               /\ link[p][q] = <<>>
=============================================================================
