------------------------------- MODULE Bench --------------------------------
(***************************************************************************)
(* The course of a benchmark program at all parties (B01): Reps times a    *)
(* synchronization of two phases followed by the work, then (if Save) a    *)
(* report to the first party, then a last synchronization and the exit.    *)
(* The protocol IDs are the same in all repetitions. The work is one       *)
(* exchange among all parties.                                             *)
(* Messages pass from the outbox of a party to its connections, where they *)
(* survive its exit, unless it leaves data unread or is sent data later:   *)
(* then what it had sent to that party may be lost. What is still in the   *)
(* outbox at the exit is lost.                                             *)
(* Without the last synchronization some parties wait forever              *)
(* (MCBenchNone.cfg must fail).                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
CONSTANTS N, Reps, Save, Final
Party == 0..(N - 1)
Ids == {"s1", "s2", "w", "r"}
Prog == FoldLeft(LAMBDA a, i : a \o <<"s1", "s2", "w">>, <<>>, [i \in 1..Reps |-> i])
        \o (IF Save THEN <<"r">> ELSE <<>>)
        \o (IF Final THEN <<"s1", "s2">> ELSE <<>>)
VARIABLES pc,      \* pc[p]: step of the program
          sent,    \* sent[p]: the message of this step was put into the outbox
          out,     \* out[p]: outbox
          link,    \* link[p][q]: messages in the connection
          pool,    \* pool[q][i]: senders of the messages that arrived under i
          heard,   \* heard[p]: parties heard in this step
          gone     \* gone[p]: exited
vars == <<pc, sent, out, link, pool, heard, gone>>
Init == /\ pc = [p \in Party |-> 1]
        /\ sent = [p \in Party |-> FALSE]
        /\ out = [p \in Party |-> <<>>]
        /\ link = [p \in Party |-> [q \in Party |-> <<>>]]
        /\ pool = [p \in Party |-> [i \in Ids |-> <<>>]]
        /\ heard = [p \in Party |-> {}]
        /\ gone = [p \in Party |-> FALSE]
Running(p) == pc[p] <= Len(Prog)
Step(p) == Prog[pc[p]]
To(i) == IF i = "r" THEN {0} ELSE Party
\* Who is awaited in a step.
Awaited(p, i) == IF i = "r" /\ p # 0 THEN {} ELSE Party
Send(p) == /\ Running(p) /\ ~sent[p]
           /\ sent' = [sent EXCEPT ![p] = TRUE]
           /\ out' = [out EXCEPT ![p] = Append(@, Step(p))]
           /\ UNCHANGED <<pc, link, pool, heard, gone>>
\* The copies of a message are written together.
Transmit(p) == /\ out[p] # <<>>
               /\ out' = [out EXCEPT ![p] = Tail(@)]
               /\ link' = [x \in Party |-> [y \in Party |->
                    IF x = p /\ y \in To(Head(out[p])) THEN Append(link[p][y], Head(out[p]))
                    ELSE IF y = p /\ gone[x] /\ x \in To(Head(out[p])) THEN <<>>
                    ELSE link[x][y]]]
               /\ UNCHANGED <<pc, sent, pool, heard, gone>>
Deliver(p, q) == /\ link[p][q] # <<>> /\ ~gone[q]
                 /\ link' = [link EXCEPT ![p][q] = Tail(@)]
                 /\ pool' = [pool EXCEPT ![q][Head(link[p][q])] = Append(@, p)]
                 /\ UNCHANGED <<pc, sent, out, heard, gone>>
Take(q) == /\ Running(q) /\ heard[q] # Awaited(q, Step(q))
           /\ pool[q][Step(q)] # <<>>
           /\ heard' = [heard EXCEPT ![q] = @ \cup {Head(pool[q][Step(q)])}]
           /\ pool' = [pool EXCEPT ![q][Step(q)] = Tail(@)]
           /\ UNCHANGED <<pc, sent, out, link, gone>>
Advance(p) == /\ Running(p) /\ sent[p] /\ heard[p] = Awaited(p, Step(p))
              /\ pc' = [pc EXCEPT ![p] = @ + 1]
              /\ sent' = [sent EXCEPT ![p] = FALSE]
              /\ heard' = [heard EXCEPT ![p] = {}]
              /\ UNCHANGED <<out, link, pool, gone>>
Exit(p) == /\ ~Running(p) /\ ~gone[p]
           /\ gone' = [gone EXCEPT ![p] = TRUE]
           /\ out' = [out EXCEPT ![p] = <<>>]
           /\ link' = [link EXCEPT ![p] = [q \in Party |-> IF link[q][p] # <<>> THEN <<>> ELSE @[q]]]
           /\ UNCHANGED <<pc, sent, pool, heard>>
Next == \E p \in Party : Send(p) \/ Transmit(p) \/ Take(p) \/ Advance(p) \/ Exit(p) \/ \E q \in Party : Deliver(p, q)
Fair == \A p \in Party : /\ WF_vars(Send(p)) /\ WF_vars(Transmit(p)) /\ WF_vars(Take(p)) /\ WF_vars(Advance(p)) /\ WF_vars(Exit(p))
                         /\ \A q \in Party : WF_vars(Deliver(p, q))
Spec == Init /\ [][Next]_vars /\ Fair
\* Nobody is more than one step ahead of another, except at the report.
Together == \A p, q \in Party : Running(p) /\ Running(q) /\ ~Save => pc[p] <= pc[q] + 1
AllExit == <>[](\A p \in Party : gone[p])
NoResidue == (\A p \in Party : gone[p]) => \A p \in Party : \A i \in Ids : pool[p][i] = <<>>
=============================================================================
