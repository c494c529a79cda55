------------------------------- MODULE NetAPI -------------------------------
(***************************************************************************)
(* Contract of the message layer as its callers see it (N01, N05).         *)
(*                                                                         *)
(* A message is [id, dig, len, idlen]. Every ordered pair of parties has   *)
(* its own sequence of messages in sending order, of which a prefix has    *)
(* arrived. A receive names a protocol ID and returns the earliest message *)
(* with that ID, of some sender, that has arrived and was not returned     *)
(* before. Statistics are the byte counts of the arrived prefixes.         *)
(* Callers keep at most one receive pending per party and protocol ID.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
CONSTANTS Party,    \* set of parties
          All       \* the address of a broadcast
VARIABLES sent,     \* sent[p][q]: messages p addressed to q, in order
          arr,      \* arr[p][q]: how many of them have arrived
          taken,    \* taken[p][q]: indices of those returned by receives
          pend      \* pend[q]: pending receives [id, k]
apivars == <<sent, arr, taken, pend>>

APIInit == /\ sent = [p \in Party |-> [q \in Party |-> <<>>]]
           /\ arr = [p \in Party |-> [q \in Party |-> 0]]
           /\ taken = [p \in Party |-> [q \in Party |-> {}]]
           /\ pend = [q \in Party |-> {}]

Least(S) == CHOOSE x \in S : \A y \in S : x <= y

\* Arrived and not yet returned messages of p at q under id.
Open(p, q, id) == { i \in 1..arr[p][q] : i \notin taken[p][q] /\ sent[p][q][i].id = id }

Send(p, to, m) ==
  /\ sent' = [sent EXCEPT ![p] = [q \in Party |-> IF to = All \/ to = q THEN Append(@[q], m) ELSE @[q]]]
  /\ UNCHANGED <<arr, taken, pend>>

\* The next message of p to q arrives.
Arrive(p, q) ==
  /\ arr[p][q] < Len(sent[p][q])
  /\ arr' = [arr EXCEPT ![p][q] = @ + 1]
  /\ UNCHANGED <<sent, taken, pend>>

Recv(q, id, k) ==
  /\ \A r \in pend[q] : r.id # id /\ r.k # k
  /\ pend' = [pend EXCEPT ![q] = @ \cup {[id |-> id, k |-> k]}]
  /\ UNCHANGED <<sent, arr, taken>>

\* Receive k of q returns message i of p.
Return(q, k, p, i) ==
  \E r \in pend[q] :
    /\ r.k = k
    /\ Open(p, q, r.id) # {} /\ i = Least(Open(p, q, r.id))
    /\ taken' = [taken EXCEPT ![p][q] = @ \cup {i}]
    /\ pend' = [pend EXCEPT ![q] = @ \ {r}]
    /\ UNCHANGED <<sent, arr>>

DataBytes(p, q, j) == FoldLeft(LAMBDA a, m : a + m.len, 0, SubSeq(sent[p][q], 1, j))
NetBytes(p, q, j)  == FoldLeft(LAMBDA a, m : a + m.len + m.idlen, 0, SubSeq(sent[p][q], 1, j))

\* Nothing is left to do for the network: all messages have arrived and every pending receive
\* waits for a message that was not sent.
Quiet == /\ \A p, q \in Party : arr[p][q] = Len(sent[p][q])
         /\ \A q \in Party : \A r \in pend[q] : \A p \in Party : Open(p, q, r.id) = {}
=============================================================================
