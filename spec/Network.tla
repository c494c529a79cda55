------------------------------- MODULE Network ------------------------------
(***************************************************************************)
(* The message layer structured like the implementation: a send router,    *)
(* one FIFO link per ordered pair of parties, and a receive router that    *)
(* matches arriving messages with pending receives. It refines NetAPI.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Party, Ids, All,
          MaxSend, MaxRecv     \* bounds of the model
VARIABLES outq,     \* outq[p]: messages handed to the network by p, not yet routed
          link,     \* link[p][q]: messages in transit
          inq,      \* inq[q]: messages read from the links, not yet routed
          reqq,     \* reqq[q]: receive requests not yet seen by the receive router
          pool,     \* pool[q][id]: messages waiting for a receive
          hand,     \* hand[q]: receives waiting for a message
          stats,    \* stats[q][p]: messages counted
          \* history, only used by the refinement mapping
          hsent, htaken, hpend, nsend, nrecv
vars == <<outq, link, inq, reqq, pool, hand, stats, hsent, htaken, hpend, nsend, nrecv>>

Init == /\ outq = [p \in Party |-> <<>>]
        /\ link = [p \in Party |-> [q \in Party |-> <<>>]]
        /\ inq = [q \in Party |-> <<>>]
        /\ reqq = [q \in Party |-> <<>>]
        /\ pool = [q \in Party |-> [i \in Ids |-> <<>>]]
        /\ hand = [q \in Party |-> {}]
        /\ stats = [q \in Party |-> [p \in Party |-> 0]]
        /\ hsent = [p \in Party |-> [q \in Party |-> <<>>]]
        /\ htaken = [p \in Party |-> [q \in Party |-> {}]]
        /\ hpend = [q \in Party |-> {}]
        /\ nsend = 0 /\ nrecv = 0

Msg(id, u) == [id |-> id, dig |-> u, len |-> 1, idlen |-> 1]

\* --- calls of the API -------------------------------------------------------
ApiSend(p, to, id) ==
  /\ nsend < MaxSend
  /\ nsend' = nsend + 1
  /\ LET m == Msg(id, nsend) IN
     /\ outq' = [outq EXCEPT ![p] = Append(@, [to |-> to, m |-> m])]
     /\ hsent' = [hsent EXCEPT ![p] = [q \in Party |-> IF to = All \/ to = q THEN Append(@[q], m) ELSE @[q]]]
  /\ UNCHANGED <<link, inq, reqq, pool, hand, stats, htaken, hpend, nrecv>>

ApiRecv(q, id) ==
  /\ nrecv < MaxRecv
  /\ \A r \in hpend[q] : r.id # id
  /\ nrecv' = nrecv + 1
  /\ LET r == [id |-> id, k |-> nrecv] IN
     /\ reqq' = [reqq EXCEPT ![q] = Append(@, r)]
     /\ hpend' = [hpend EXCEPT ![q] = @ \cup {r}]
  /\ UNCHANGED <<outq, link, inq, pool, hand, stats, hsent, htaken, nsend>>

\* --- tasks of the network ---------------------------------------------------
Entry(p, m) == [from |-> p, m |-> m]

\* Send router: to the links, or directly to the own receive router.
Route(p) ==
  /\ outq[p] # <<>>
  /\ LET h == Head(outq[p]) IN
     /\ link' = [link EXCEPT ![p] = [q \in Party |-> IF q # p /\ (h.to = All \/ h.to = q) THEN Append(@[q], h.m) ELSE @[q]]]
     /\ inq' = IF h.to = All \/ h.to = p THEN [inq EXCEPT ![p] = Append(@, Entry(p, h.m))] ELSE inq
  /\ outq' = [outq EXCEPT ![p] = Tail(@)]
  /\ UNCHANGED <<reqq, pool, hand, stats, hsent, htaken, hpend, nsend, nrecv>>

\* Reader of the link from p to q.
Read(p, q) ==
  /\ link[p][q] # <<>>
  /\ link' = [link EXCEPT ![p][q] = Tail(@)]
  /\ inq' = [inq EXCEPT ![q] = Append(@, Entry(p, Head(link[p][q])))]
  /\ UNCHANGED <<outq, reqq, pool, hand, stats, hsent, htaken, hpend, nsend, nrecv>>

IdxOf(p, q, m) == CHOOSE i \in 1..Len(hsent[p][q]) : hsent[p][q][i] = m

\* Handing message e to the receive r of q.
HandOver(q, e, r) ==
  /\ htaken' = [htaken EXCEPT ![e.from][q] = @ \cup {IdxOf(e.from, q, e.m)}]
  /\ hpend' = [hpend EXCEPT ![q] = @ \ {r}]

\* Receive router, branch for messages: count, then hand over or store.
RouteMsg(q) ==
  /\ inq[q] # <<>>
  /\ LET e == Head(inq[q])
         rs == { r \in hand[q] : r.id = e.m.id } IN
     /\ stats' = [stats EXCEPT ![q][e.from] = @ + 1]
     /\ IF rs # {}
        THEN LET r == CHOOSE r \in rs : TRUE IN
             /\ hand' = [hand EXCEPT ![q] = @ \ {r}]
             /\ HandOver(q, e, r)
             /\ UNCHANGED pool
        ELSE /\ pool' = [pool EXCEPT ![q][e.m.id] = Append(@, e)]
             /\ UNCHANGED <<hand, htaken, hpend>>
  /\ inq' = [inq EXCEPT ![q] = Tail(@)]
  /\ UNCHANGED <<outq, link, reqq, hsent, nsend, nrecv>>

\* Receive router, branch for requests.
RouteReq(q) ==
  /\ reqq[q] # <<>>
  /\ LET r == Head(reqq[q]) IN
     IF pool[q][r.id] # <<>>
     THEN /\ pool' = [pool EXCEPT ![q][r.id] = Tail(@)]
          /\ HandOver(q, Head(pool[q][r.id]), r)
          /\ UNCHANGED hand
     ELSE /\ hand' = [hand EXCEPT ![q] = @ \cup {r}]
          /\ UNCHANGED <<pool, htaken, hpend>>
  /\ reqq' = [reqq EXCEPT ![q] = Tail(@)]
  /\ UNCHANGED <<outq, link, inq, stats, hsent, nsend, nrecv>>

Task == \/ \E p \in Party : Route(p) \/ RouteMsg(p) \/ RouteReq(p)
        \/ \E p, q \in Party : Read(p, q)
Next == \/ \E p \in Party, to \in Party \cup {All}, id \in Ids : ApiSend(p, to, id)
        \/ \E q \in Party, id \in Ids : ApiRecv(q, id)
        \/ Task
Fair == /\ \A p \in Party : /\ WF_vars(Route(p))
                             /\ WF_vars(RouteMsg(p))
                             /\ WF_vars(RouteReq(p))
        /\ \A p \in Party : \A q \in Party : WF_vars(Read(p, q))
Spec == Init /\ [][Next]_vars /\ Fair
SafeSpec == Init /\ [][Next]_vars

\* --- what is checked --------------------------------------------------------
\* A message has arrived when the receive router has counted it. A step of the implementation may
\* both count a message and hand it over, i.e. be an arrival followed by a return.
API == INSTANCE NetAPI WITH sent <- hsent, taken <- htaken, pend <- hpend,
                            arr <- [p \in Party |-> [q \in Party |-> stats[q][p]]]

ArriveReturn(q, r, p) ==
  /\ stats'[q][p] = stats[q][p] + 1
  /\ r \in hpend[q] /\ hpend' = [hpend EXCEPT ![q] = @ \ {r}]
  /\ hsent[p][q][stats'[q][p]].id = r.id
  /\ API!Open(p, q, r.id) = {}
  /\ htaken' = [htaken EXCEPT ![p][q] = @ \cup {stats'[q][p]}]
  /\ \A p2, q2 \in Party : <<p2, q2>> # <<p, q>> => stats'[q2][p2] = stats[q2][p2]
  /\ UNCHANGED hsent

APINext ==
  \/ \E p \in Party, to \in Party \cup {All}, id \in Ids : API!Send(p, to, Msg(id, nsend))
  \/ \E p, q \in Party : API!Arrive(p, q)
  \/ \E q \in Party, id \in Ids : API!Recv(q, id, nrecv)
  \/ \E q, p \in Party : \E r \in hpend[q] : \E i \in 1..Len(hsent[p][q]) : API!Return(q, r.k, p, i)
  \/ \E q, p \in Party : \E r \in hpend[q] : ArriveReturn(q, r, p)
Refines == API!APIInit /\ [][APINext]_<<hsent, htaken, hpend, stats>>

\* Once the callers stop, the network comes to rest with everything delivered that can be.
EventuallyQuiet == []<>(API!Quiet)

Idle == ~ENABLED(Task)
RestIsQuiet == Idle => API!Quiet
PoolDisjoint == \A q \in Party : \A r \in hand[q] : pool[q][r.id] = <<>> \/ reqq[q] # <<>>
=============================================================================
