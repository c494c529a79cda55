------------------------------ MODULE TraceNet ------------------------------
(* Validates a recorded history of calls on a real network against NetAPI. *)
(* Arrivals are not observable: they are inferred, as late as possible.    *)
EXTENDS NetAPI, Json, IOUtils, TLC
CONSTANT CheckStats  \* whether statistics are validated as well (N05)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, marks
N == Trace[1].n
TraceParty == 0..(N - 1)
tvars == <<sent, arr, taken, pend, l, marks>>

TraceInit == APIInit /\ l = 2 /\ marks = [q \in Party |-> <<>>]
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Msg(r) == [id |-> r.id, dig |-> r.dig, len |-> r.len, idlen |-> r.idlen]

TSend == IsEvent("send") /\ Send(E.p, E.to, Msg(E)) /\ UNCHANGED marks
TReq  == IsEvent("req") /\ Recv(E.q, E.id, E.k) /\ UNCHANGED marks

\* A return composes the arrivals it needs with NetAPI!Return: the message is the earliest
\* unreturned one of that sender with the ID of the receive, with its content.
TRet == /\ IsEvent("ret")
        /\ \E r \in pend[E.q] :
             LET S == { i \in 1..Len(sent[E.p][E.q]) : i \notin taken[E.p][E.q] /\ sent[E.p][E.q][i].id = r.id } IN
             /\ r.k = E.k /\ r.id = E.id
             /\ S # {}
             /\ LET i == Least(S) IN
                /\ sent[E.p][E.q][i].dig = E.dig
                /\ sent[E.p][E.q][i].len = E.len
                /\ taken' = [taken EXCEPT ![E.p][E.q] = @ \cup {i}]
                /\ arr' = [arr EXCEPT ![E.p][E.q] = IF i > @ THEN i ELSE @]
             /\ pend' = [pend EXCEPT ![E.q] = @ \ {r}]
        /\ UNCHANGED <<sent, marks>>

\* A reading of the statistics: some number of arrivals, no fewer than known, explains it.
TStat == /\ IsEvent("stat")
         /\ IF ~CheckStats THEN UNCHANGED arr
            ELSE LET J == { j \in arr[E.p][E.q]..Len(sent[E.p][E.q]) :
                             DataBytes(E.p, E.q, j) = E.data /\ NetBytes(E.p, E.q, j) = E.net } IN
                 /\ J # {}
                 /\ arr' = [arr EXCEPT ![E.p][E.q] = Least(J)]
         /\ UNCHANGED <<sent, taken, pend, marks>>

AllBytes(q) == [p \in Party |-> <<DataBytes(p, q, Len(sent[p][q])), NetBytes(p, q, Len(sent[p][q]))>>]

\* Interval measurements are taken when the network is at rest.
TMark == IsEvent("mark") /\ marks' = [marks EXCEPT ![E.q] = AllBytes(E.q)]
         /\ UNCHANGED <<sent, arr, taken, pend>>
TElapsed == /\ IsEvent("elapsed")
            /\ CheckStats => \A p \in Party : /\ AllBytes(E.q)[p][1] - marks[E.q][p][1] = E.data[p + 1]
                                              /\ AllBytes(E.q)[p][2] - marks[E.q][p][2] = E.net[p + 1]
            /\ UNCHANGED <<sent, arr, taken, pend, marks>>

\* The network had ample time: everything has arrived and no pending receive could be served.
TQuiet == /\ IsEvent("quiet")
          /\ arr' = [p \in Party |-> [q \in Party |-> Len(sent[p][q])]]
          /\ CheckStats => \A p, q \in Party : /\ DataBytes(p, q, arr[p][q]) = DataBytes(p, q, Len(sent[p][q]))
                                               /\ NetBytes(p, q, arr[p][q]) = NetBytes(p, q, Len(sent[p][q]))
          /\ \A q \in Party : \A r \in pend[q] : \A p \in Party :
               \A i \in 1..Len(sent[p][q]) : sent[p][q][i].id = r.id => i \in taken[p][q]
          /\ UNCHANGED <<sent, taken, pend, marks>>
Sum(f) == FoldLeft(LAMBDA a, p : a + f[p], 0, [i \in 1..N |-> i - 1])
TTotal == /\ IsEvent("total")
          /\ CheckStats => /\ E.data = Sum([p \in Party |-> AllBytes(E.q)[p][1]])
                           /\ E.net = Sum([p \in Party |-> AllBytes(E.q)[p][2]])
          /\ UNCHANGED <<sent, arr, taken, pend, marks>>
\* The next recorded history starts on fresh networks.
TReset == /\ IsEvent("init") /\ E.n = N /\ Trace[l - 1].e = "total"
          /\ sent' = [p \in Party |-> [q \in Party |-> <<>>]]
          /\ arr' = [p \in Party |-> [q \in Party |-> 0]]
          /\ taken' = [p \in Party |-> [q \in Party |-> {}]]
          /\ pend' = [q \in Party |-> {}]
          /\ marks' = [q \in Party |-> <<>>]
TUp == IsEvent("up") /\ UNCHANGED <<sent, arr, taken, pend, marks>>

TraceNext == TSend \/ TReq \/ TRet \/ TStat \/ TMark \/ TElapsed \/ TQuiet \/ TTotal \/ TUp \/ TReset
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* Invariants of the contract, evaluated in every state of every trace.
NoDouble == \A p, q \in Party : taken[p][q] \subseteq 1..arr[p][q] /\ arr[p][q] <= Len(sent[p][q])
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter, Len(Trace)>>)
                 /\ TLCGet("stats").diameter = Len(Trace)
                 /\ Trace[Len(Trace)].e = "total"
=============================================================================
