------------------------------- MODULE Setup --------------------------------
(***************************************************************************)
(* Connection set-up of the TCP network (N02). Party i listens, accepts one*)
(* connection from each higher party and connects to each lower party,     *)
(* retrying while that party does not listen yet. The connecting party     *)
(* announces its number in two bytes that may be delayed and split; the    *)
(* accepting party takes connections one at a time, in any order, and reads*)
(* the announcement before the next one.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, Bytes
Party == 0..(N - 1)
Lower(i) == 0..(i - 1)
Higher(i) == (i + 1)..(N - 1)
VARIABLES started,  \* parties that run and listen
          backlog,  \* backlog[j]: connecting parties waiting to be accepted by j, in order
          wire,     \* wire[i][j]: announcement bytes of i to j: [written, arrived]
          reading,  \* reading[j]: connection being read by j, or N
          got,      \* got[j]: bytes of the announcement read by j so far
          peer,     \* peer[j][i]: whose connection j uses for talking to i, or N
          up        \* parties that finished connecting
vars == <<started, backlog, wire, reading, got, peer, up>>

Init == /\ started = {} /\ up = {}
        /\ backlog = [j \in Party |-> <<>>]
        /\ wire = [i \in Party |-> [j \in Party |-> <<0, 0>>]]
        /\ reading = [j \in Party |-> N]
        /\ got = [j \in Party |-> 0]
        /\ peer = [j \in Party |-> [i \in Party |-> N]]

Start(i) == i \notin started /\ started' = started \cup {i}
            /\ UNCHANGED <<backlog, wire, reading, got, peer, up>>
\* Connecting fails without effect as long as j does not listen.
Connect(i, j) == /\ i \in started /\ j \in Lower(i) /\ j \in started /\ peer[i][j] = N
                 /\ backlog' = [backlog EXCEPT ![j] = Append(@, i)]
                 /\ peer' = [peer EXCEPT ![i][j] = j]
                 /\ UNCHANGED <<started, wire, reading, got, up>>
Announce(i, j) == /\ j \in Lower(i) /\ peer[i][j] = j /\ wire[i][j][1] = 0
                  /\ wire' = [wire EXCEPT ![i][j][1] = Bytes]
                  /\ UNCHANGED <<started, backlog, reading, got, peer, up>>
Carry(i, j) == /\ wire[i][j][2] < wire[i][j][1]
               /\ \E k \in 1..(wire[i][j][1] - wire[i][j][2]) : wire' = [wire EXCEPT ![i][j][2] = @ + k]
               /\ UNCHANGED <<started, backlog, reading, got, peer, up>>
Accept(j) == /\ reading[j] = N /\ backlog[j] # <<>>
             /\ reading' = [reading EXCEPT ![j] = Head(backlog[j])]
             /\ backlog' = [backlog EXCEPT ![j] = Tail(@)]
             /\ got' = [got EXCEPT ![j] = 0]
             /\ UNCHANGED <<started, wire, peer, up>>
ReadByte(j) == /\ reading[j] # N /\ got[j] < wire[reading[j]][j][2]
               /\ got' = [got EXCEPT ![j] = @ + 1]
               /\ UNCHANGED <<started, backlog, wire, reading, peer, up>>
Attribute(j) == /\ reading[j] # N /\ got[j] = Bytes
                /\ peer' = [peer EXCEPT ![j][reading[j]] = reading[j]]
                /\ reading' = [reading EXCEPT ![j] = N]
                /\ UNCHANGED <<started, backlog, wire, got, up>>
Finish(i) == /\ i \in started /\ i \notin up
             /\ \A j \in Party \ {i} : peer[i][j] # N
             /\ \A j \in Lower(i) : wire[i][j][1] = Bytes
             /\ up' = up \cup {i}
             /\ UNCHANGED <<started, backlog, wire, reading, got, peer>>
Next == \/ \E i \in Party : Start(i) \/ Accept(i) \/ ReadByte(i) \/ Attribute(i) \/ Finish(i)
        \/ \E i, j \in Party : Connect(i, j) \/ Announce(i, j) \/ Carry(i, j)
Fair == /\ \A i \in Party : /\ WF_vars(Start(i))
                             /\ WF_vars(Accept(i))
                             /\ WF_vars(ReadByte(i))
                             /\ WF_vars(Attribute(i))
                             /\ WF_vars(Finish(i))
        /\ \A i \in Party : \A j \in Party : /\ WF_vars(Connect(i, j))
                                               /\ WF_vars(Announce(i, j))
                                               /\ WF_vars(Carry(i, j))
Spec == Init /\ [][Next]_vars /\ Fair
RightPeer == \A i, j \in Party : peer[i][j] \in {j, N}
UpIsComplete == \A i \in up : \A j \in Party \ {i} : peer[i][j] = j
AllUp == <>[](up = Party)
=============================================================================
