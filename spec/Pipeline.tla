------------------------------ MODULE Pipeline -------------------------------
(***************************************************************************)
(* The course of a garbling (P04): sub-protocols of all parties run        *)
(* concurrently over one network, each under an identifier taken from a    *)
(* tree of identifiers as in ProtoId.                                      *)
(*   stage 1  random pairs for output and input transformations (exchange) *)
(*   stage 2  transformations of output wires (opening)                    *)
(*   stage 3  transformations of input wires (opening)                     *)
(*   stage 4  gates: an opening, for AND gates a further one after it      *)
(* In an exchange every party sends to every party and collects one        *)
(* message of each; in an opening all send to a leader, which collects and *)
(* then sends to all. A receiver cannot tell messages under one identifier *)
(* apart: taking one of another sub-protocol is an error.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N,           \* parties
          Blocks,      \* input blocks
          Gates,       \* sequence of gate types
          Base,        \* values of an identifier's digit
          Bound,       \* "right": number of children announced; "gates": only that of the gates (too small)
          Mode         \* "own": each sub-protocol has an identifier; "shared": transformations share their parent's
Parties == 1..N
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE Base * Pow(k - 1)
DigitsFor(b) == CHOOSE k \in 0..(b + 1) : Pow(k) >= b + 1 /\ (k > 0 => Pow(k - 1) < b + 1)
Digits(k, x) == [i \in 1..k |-> (x \div Pow(i - 1)) % Base]
\* The x-th child (from 0) of a parent that announced b children; <<"none">> if there is none.
Child(parent, b, x) == LET k == DigitsFor(b) IN IF x >= Pow(k) - 1 THEN <<"none">> ELSE parent \o Digits(k, x)
NG == Len(Gates)
NT == Blocks + NG                                   \* output transformations
Fan(g) == IF Gates[g] = "INV" THEN 1 ELSE 2
RECURSIVE Fans(_)
Fans(g) == IF g = 0 THEN 0 ELSE Fans(g - 1) + Fan(g)
NI == Fans(NG)                                      \* input transformations
Top == IF Bound = "right" THEN 4 + NG ELSE NG
Root(x) == Child(<<>>, Top, x)
Sub(x, num, j) == IF Root(x) = <<"none">> THEN <<"none">> ELSE IF Mode = "shared" THEN Root(x) ELSE Child(Root(x), num, j)
\* Sub-protocols: kind, stage, leader, identifier, predecessor (0 if none).
Lead(x) == (x % N) + 1
Task(kind, stage, lead, id, pre) == [kind |-> kind, stage |-> stage, lead |-> lead, id |-> id, pre |-> pre]
First == << Task("exchange", 1, 0, Sub(0, 1, 0), 0), Task("exchange", 1, 0, Sub(1, 1, 0), 0) >>
Second == [i \in 1..NT |-> Task("opening", 2, Lead(i - 1), Sub(2, NT, i - 1), 0)]
Third == [i \in 1..NI |-> Task("opening", 3, Lead(i - 1), Sub(3, NI, i - 1), 0)]
RECURSIVE GateTasks(_, _)
GateTasks(g, at) ==     \* at: number of tasks before
  IF g > NG THEN <<>>
  ELSE LET id == Root(3 + g)
           c == IF id = <<"none">> THEN id ELSE Child(id, 2, 0)
       IN IF Gates[g] = "AND"
          THEN << Task("opening", 4, Lead(g), c, 0), Task("opening", 4, Lead(g + 1), id, at + 1) >> \o GateTasks(g + 1, at + 2)
          ELSE << Task("opening", 4, Lead(g), id, 0) >> \o GateTasks(g + 1, at + 1)
Tasks == First \o Second \o Third \o GateTasks(1, 2 + NT + NI)
K == 1..Len(Tasks)
VARIABLES ph,      \* ph[k][p]: idle, collect, wait, done
          net,     \* messages that were sent and not taken: [to, id, from, task, part]
          err
vars == <<ph, net, err>>
Init == ph = [k \in K |-> [p \in Parties |-> "idle"]] /\ net = {} /\ err = "none"
Msg(to, k, from, part) == [to |-> to, id |-> Tasks[k].id, from |-> from, task |-> k, part |-> part]
\* (The pairs of the second exchange are not needed before stage 3.)
Ready(k, p) == /\ \A j \in K : Tasks[j].stage < Tasks[k].stage /\ ~(j = 2 /\ Tasks[k].stage = 2) => ph[j][p] = "done"
               /\ Tasks[k].pre # 0 => ph[Tasks[k].pre][p] = "done"
               \* Tasks of a stage are started in order.
               /\ \A j \in 1..(k - 1) : Tasks[j].stage = Tasks[k].stage /\ Tasks[j].pre = 0 => ph[j][p] # "idle"
Start(k, p) ==
  /\ err = "none" /\ ph[k][p] = "idle" /\ Ready(k, p)
  /\ IF Tasks[k].id = <<"none">> THEN err' = "no identifier" /\ UNCHANGED <<ph, net>>
     ELSE /\ net' = net \cup (IF Tasks[k].kind = "exchange" THEN { Msg(q, k, p, 1) : q \in Parties } ELSE { Msg(Tasks[k].lead, k, p, 1) })
          /\ ph' = [ph EXCEPT ![k][p] = IF Tasks[k].kind = "exchange" \/ Tasks[k].lead = p THEN "collect" ELSE "wait"]
          /\ UNCHANGED err
At(p, id) == { m \in net : m.to = p /\ m.id = id }
\* Takes one message of each party.
Collect(k, p) ==
  /\ err = "none" /\ ph[k][p] = "collect"
  /\ \E f \in [Parties -> At(p, Tasks[k].id)] :
       /\ \A q \in Parties : f[q].from = q
       /\ LET took == { f[q] : q \in Parties } IN
          /\ err' = IF \E m \in took : m.task # k \/ m.part # 1 THEN "mixed up" ELSE "none"
          /\ net' = (net \ took) \cup (IF Tasks[k].kind = "opening" THEN { Msg(q, k, p, 2) : q \in Parties } ELSE {})
          /\ ph' = [ph EXCEPT ![k][p] = IF Tasks[k].kind = "opening" THEN "wait" ELSE "done"]
Finish(k, p) ==
  /\ err = "none" /\ ph[k][p] = "wait"
  /\ \E m \in At(p, Tasks[k].id) :
       /\ err' = IF m.task # k \/ m.part # 2 THEN "mixed up" ELSE "none"
       /\ net' = net \ {m} /\ ph' = [ph EXCEPT ![k][p] = "done"]
Next == \E k \in K, p \in Parties : Start(k, p) \/ Collect(k, p) \/ Finish(k, p)
Spec == Init /\ [][Next]_vars
NoError == err = "none"
AllDone == \A k \in K, p \in Parties : ph[k][p] = "done"
Completes == err # "none" \/ AllDone \/ ENABLED Next
NoResidue == AllDone => net = {}
=============================================================================
