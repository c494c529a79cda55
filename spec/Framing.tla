------------------------------ MODULE Framing -------------------------------
(***************************************************************************)
(* One direction of a TCP link (N01, N02): messages are framed as          *)
(* length, ID length, ID, data; the transport delivers the bytes in order  *)
(* in arbitrary pieces; the reader reassembles frames. The length prefix   *)
(* takes one unit for short frames and two for longer ones, as the         *)
(* variable-length integers of the implementation do.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANTS MaxMsgs, IdLens, DataLens, Short
VARIABLES sent, bytes, carried, need, buf, out
vars == <<sent, bytes, carried, need, buf, out>>
\* A byte is a natural number; contents are distinguishable per message.
Fill(k, m, tag) == [i \in 1..k |-> 100 + 20 * m + 10 * tag + i]
Prefix(k) == IF k <= Short THEN <<k>> ELSE <<0, k>>
Frame(x) == Prefix(1 + Len(x.id) + Len(x.data)) \o <<Len(x.id)>> \o x.id \o x.data

Init == sent = <<>> /\ bytes = <<>> /\ carried = <<>> /\ need = 0 /\ buf = <<>> /\ out = <<>>
Send == /\ Len(sent) < MaxMsgs
        /\ \E a \in IdLens, d \in DataLens :
             LET x == [id |-> Fill(a, Len(sent), 0), data |-> Fill(d, Len(sent), 1)] IN
             /\ sent' = Append(sent, x)
             /\ bytes' = bytes \o Frame(x)
        /\ UNCHANGED <<carried, need, buf, out>>
Carry == /\ bytes # <<>>
         /\ \E k \in 1..Len(bytes) : /\ carried' = carried \o SubSeq(bytes, 1, k)
                                     /\ bytes' = SubSeq(bytes, k + 1, Len(bytes))
         /\ UNCHANGED <<sent, need, buf, out>>
ReadLen == /\ need = 0 /\ carried # <<>>
           /\ IF Head(carried) # 0
              THEN need' = Head(carried) /\ carried' = Tail(carried)
              ELSE /\ Len(carried) >= 2
                   /\ need' = carried[2] /\ carried' = SubSeq(carried, 3, Len(carried))
           /\ UNCHANGED <<sent, bytes, buf, out>>
ReadBody == /\ need > 0 /\ Len(buf) < need /\ carried # <<>>
            /\ LET k == IF Len(carried) < need - Len(buf) THEN Len(carried) ELSE need - Len(buf) IN
               /\ buf' = buf \o SubSeq(carried, 1, k)
               /\ carried' = SubSeq(carried, k + 1, Len(carried))
            /\ UNCHANGED <<sent, bytes, need, out>>
Emit == /\ need > 0 /\ Len(buf) = need
        /\ out' = Append(out, [id |-> SubSeq(buf, 2, 1 + buf[1]), data |-> SubSeq(buf, 2 + buf[1], Len(buf))])
        /\ need' = 0 /\ buf' = <<>>
        /\ UNCHANGED <<sent, bytes, carried>>
Next == Send \/ Carry \/ ReadLen \/ ReadBody \/ Emit
Fair == WF_vars(Carry) /\ WF_vars(ReadLen) /\ WF_vars(ReadBody) /\ WF_vars(Emit)
Spec == Init /\ [][Next]_vars /\ Fair
Intact == IsPrefix(out, sent)
AllOut == []<>(out = sent)
=============================================================================
