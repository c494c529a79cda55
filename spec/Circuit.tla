------------------------------ MODULE Circuit -------------------------------
(***************************************************************************)
(* Circuits and their meaning (K01) and packing into blocks (K02).         *)
(* A circuit file is a record                                              *)
(*   [nw |-> wires, inw |-> widths of inputs, outw |-> widths of outputs,  *)
(*    gates |-> sequence of [t |-> "AND"/"XOR"/"INV", i |-> wires, o |-> wire]]  *)
(* Wires are numbered from 0; the inputs are the first wires and the       *)
(* outputs the last ones, both group after group.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
SumTo(ws, k) == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(ws, 1, k))
Width(ws) == SumTo(ws, Len(ws))
Range0(from, k) == [j \in 1..k |-> from + j - 1]
InputGroups(c) == [g \in 1..Len(c.inw) |-> Range0(SumTo(c.inw, g - 1), c.inw[g])]
OutputGroups(c) == [g \in 1..Len(c.outw) |-> Range0(c.nw - Width(c.outw) + SumTo(c.outw, g - 1), c.outw[g])]
Wires(c) == 0..(c.nw - 1)
\* Well-formed: gates in topological order, every wire has one source.
Arity(t) == IF t = "INV" THEN 1 ELSE 2
WellFormed(c) ==
  LET nin == Width(c.inw) IN
  /\ nin <= c.nw /\ Width(c.outw) <= c.nw
  /\ \A k \in 1..Len(c.gates) : Len(c.gates[k].i) = Arity(c.gates[k].t)
  /\ IF \A k \in 1..Len(c.gates) : c.gates[k].o = nin + k - 1
     THEN \* wires numbered in the order of the gates
          \A k \in 1..Len(c.gates) : \A x \in 1..Len(c.gates[k].i) : c.gates[k].i[x] \in 0..(nin + k - 2)
     ELSE \A k \in 1..Len(c.gates) :
            LET g == c.gates[k]
                ready == 0..(nin - 1) \cup { c.gates[j].o : j \in 1..(k - 1) }
            IN (\A x \in 1..Len(g.i) : g.i[x] \in ready) /\ g.o \in Wires(c) \ ready
GateVal(t, v) == CASE t = "AND" -> v[1] * v[2]
                   [] t = "XOR" -> (v[1] + v[2]) % 2
                   [] t = "INV" -> 1 - v[1]
\* Values of all wires for given inputs (a sequence of sequences of bits), gates in file order.
Start(c, inp) == LET flat == FoldLeft(LAMBDA a, b : a \o b, <<>>, inp)
                 IN [w \in Wires(c) |-> IF w < Len(flat) THEN flat[w + 1] ELSE 0]
EvalGate(val, g) == [val EXCEPT ![g.o] = GateVal(g.t, [x \in 1..Len(g.i) |-> val[g.i[x]]])]
EvalWires(c, inp) == FoldLeft(LAMBDA val, g : EvalGate(val, g), Start(c, inp), c.gates)
Select(val, groups) == [g \in 1..Len(groups) |-> [j \in 1..Len(groups[g]) |-> val[groups[g][j]]]]
Eval(c, inp) == Select(EvalWires(c, inp), OutputGroups(c))

\* --- packing ---------------------------------------------------------------
\* A packed circuit: [gates |-> sequence of [t, i |-> sequence of wire sequences, o |-> wire sequence],
\*                    inputs, outputs |-> sequences of wire sequences]
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Blocks(k, s) == [b \in 1..((Len(s) + k - 1) \div k) |-> SubSeq(s, (b - 1) * k + 1, IF b * k < Len(s) THEN b * k ELSE Len(s))]
\* The gates of a block, slot by slot.
Unpack(b) == [x \in 1..Len(b.o) |-> [t |-> b.t, i |-> [y \in 1..Len(b.i) |-> b.i[y][x]], o |-> b.o[x]]]
OfType(p, t) == SelectSeq(p.gates, LAMBDA b : b.t = t)
BlockShape(k, b) == /\ Len(b.o) \in 1..k
                    /\ Len(b.i) = IF b.t = "INV" THEN 1 ELSE 2
                    /\ \A y \in 1..Len(b.i) : Len(b.i[y]) = Len(b.o)
PackRight(c, k, p) ==
  /\ \A b \in 1..Len(p.gates) : BlockShape(k, p.gates[b])
  /\ LET us == Flat([b \in 1..Len(p.gates) |-> Unpack(p.gates[b])])
     IN \* output wires are distinct, so equal sets and lengths mean every gate exactly once
        Len(us) = Len(c.gates) /\ { us[x] : x \in 1..Len(us) } = { c.gates[x] : x \in 1..Len(c.gates) }
  /\ \A t \in {"AND", "XOR", "INV"} : LET bs == OfType(p, t) IN \A x \in 1..(Len(bs) - 1) : Len(bs[x].o) = k
  /\ p.inputs = Blocks(k, Flat(InputGroups(c)))
  /\ p.outputs = Blocks(k, Flat(OutputGroups(c)))
Count(c, t) == Cardinality({ x \in 1..Len(c.gates) : c.gates[x].t = t })
BlockCount(c, k, t) == (Count(c, t) + k - 1) \div k
=============================================================================
