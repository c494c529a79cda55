------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Encoding of field elements, sequences of them, and preprocessing        *)
(* material (M02). An element of the field of 2^w elements is stored in    *)
(* the least number of whole bytes that can hold it, lowest byte first; a  *)
(* sequence is the number of elements followed by the elements; material   *)
(* is the record of its five sequences, where the keys are a sequence of   *)
(* 2 x (key length) x blocks elements whose shape is recovered from the    *)
(* number of masks (one per block).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
NumBytes(w) == (w + 7) \div 8
EncElem(w, v) == [i \in 1..NumBytes(w) |-> (v \div 256^(i - 1)) % 256]
DecElem(b) == FoldLeft(LAMBDA acc, i : acc * 256 + b[Len(b) + 1 - i], 0, [i \in 1..Len(b) |-> i])
EncSeq(w, s) == <<Len(s)>> \o FoldLeft(LAMBDA acc, v : acc \o EncElem(w, v), <<>>, s)
DecSeq(w, b) == [i \in 1..b[1] |-> DecElem(SubSeq(b, 2 + (i - 1) * NumBytes(w), 1 + i * NumBytes(w)))]
SeqSize(w, s) == Len(s) * NumBytes(w)

\* Material: masks is a sequence, keys a function [1..2] -> [1..key length] -> [1..blocks] -> element.
Blocks(m) == Len(m.masks)
KeyLen(m) == Len(m.keys[1])
Flatten(m) == [i \in 1..(2 * KeyLen(m) * Blocks(m)) |->
                 LET j == i - 1 IN
                 m.keys[(j \div (KeyLen(m) * Blocks(m))) + 1][((j \div Blocks(m)) % KeyLen(m)) + 1][(j % Blocks(m)) + 1]]
EncMat(w, m) == [masks |-> EncSeq(w, m.masks), keys |-> EncSeq(w, Flatten(m)), randoms |-> EncSeq(w, m.randoms)]
DecMat(w, r) ==
  LET masks == DecSeq(w, r.masks)
      flat == DecSeq(w, r.keys)
      b == Len(masks)
      kl == Len(flat) \div (2 * b)
  IN [masks |-> masks,
      keys |-> [c \in 1..2 |-> [k \in 1..kl |-> [x \in 1..b |-> flat[(c - 1) * kl * b + (k - 1) * b + x]]]],
      randoms |-> DecSeq(w, r.randoms)]
=============================================================================
