------------------------------- MODULE Garble -------------------------------
(***************************************************************************)
(* Garbled circuits (G01, G02). Every wire has a mask bit and two keys.    *)
(* The table of a gate has a row for all masked values of its inputs; the  *)
(* row holds the masked value of the output and the key selected by it.    *)
(***************************************************************************)
EXTENDS Circuit
Flip(a, b) == (a + b) % 2
\* Masked output of a gate for masked inputs v and masks of inputs and output.
MaskedOut(t, v, lin, lout) == Flip(GateVal(t, [x \in 1..Len(v) |-> Flip(v[x], lin[x])]), lout)
\* Masked inputs belonging to a row (rows counted from 1).
RowInputs(t, r) == IF t = "INV" THEN <<r - 1>> ELSE <<(r - 1) \div 2, (r - 1) % 2>>
RowOf(t, v) == IF t = "INV" THEN v[1] + 1 ELSE 2 * v[1] + v[2] + 1
Rows(t) == IF t = "INV" THEN 2 ELSE 4
\* Amounts of material (R04, B02): blocks of a packed circuit with na, nx, ni gate blocks and nin input blocks.
Ceil(a, b) == (a + b - 1) \div b
Amounts(nin, na, nx, ni, n, t, l, key, mssg) ==
  LET blocks == nin + na + nx + ni
      rtrans == (Ceil(blocks, l) + Ceil(2 * na + 2 * nx + ni, l)) * (2 * key + 1)
      mult == na * (3 * (key + 1) + 1) + (nx + ni) * (key + 1)
  IN [masks |-> blocks, keys |-> <<2, key, blocks>>, randoms |-> rtrans * (n + t) + mult,
      zeros |-> rtrans * 2 * n + mult, errors |-> (4 * na + 4 * nx + 2 * ni) * mssg]
\* Amounts to be generated, including those consumed for the noise.
Generated(a) == [rand |-> a.keys[1] * a.keys[2] * a.keys[3] + a.randoms + 3 * a.errors,
                 zero |-> a.zeros + 2 * a.errors, bit |-> a.masks + 2 * a.errors]
=============================================================================
