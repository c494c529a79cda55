-------------------------------- MODULE Cost --------------------------------
(***************************************************************************)
(* Communication of garbling and preprocessing, counted in field elements  *)
(* over all pairs of parties (E01). In a sharing by all and in an opening  *)
(* every party sends one element to everyone; a reduction takes n elements *)
(* to its leader and n back. Only the transformations differ between what  *)
(* is sent and what is estimated: their batches are filled per key symbol, *)
(* the estimate fills them across all symbols.                             *)
(***************************************************************************)
EXTENDS Garble
\* x: n, t, l, key, mssg, dim (sharings of bits per batch); b: blocks nin, na, nx, ni of the packed circuit.
Material(x, b) == Amounts(b.nin, b.na, b.nx, b.ni, x.n, x.t, x.l, x.key, x.mssg)
WireBlocks(b) == b.nin + b.na + b.nx + b.ni
EndBlocks(b) == 2 * b.na + 2 * b.nx + b.ni
Products(x, b) == b.na * (3 * (x.key + 1) + 1) + (b.nx + b.ni) * (x.key + 1)
Reduction(x, k) == k * 2 * x.n
Everyone(x, k) == x.n * k * x.n
\* --- what is sent ------------------------------------------------------------------
TransBatches(x, b) == (Ceil(WireBlocks(b), x.l) + Ceil(EndBlocks(b), x.l)) * (2 * x.key + 1)
Transforms(x, b) == (WireBlocks(b) + EndBlocks(b)) * (2 * x.key + 1)
SentTrans(x, b) == Everyone(x, 2 * TransBatches(x, b)) + Reduction(x, Transforms(x, b))
SentPlain(x, b) == Reduction(x, Products(x, b))
SentGarbling(x, b) == SentTrans(x, b) + SentPlain(x, b)
SentPreproc(x, b) ==
  LET g == Generated(Material(x, b)) IN
  Everyone(x, Ceil(g.rand, x.n - x.t) + Ceil(g.zero, x.n - x.t) + Ceil(g.bit, x.dim)) + Reduction(x, 2 * Material(x, b).errors)
\* --- the estimate --------------------------------------------------------------------
EstBatches(x, b) == Ceil(WireBlocks(b) * (2 * x.key + 1), x.l) + Ceil(EndBlocks(b) * (2 * x.key + 1), x.l)
EstTrans(x, b) == Everyone(x, 2 * EstBatches(x, b)) + Reduction(x, Transforms(x, b))
EstGenerated(x, b) ==
  LET e == Material(x, b).errors IN
  [rand |-> 2 * x.key * WireBlocks(b) + EstBatches(x, b) * (x.n + x.t) + Products(x, b) + 3 * e,
   zero |-> EstBatches(x, b) * 2 * x.n + Products(x, b) + 2 * e, bit |-> WireBlocks(b) + 2 * e]
EstErrors(x, b) == Reduction(x, 2 * Material(x, b).errors)
EstRand(x, b) == Everyone(x, Ceil(EstGenerated(x, b).rand, x.n - x.t))
EstZero(x, b) == Everyone(x, Ceil(EstGenerated(x, b).zero, x.n - x.t))
EstBit(x, b) == Everyone(x, Ceil(EstGenerated(x, b).bit, x.dim))
EstGarbling(x, b) == EstTrans(x, b) + SentPlain(x, b)
EstPreproc(x, b) == EstErrors(x, b) + EstRand(x, b) + EstZero(x, b) + EstBit(x, b)
\* --- how they relate -------------------------------------------------------------------
Full(x, b) == WireBlocks(b) % x.l = 0 /\ EndBlocks(b) % x.l = 0
NeverMore(x, b) == EstGarbling(x, b) <= SentGarbling(x, b) /\ EstPreproc(x, b) <= SentPreproc(x, b)
EqualIfFull(x, b) == Full(x, b) => EstGarbling(x, b) = SentGarbling(x, b) /\ EstPreproc(x, b) = SentPreproc(x, b)
\* The difference is at most one batch less one for each key symbol and kind of transformation.
NearlyEqual(x, b) == TransBatches(x, b) - EstBatches(x, b) <= 2 * (2 * x.key + 1)
=============================================================================
