-------------------------------- MODULE Span --------------------------------
(***************************************************************************)
(* Linear algebra over GF(2) on observations (P03, R02). An observation is *)
(* a sequence of words of at most 30 bits. A basis is a sequence of        *)
(* [k |-> word, b |-> value of the leading bit, v |-> row].                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
Seq1(n) == [i \in 1..n |-> i]
XorRow(u, v) == FoldLeft(LAMBDA acc, i : Append(acc, u[i] ^^ v[i]), <<>>, Seq1(Len(u)))
Reduced(basis, row) == FoldLeft(LAMBDA v, e : IF (v[e.k] \div e.b) % 2 = 1 THEN XorRow(v, e.v) ELSE v, row, basis)
Lead(x) == CHOOSE b \in { 2^i : i \in 0..29 } : b <= x /\ x - b < b
Insert(basis, row) ==
  LET v == Reduced(basis, row)
      nz == SelectSeq(Seq1(Len(v)), LAMBDA i : v[i] # 0)
  IN IF nz = <<>> THEN basis ELSE Append(basis, [k |-> nz[1], b |-> Lead(v[nz[1]]), v |-> v])
SpanOf(rows) == FoldLeft(LAMBDA s, r : Insert(s, r), <<>>, rows)
Extended(basis, rows) == FoldLeft(LAMBDA s, r : Insert(s, r), basis, rows)
Rank(rows) == Len(SpanOf(rows))
Diffs(base, rows) == FoldLeft(LAMBDA acc, r : Append(acc, XorRow(base, r)), <<>>, rows)
AffineRank(rows) == Rank(Diffs(rows[1], Tail(rows)))
\* Two sets of observations span the same affine space.
SameAffineSpan(a, b) ==
  LET sa == SpanOf(Diffs(a[1], Tail(a)))
  IN Len(sa) = AffineRank(b) /\ Len(Extended(sa, Diffs(a[1], b))) = Len(sa)
=============================================================================
