-------------------------------- MODULE GF ----------------------------------
(***************************************************************************)
(* The field of 2^W elements (M01): elements are the integers below 2^W,   *)
(* read as polynomials over GF(2); addition is XOR, multiplication is that *)
(* of polynomials modulo x^W + Poly. The polynomial is a parameter: it is  *)
(* observed from the code and its irreducibility is checked.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise
CONSTANTS W, Poly

Pow2(k) == 2^k
\* --- operators for any field [w, poly] -----------------------------------
Dbl(w, poly, a) == IF a < 2^(w - 1) THEN 2 * a ELSE (2 * (a - 2^(w - 1))) ^^ poly
Bits(w) == [i \in 1..w |-> w - i]            \* bit positions, most significant first
BitOf(a, i) == (a \div 2^i) % 2
MulIn(w, poly, a, b) ==
  FoldLeft(LAMBDA acc, i : IF BitOf(b, i) = 1 THEN Dbl(w, poly, acc) ^^ a ELSE Dbl(w, poly, acc), 0, Bits(w))
\* An integer given by its bits, most significant first, modulo the polynomial.
ReduceIn(w, poly, bits) ==
  FoldLeft(LAMBDA acc, b : Dbl(w, poly, acc) ^^ b, 0, bits)

\* Remainder of the polynomial a modulo a polynomial b of degree d, for a of degree at most k.
PolyModD(a, k, b, d) ==
  FoldLeft(LAMBDA r, i : IF BitOf(r, i) = 1 THEN r ^^ (b * 2^(i - d)) ELSE r, a, [j \in 1..(k - d + 1) |-> k + 1 - j])
Irreducible(w, poly) ==
  \A d \in 1..(w \div 2) : \A b \in 2^d..(2^(d + 1) - 1) : PolyModD(2^w + poly, w, b, d) # 0

\* --- the field [W, Poly] --------------------------------------------------
Order == 2^W
Elem == 0..(Order - 1)
Add(a, b) == a ^^ b
SlowMul(a, b) == MulIn(W, Poly, a, b)
\* Tables for small fields: powers of a generator and logarithms.
PowersOf(g) == FoldLeft(LAMBDA acc, i : Append(acc, SlowMul(acc[Len(acc)], g)), <<1>>, [i \in 1..(Order - 2) |-> i])
IsGen(g) == LET s == PowersOf(g) IN Cardinality({ s[i] : i \in 1..Len(s) }) = Order - 1
Table == W <= 8
ExpTab == IF ~Table THEN <<>> ELSE IF W = 1 THEN <<1>> ELSE PowersOf(CHOOSE g \in 2..(Order - 1) : IsGen(g))
LogTab == IF ~Table THEN <<>> ELSE [a \in 1..(Order - 1) |-> CHOOSE i \in 1..(Order - 1) : ExpTab[i] = a]
Mul(a, b) == IF Table
             THEN IF a = 0 \/ b = 0 THEN 0 ELSE ExpTab[((LogTab[a] + LogTab[b] - 2) % (Order - 1)) + 1]
             ELSE SlowMul(a, b)
\* a^(2^W - 2)
Inv(a) == IF Table THEN ExpTab[((Order - LogTab[a]) % (Order - 1)) + 1]
          ELSE FoldLeft(LAMBDA acc, i : SlowMul(SlowMul(acc, acc), IF i < W THEN a ELSE 1), 1, [i \in 1..W |-> i])
Div(a, b) == Mul(a, Inv(b))

\* <<Op(1), ..., Op(n)>>, evaluated at once (TLC evaluates function constructors at each application).
Map(n, Op(_)) == FoldLeft(LAMBDA acc, i : Append(acc, Op(i)), <<>>, [i \in 1..n |-> i])
SumSeq(s) == FoldLeft(LAMBDA x, y : x ^^ y, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA x, y : Mul(x, y), 1, s)
Dot(u, v) == FoldLeft(LAMBDA acc, i : acc ^^ Mul(u[i], v[i]), 0, [i \in 1..Len(u) |-> i])
AddSeq(u, v) == [i \in 1..Len(u) |-> u[i] ^^ v[i]]
MulSeq(u, v) == [i \in 1..Len(u) |-> Mul(u[i], v[i])]
Scale(c, v) == [i \in 1..Len(v) |-> Mul(c, v[i])]

Distinct(s) == Cardinality({ s[i] : i \in 1..Len(s) }) = Len(s)

\* --- interpolation (M04) ----------------------------------------------------
\* Coefficients that map evaluations at the points xs to the evaluation at y.
LagrangeRow(xs, y) ==
  IF \E i \in 1..Len(xs) : xs[i] = y
  THEN Map(Len(xs), LAMBDA i : IF xs[i] = y THEN 1 ELSE 0)
  ELSE Map(Len(xs), LAMBDA i :
         LET J == SelectSeq([j \in 1..Len(xs) |-> j], LAMBDA j : j # i) IN
         Div(ProdSeq([k \in 1..Len(J) |-> y ^^ xs[J[k]]]), ProdSeq([k \in 1..Len(J) |-> xs[i] ^^ xs[J[k]]])))
Lagrange(xs, ys) == Map(Len(ys), LAMBDA r : LagrangeRow(xs, ys[r]))
Apply(m, v) == Map(Len(m), LAMBDA r : Dot(m[r], v))
=============================================================================
