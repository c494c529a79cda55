------------------------------ MODULE TraceMPC ------------------------------
(***************************************************************************)
(* Validates recorded runs of the multi-party protocols (P01-P04, R01-R04) *)
(* against Share, Proto's contract and Span. State: the parameters of the  *)
(* parties with the matrices of both degrees at the default positions.     *)
(***************************************************************************)
EXTENDS Share, Json, IOUtils, TLC
St == INSTANCE Stat
Sp == INSTANCE Span
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceW == Trace[1].w
TracePoly == Trace[1].poly
VARIABLES l, c
tvars == <<l, c>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TInit == IsEvent("init") /\ Irreducible(W, Poly) /\ UNCHANGED c
TCtx == /\ IsEvent("ctx") /\ Distinct(E.xs \o E.def) /\ Len(E.xs) = E.n /\ Len(E.def) = E.l
        /\ LET d == E.t + E.l - 1 IN
           c' = [n |-> E.n, t |-> E.t, l |-> E.l, d |-> d, xs |-> E.xs,
                 chk |-> CheckRows(E.xs, d), sec |-> SecretRows(E.xs, E.def, d), secn |-> SecretRows(E.xs, E.def, E.n - 1)]
\* Sharings of degree t+l-1 (low) and n-1 (high) and their secrets at the default positions.
Low(s) == Len(s) = c.n /\ ConsistentBy(c.chk, c.d, s)
High(s) == Len(s) = c.n
SecLow(s) == SecretsBy(c.sec, c.d, s)
SecHigh(s) == SecretsBy(c.secn, c.n - 1, s)
All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
AllIdx(n, P(_)) == \A i \in 1..n : P(i)

\* --- completion (P04) ---------------------------------------------------------
TRun == IsEvent("run") /\ E.status = "done" /\ E.unclaimed = 0 /\ E.inflight = 0 /\ UNCHANGED c
\* --- degree reduction, multiplication, transformation (P01, P02) ----------------
ReduceRight(x) == Len(x.out) = Len(x.x)
                  /\ AllIdx(Len(x.x), LAMBDA i : Low(x.out[i]) /\ SecLow(x.out[i]) = SecHigh(x.x[i]))
MultRight(x) == Len(x.out) = Len(x.x)
                /\ AllIdx(Len(x.x), LAMBDA i : Low(x.out[i]) /\ SecLow(x.out[i]) = MulSeq(SecLow(x.x[i]), SecLow(x.y[i])))
Pick(f, v) == Map(Len(f), LAMBDA k : v[f[k]])
TransRight(x) ==
  LET so == SecretRows(c.xs, x.old, c.n - 1)
      sn == SecretRows(c.xs, x.new, c.d)
  IN Len(x.out) = Len(x.x)
     /\ AllIdx(Len(x.x), LAMBDA i : Low(x.out[i])
                 /\ SecretsBy(sn, c.d, x.out[i]) = Pick(x.f, SecretsBy(so, c.n - 1, x.x[i])))
\* Pairs for one transformation: r of low degree at new, rn of high degree at old.
PairsRight(x) ==
  LET so == SecretRows(c.xs, x.old, c.n - 1)
      sn == SecretRows(c.xs, x.new, c.d)
  IN Len(x.r) = x.num /\ Len(x.rn) = x.num
     /\ AllIdx(x.num, LAMBDA i : Low(x.r[i]) /\ High(x.rn[i])
                 /\ SecretsBy(sn, c.d, x.r[i]) = Pick(x.f, SecretsBy(so, c.n - 1, x.rn[i])))
TReduce == IsEvent("reduce") /\ (ReduceRight(E) = TRUE) /\ UNCHANGED c
TMult == IsEvent("mult") /\ (MultRight(E) = TRUE) /\ UNCHANGED c
TTrans == IsEvent("trans") /\ (TransRight(E) = TRUE) /\ UNCHANGED c
TPairs == IsEvent("pairs") /\ (PairsRight(E) = TRUE) /\ UNCHANGED c
\* --- distributions (P01-P03, R02) -----------------------------------------------
\* Observations of one experiment span an affine space of this dimension (bits).
TRank == IsEvent("rank") /\ (Sp!AffineRank(E.rows) = E.dim) /\ UNCHANGED c
\* Observations for different secrets span the same affine space.
TViews == IsEvent("views") /\ (Sp!SameAffineSpan(E.a, E.b) = TRUE) /\ UNCHANGED c
\* Given the view of some parties, the rest has this many free bits.
TGiven == /\ IsEvent("given") /\ UNCHANGED c
          /\ (Sp!AffineRank(E.joint) - Sp!AffineRank(E.view) = E.dim)
THist == IsEvent("hist") /\ (St!Uniform(E) = TRUE) /\ UNCHANGED c
\* --- joint generation (R01) --------------------------------------------------------
Valid(kind, s) == CASE kind = "rand" -> Low(s)
                    [] kind = "zero" -> High(s) /\ All(SecHigh(s), LAMBDA v : v = 0)
                    [] kind = "bit" -> Low(s) /\ All(SecLow(s), LAMBDA v : v \in {0, 1})
                    [] OTHER -> FALSE
Column(x, p, b) == Map(Len(x.dealt), LAMBDA j : x.dealt[j][b][p])
\* Image of the sharings dealt in batch b under the matrix, party by party: rows of sharings.
Image(x, b) == LET per == Map(c.n, LAMBDA p : Apply(x.m, Column(x, p, b)))
               IN { Map(c.n, LAMBDA p : per[p][k]) : k \in 1..Len(x.m) }
GenRight(x) ==
  LET nb == IF Len(x.dealt) = 0 THEN 0 ELSE Len(x.dealt[1])
  IN /\ Len(x.out) >= x.num /\ Len(x.dealt) = c.n
     /\ All(x.dealt, LAMBDA ds : Len(ds) = nb /\ All(ds, LAMBDA s : Valid(x.kind, s)))
     /\ All(x.out, LAMBDA s : Valid(x.kind, s))
     /\ Len(x.out) <= nb * Len(x.m)
     /\ { x.out[i] : i \in 1..Len(x.out) } \subseteq UNION { Image(x, b) : b \in 1..nb }
     /\ IF x.fresh THEN /\ Cardinality({ x.dealt[j][b] : j \in 1..c.n, b \in 1..nb }) = c.n * nb
                        /\ Cardinality({ x.out[i] : i \in 1..Len(x.out) }) = Len(x.out)
        ELSE TRUE
TGen == IsEvent("generated") /\ (GenRight(E) = TRUE) /\ UNCHANGED c
\* --- preprocessing (R03, R04) -----------------------------------------------------
\* Sharings of one component of the material.
PartRight(x) == /\ IF x.exact THEN Len(x.shares) = x.want ELSE Len(x.shares) >= x.want
                /\ All(x.shares, LAMBDA s : Valid(x.kind, s))
TPart == IsEvent("part") /\ (PartRight(E) = TRUE) /\ UNCHANGED c
\* Amounts at every party.
TAmounts == /\ IsEvent("amounts") /\ UNCHANGED c
            /\ \A p \in 1..Len(E.got) : \A k \in 1..Len(E.want) :
                 IF E.exact THEN E.got[p][k] = E.want[k] ELSE E.got[p][k] >= E.want[k]
\* No sharing occurs twice (all components of one run).
TOnce == /\ IsEvent("once") /\ UNCHANGED c
         /\ Cardinality({ E.shares[i] : i \in 1..Len(E.shares) }) = Len(E.shares)
\* Noise: secrets of the error sharings; P(0) = 3/4 + 1/(4q), any other value 1/(4q), slots independent.
Zeros(secs, k) == Cardinality({ i \in 1..Len(secs) : secs[i][k] = 0 })
Vals(secs, k, v) == Cardinality({ i \in 1..Len(secs) : secs[i][k] = v })
NearP(cnt, tot, num, den) == LET mean == (tot * num) \div den IN
                             (cnt - mean) * (cnt - mean) <= 64 * (IF mean > tot - mean THEN (tot - mean) + 1 ELSE mean + 1)
NoiseRight(x) ==
  LET secs == Map(Len(x.shares), LAMBDA i : SecLow(x.shares[i]))
      tot == Len(secs)
      q == Order
      nz(i, k) == secs[i][k] # 0
  IN /\ All(x.shares, Low)
     /\ \A k \in 1..c.l : /\ NearP(Zeros(secs, k), tot, 3 * q + 1, 4 * q)
                          /\ \A v \in 1..(q - 1) : NearP(Vals(secs, k, v), tot, 1, 4 * q)
     \* both of two slots, or of two successive sharings, nonzero: (1/4 (1 - 1/q))^2
     /\ \A k1 \in 1..c.l : \A k2 \in (k1 + 1)..c.l :
          NearP(Cardinality({ i \in 1..tot : nz(i, k1) /\ nz(i, k2) }), tot, (q - 1) * (q - 1), 16 * q * q)
     /\ \A k \in 1..c.l : \A dist \in {1, 2, 3, x.batch} :
          dist < tot => NearP(Cardinality({ i \in 1..(tot - dist) : nz(i, k) /\ nz(i + dist, k) }), tot - dist, (q - 1) * (q - 1), 16 * q * q)
\* Secrets of many runs: masks, field elements, noise. Whether a noise value is nonzero does not depend on
\* a mask, and it is not one of the other values.
IndepRight(x) ==
  LET tot == Len(x.errs)
      q == Order
      idx(s) == 1..Len(s[1])
  IN /\ \A i \in idx(x.bits) : /\ \A k \in 1..tot : x.bits[k][i] \in {0, 1}
                               /\ NearP(Cardinality({ k \in 1..tot : x.bits[k][i] = 1 }), tot, 1, 2)
     /\ \A i \in idx(x.bits) : \A j \in idx(x.errs) :
          NearP(Cardinality({ k \in 1..tot : x.bits[k][i] = 1 /\ x.errs[k][j] # 0 }), tot, q - 1, 8 * q)
     /\ \A i \in idx(x.vals) : \A j \in idx(x.errs) :
          NearP(Cardinality({ k \in 1..tot : x.errs[k][j] # 0 /\ x.errs[k][j] = x.vals[k][i] }), tot, q - 1, 4 * q * q)
     /\ \A i, j \in idx(x.errs) : i < j =>
          /\ NearP(Cardinality({ k \in 1..tot : x.errs[k][i] # 0 /\ x.errs[k][j] # 0 }), tot, (q - 1) * (q - 1), 16 * q * q)
          /\ NearP(Cardinality({ k \in 1..tot : x.errs[k][i] # 0 /\ x.errs[k][i] = x.errs[k][j] }), tot, q - 1, 16 * q * q)
TIndep == IsEvent("indep") /\ (IndepRight(E) = TRUE) /\ UNCHANGED c
TNoise == IsEvent("noise") /\ (NoiseRight(E) = TRUE) /\ UNCHANGED c
TraceInit == l = 1 /\ c = <<>>
TraceNext == TInit \/ TCtx \/ TRun \/ TReduce \/ TMult \/ TTrans \/ TPairs \/ TRank \/ TViews \/ TGiven \/ THist
             \/ TGen \/ TPart \/ TAmounts \/ TOnce \/ TNoise \/ TIndep
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
