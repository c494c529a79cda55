----------------------------- MODULE TraceShare -----------------------------
(***************************************************************************)
(* Validates recorded sharings, reconstructions and local operations       *)
(* against Share (S01-S04). State: the scheme in use with its check        *)
(* matrices per degree, and registers holding sharings with their secrets. *)
(***************************************************************************)
EXTENDS Share, Json, IOUtils, TLC
St == INSTANCE Stat
Sp == INSTANCE Span
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceW == Trace[1].w
TracePoly == Trace[1].poly
VARIABLES l, conf, regs
tvars == <<l, conf, regs>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TInit == IsEvent("init") /\ Irreducible(W, Poly) /\ UNCHANGED <<conf, regs>>
Idx(s) == { s[i] : i \in 1..Len(s) }
\* A scheme: party positions xs, secret positions pos, degree d; degs are the degrees to prepare for.
TConf == /\ IsEvent("conf")
         /\ Len(E.xs) = E.n /\ Distinct(E.xs \o E.pos)
         /\ E.reported = <<E.n, Len(E.pos), E.d>>
         /\ conf' = [n |-> E.n, d |-> E.d, l |-> Len(E.pos),
                     c |-> Map(Len(E.degs), LAMBDA i : CheckRows(E.xs, E.degs[i])),
                     s |-> Map(Len(E.degs), LAMBDA i : SecretRows(E.xs, E.pos, E.degs[i])),
                     ix |-> [d \in Idx(E.degs) |-> CHOOSE i \in 1..Len(E.degs) : E.degs[i] = d]]
         /\ regs' = <<>>
OnPoly(d, sh) == Len(sh) = conf.n /\ ConsistentBy(conf.c[conf.ix[d]], d, sh)
SecretsAt(d, sh) == SecretsBy(conf.s[conf.ix[d]], d, sh)
StartsWith(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
\* A dealt sharing: on a polynomial of the degree, with the given secrets; all reconstructions return its secrets.
DealtRight(x) ==
  LET v == SecretsAt(conf.d, x.shares)
  IN /\ OnPoly(conf.d, x.shares)
     /\ StartsWith(x.secrets, v)
     /\ \A i \in 1..Len(x.recons) : x.recons[i] = v
     /\ Len(x.recons) > 0
TShare == IsEvent("share") /\ (DealtRight(E) = TRUE) /\ UNCHANGED <<conf, regs>>
\* Checked reconstruction of arbitrary shares.
CheckedRight(x) ==
  IF Len(x.shares) # conf.n THEN x.res \in {"other", "malicious"}
  ELSE IF OnPoly(conf.d, x.shares) THEN x.res = "ok" /\ x.secrets = SecretsAt(conf.d, x.shares)
  ELSE x.res = "malicious"
TChecked == IsEvent("checked") /\ (CheckedRight(E) = TRUE) /\ UNCHANGED <<conf, regs>>
\* Many at once: parallel sequences of shares and results (secrets as sequences).
TMany == /\ IsEvent("many") /\ UNCHANGED <<conf, regs>>
         /\ ((\A i \in 1..Len(E.shares) : CheckedRight([shares |-> E.shares[i], res |-> E.res[i], secrets |-> E.secrets[i]])) = TRUE)
\* Local operations on registers.
TReg == /\ IsEvent("reg") /\ OnPoly(E.d, E.shares) /\ SecretsAt(E.d, E.shares) = E.secrets
        /\ regs' = Append(regs, [d |-> E.d, v |-> E.secrets]) /\ UNCHANGED conf
Larger(a, b) == IF a > b THEN a ELSE b
Expected(x) ==
  LET a == regs[x.i]  b == regs[x.j]
  IN CASE x.op = "add" -> [d |-> Larger(a.d, b.d), v |-> AddSeq(a.v, b.v)]
       [] x.op = "sub" -> [d |-> Larger(a.d, b.d), v |-> AddSeq(a.v, b.v)]
       [] x.op = "mul" -> [d |-> a.d + b.d, v |-> MulSeq(a.v, b.v)]
       [] x.op = "scale" -> [d |-> a.d, v |-> Scale(x.c, a.v)]
       [] x.op = "const" -> [d |-> a.d, v |-> Map(Len(a.v), LAMBDA k : a.v[k] ^^ x.c)]
OpRight(x) == LET r == Expected(x) IN
              /\ x.d = r.d /\ OnPoly(r.d, x.shares) /\ SecretsAt(r.d, x.shares) = r.v
              /\ x.recon = r.v
TOp == IsEvent("op") /\ (OpRight(E) = TRUE) /\ regs' = Append(regs, Expected(E)) /\ UNCHANGED conf
\* Positions of parties, default slots and wires.
TPos == /\ IsEvent("positions") /\ UNCHANGED <<conf, regs>>
        /\ Len(E.parties) = E.n /\ Len(E.slots) = E.l /\ Len(E.wires) = E.k
        /\ Distinct(E.parties \o E.slots \o E.wires)
        /\ \A i \in 1..Len(E.same) : E.same[i] = TRUE
\* All sharings the coins can produce for given secrets: t shares are uniform.
SpaceRight(x) ==
  LET tot == Len(x.shares)
      t == conf.d + 1 - conf.l
  IN /\ \A i \in 1..tot : OnPoly(conf.d, x.shares[i]) /\ StartsWith(x.secrets, SecretsAt(conf.d, x.shares[i]))
     /\ tot = Order^(t + conf.l - Len(x.secrets))
     /\ Cardinality({ x.shares[i] : i \in 1..tot }) = tot
     /\ IF Len(x.secrets) = conf.l
        THEN \A q \in { y \in SUBSET (1..conf.n) : Cardinality(y) = t } :
               Cardinality({ View(x.shares[i], q) : i \in 1..tot }) = tot
        ELSE TRUE
TSpace == IsEvent("space") /\ (SpaceRight(E) = TRUE) /\ UNCHANGED <<conf, regs>>
\* As many shares per call as there are coins are independent: over repetitions their bits span everything
\* (fails with probability below 2^-70 for uniform coins).
FreeRight(x) ==
  LET k == (conf.d + 1 - x.given) * x.calls
  IN /\ \A i \in 1..Len(x.rows) : Len(x.rows[i]) = k
     /\ Sp!AffineRank(x.rows) = k * W
TFree == IsEvent("free") /\ (FreeRight(E) = TRUE) /\ UNCHANGED <<conf, regs>>
THist == IsEvent("hist") /\ (St!Uniform(E) = TRUE) /\ UNCHANGED <<conf, regs>>
TraceInit == l = 1 /\ conf = <<>> /\ regs = <<>>
TraceNext == TInit \/ TConf \/ TShare \/ TChecked \/ TMany \/ TReg \/ TOp \/ TPos \/ TSpace \/ TFree \/ THist
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
