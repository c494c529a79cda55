------------------------------- MODULE Share --------------------------------
(***************************************************************************)
(* Packed secret sharing (S01-S04). A sharing of degree d is a polynomial  *)
(* of at most that degree; parties hold its values at the points xs, the   *)
(* secrets are its values at the points pos.                               *)
(***************************************************************************)
EXTENDS GF
\* Matrix that maps the first d+1 shares to the remaining ones and to the secrets.
First(s, k) == SubSeq(s, 1, k)
CheckRows(xs, d) == Lagrange(First(xs, d + 1), SubSeq(xs, d + 2, Len(xs)))
SecretRows(xs, pos, d) == Lagrange(First(xs, d + 1), pos)
\* The shares lie on a polynomial of degree at most d.
ConsistentBy(rows, d, sh) == Apply(rows, First(sh, d + 1)) = SubSeq(sh, d + 2, Len(sh))
SecretsBy(rows, d, sh) == Apply(rows, First(sh, d + 1))
Consistent(xs, d, sh) == ConsistentBy(CheckRows(xs, d), d, sh)
SecretsOf(xs, pos, d, sh) == SecretsBy(SecretRows(xs, pos, d), d, sh)
\* Checked reconstruction.
Recon(xs, pos, d, sh) ==
  IF Len(sh) # Len(xs) THEN [res |-> "error", v |-> <<>>]
  ELSE IF Consistent(xs, d, sh) THEN [res |-> "ok", v |-> SecretsOf(xs, pos, d, sh)]
  ELSE [res |-> "malicious", v |-> <<>>]
\* All sharings of degree d, and those with given secrets.
SeqsOf(S, k) == [1..k -> S]
Extend(xs, d, first) == first \o Apply(CheckRows(xs, d), first)
AllSharings(xs, d) == { Extend(xs, d, f) : f \in SeqsOf(Elem, d + 1) }
SharingsOf(xs, pos, d, secrets) == { s \in AllSharings(xs, d) : SecretsOf(xs, pos, d, s) = secrets }
View(s, T) == [p \in T |-> s[p]]
=============================================================================
