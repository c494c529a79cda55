------------------------------- MODULE Proto --------------------------------
(***************************************************************************)
(* Protocols that open masked sharings to a leader (P01, P02, P04): degree *)
(* reduction, multiplication (local products, then reduction) and share    *)
(* transformation are one scheme. In an instance the parties hold          *)
(*   x   input shares (degree at most n-1, secrets at the points old)      *)
(*   m   shares of a mask of degree n-1, secrets at old                    *)
(*   r   shares of degree t+l-1, secrets at new, equal to f(secrets of m)  *)
(* They send x+m to the leader; the leader reconstructs, applies f, deals  *)
(* a fresh sharing at new; the result is the dealt share minus r.          *)
(* Several instances run concurrently, or one after another, over one      *)
(* network with FIFO links and a pool per party and identifier.            *)
(***************************************************************************)
EXTENDS Share
CONSTANTS N, T, L,
          Inst,          \* sequence of [leader, old, new, f, x, m, r, after, id]
          Coins          \* choices of the leader for the first T shares it deals
Parties == 1..N
Xs == [i \in 1..N |-> i]
D == T + L - 1
I == 1..Len(Inst)
VARIABLES ph,            \* ph[i][p]: idle, collect, wait, done
          link,          \* link[p][q]: messages under way
          pool,          \* pool[q]: messages that arrived and were not claimed, in order
          out            \* out[i][p]: result
vars == <<ph, link, pool, out>>
\* Selection: f[k] is the old slot that goes to the new slot k.
SelectBy(f, v) == Map(Len(f), LAMBDA k : v[f[k]])
\* The sharing of degree D with secrets v at pos whose first shares are the coins.
Deal(pos, v, coins) == Apply(Lagrange(pos \o SubSeq(Xs, 1, D + 1 - Len(pos)), Xs), v \o coins)
Opened(i) == Map(N, LAMBDA p : Inst[i].x[p] ^^ Inst[i].m[p])
Expected(i) == SelectBy(Inst[i].f, SecretsOf(Xs, Inst[i].old, N - 1, Inst[i].x))
Init == /\ ph = [i \in I |-> [p \in Parties |-> "idle"]]
        /\ link = [p \in Parties |-> [q \in Parties |-> <<>>]]
        /\ pool = [p \in Parties |-> <<>>]
        /\ out = [i \in I |-> [p \in Parties |-> -1]]
Msg(i, p, v) == [id |-> Inst[i].id, from |-> p, v |-> v]
Open(i, p) ==
  /\ ph[i][p] = "idle"
  /\ Inst[i].after # 0 => ph[Inst[i].after][p] = "done"
  /\ ph' = [ph EXCEPT ![i][p] = IF p = Inst[i].leader THEN "collect" ELSE "wait"]
  /\ link' = [link EXCEPT ![p][Inst[i].leader] = Append(@, Msg(i, p, Opened(i)[p]))]
  /\ UNCHANGED <<pool, out>>
Deliver(p, q) ==
  /\ link[p][q] # <<>>
  /\ pool' = [pool EXCEPT ![q] = Append(@, Head(link[p][q]))]
  /\ link' = [link EXCEPT ![p][q] = Tail(@)]
  /\ UNCHANGED <<ph, out>>
\* Positions in a pool of the first message of each party under an identifier.
FirstOf(q, id, p) == { k \in 1..Len(pool[q]) : pool[q][k].id = id /\ pool[q][k].from = p
                        /\ \A j \in 1..(k - 1) : ~(pool[q][j].id = id /\ pool[q][j].from = p) }
Without(s, K) == LET idx == SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : k \notin K) IN Map(Len(idx), LAMBDA k : s[idx[k]])
Collect(i) ==
  LET q == Inst[i].leader
      K == UNION { FirstOf(q, Inst[i].id, p) : p \in Parties }
      got == [p \in Parties |-> pool[q][CHOOSE k \in K : pool[q][k].from = p].v]
      v == SelectBy(Inst[i].f, SecretsOf(Xs, Inst[i].old, N - 1, [p \in 1..N |-> got[p]]))
  IN /\ ph[i][q] = "collect" /\ Cardinality(K) = N
     /\ \E c \in Coins : LET s == Deal(Inst[i].new, v, SubSeq(c, 1, D + 1 - Len(Inst[i].new))) IN
          link' = [link EXCEPT ![q] = [p \in Parties |-> Append(@[p], Msg(i, q, s[p]))]]
     /\ pool' = [pool EXCEPT ![q] = Without(@, K)]
     /\ ph' = [ph EXCEPT ![i][q] = "wait"]
     /\ UNCHANGED out
Finish(i, p) ==
  LET K == { k \in 1..Len(pool[p]) : pool[p][k].id = Inst[i].id /\ \A j \in 1..(k - 1) : pool[p][j].id # Inst[i].id }
  IN /\ ph[i][p] = "wait" /\ K # {}
     /\ out' = [out EXCEPT ![i][p] = pool[p][CHOOSE k \in K : TRUE].v ^^ Inst[i].r[p]]
     /\ pool' = [pool EXCEPT ![p] = Without(@, K)]
     /\ ph' = [ph EXCEPT ![i][p] = "done"]
     /\ UNCHANGED link
Next == \/ \E i \in I, p \in Parties : Open(i, p) \/ Finish(i, p)
        \/ \E i \in I : Collect(i)
        \/ \E p, q \in Parties : Deliver(p, q)
Spec == Init /\ [][Next]_vars
AllDone == \A i \in I, p \in Parties : ph[i][p] = "done"
\* Completed instances hold sharings of degree D of the expected secrets.
Right(i) == LET s == [p \in 1..N |-> out[i][p]] IN
            Consistent(Xs, D, s) /\ SecretsOf(Xs, Inst[i].new, D, s) = Expected(i)
Correct == \A i \in I : (\A p \in Parties : ph[i][p] = "done") => Right(i)
Residue == AllDone => (\A p \in Parties : pool[p] = <<>> /\ \A q \in Parties : link[p][q] = <<>>)
Completes == ENABLED Next \/ AllDone
=============================================================================
