------------------------------ MODULE Material -------------------------------
(***************************************************************************)
(* Where preprocessed sharings come from and go (R03, R04). Generation     *)
(* yields sequences of random, zero and bit sharings; the noise of each    *)
(* leader's batch takes from them, the rest is the material. Garbling      *)
(* takes from the material, task by task. Every sharing has a number, and  *)
(* the numbers taken by a task are recorded with the task.                 *)
(***************************************************************************)
EXTENDS Garble, FiniteSets
CONSTANTS Ns, Ls, T, KeyLen, MssgLen, MaxBlk, Less
VARIABLES par,     \* parties, packing, blocks
          pc,      \* next task
          pool,    \* sequences of the numbers that are left, by kind
          use      \* who took what: set of <<kind, number, task>>
vars == <<par, pc, pool, use>>
Kinds == {"rand", "zero", "bit", "error"}
A == Amounts(par.nin, par.na, par.nx, par.ni, par.n, T, par.l, KeyLen, MssgLen)
G == Generated(A)
Num(k) == [i \in 1..k |-> i]
Params == { p \in [n : Ns, l : Ls, nin : 1..MaxBlk, na : 0..MaxBlk, nx : 0..MaxBlk, ni : 0..MaxBlk] :
              p.na + p.nx + p.ni > 0 /\ p.n >= T + 2 * p.l /\ p.n >= 2 * T + 2 * p.l - 1 }
Init == /\ par \in Params
        /\ pc = <<"noise", 1>>
        /\ pool = [k \in Kinds |-> CASE k = "rand" -> Num(G.rand - (IF Less = "rand" THEN 1 ELSE 0))
                                     [] k = "zero" -> Num(G.zero - (IF Less = "zero" THEN 1 ELSE 0))
                                     [] k = "bit" -> Num(G.bit) [] OTHER -> <<>>]
        /\ use = {}
\* A task takes the first sharings of some kinds.
Enough(need) == \A k \in DOMAIN need : Len(pool[k]) >= need[k]
Taken(need, task) == UNION { { <<k, pool[k][i], task>> : i \in 1..need[k] } : k \in DOMAIN need }
After(need) == [k \in Kinds |-> IF k \in DOMAIN need THEN SubSeq(pool[k], need[k] + 1, Len(pool[k])) ELSE pool[k]]
Need(r, z, b, e) == [rand |-> r, zero |-> z, bit |-> b, error |-> e]
\* Noise: leader after leader, the last one takes the rest.
Batch(i) == IF i < par.n THEN A.errors \div par.n ELSE A.errors - (par.n - 1) * (A.errors \div par.n)
Noise == LET i == pc[2]  nd == Need(3 * Batch(i), 2 * Batch(i), 2 * Batch(i), 0) IN
         /\ pc[1] = "noise" /\ i <= par.n /\ Enough(nd)
         /\ use' = use \cup Taken(nd, <<"noise", i>>)
         /\ pool' = [After(nd) EXCEPT !["error"] = @ \o [j \in 1..Batch(i) |-> Len(@) + j]]
         /\ pc' = IF i = par.n THEN <<"keys", 1>> ELSE <<"noise", i + 1>>
         /\ UNCHANGED par
Take(name, i, nd, nxt) ==
  /\ pc = <<name, i>> /\ Enough(nd) /\ use' = use \cup Taken(nd, pc) /\ pool' = After(nd) /\ pc' = nxt /\ UNCHANGED par
Wires1 == 2 * KeyLen + 1
Nb == par.nin + par.na + par.nx + par.ni
Ng == par.na + par.nx + par.ni
TypeAt(i) == IF i <= par.na THEN "AND" ELSE IF i <= par.na + par.nx THEN "XOR" ELSE "INV"
Rt(blocks) == LET r == Ceil(blocks, par.l) * Wires1 IN Need(r * (par.n + T), r * 2 * par.n, 0, 0)
GateNeed(t) == CASE t = "AND" -> Need(3 * (KeyLen + 1) + 1, 3 * (KeyLen + 1) + 1, 0, 4 * MssgLen)
                 [] t = "XOR" -> Need(KeyLen + 1, KeyLen + 1, 0, 4 * MssgLen)
                 [] OTHER -> Need(KeyLen + 1, KeyLen + 1, 0, 2 * MssgLen)
Garbling == \/ Take("keys", 1, Need(2 * KeyLen * Nb, 0, Nb, 0), <<"out", 1>>)
            \/ Take("out", 1, Rt(Nb), <<"inp", 1>>)
            \/ Take("inp", 1, Rt(2 * par.na + 2 * par.nx + par.ni), <<"gate", 1>>)
            \/ \E i \in 1..Ng : Take("gate", i, GateNeed(TypeAt(i)), IF i = Ng THEN <<"done", 1>> ELSE <<"gate", i + 1>>)
Next == Noise \/ Garbling
Spec == Init /\ [][Next]_vars
\* No sharing is taken by two tasks (or twice by one: numbers in a pool are distinct).
Once == Cardinality({ <<u[1], u[2]>> : u \in use }) = Cardinality(use)
        /\ \A k \in Kinds : Cardinality({ pool[k][i] : i \in 1..Len(pool[k]) }) = Len(pool[k])
\* The amounts suffice and nothing is left.
Suffices == pc[1] = "done" \/ ENABLED Next
Exact == pc[1] = "done" => \A k \in Kinds : pool[k] = <<>>
=============================================================================
