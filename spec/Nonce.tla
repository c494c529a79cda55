-------------------------------- MODULE Nonce --------------------------------
(***************************************************************************)
(* How encryption matrices are assigned to gate blocks (G03). Matrices are *)
(* derived from nonces; a nonce is made of counters of the input wires per *)
(* slot, in the order left inputs, right inputs, padded with zeros.        *)
(* Blocks of up to L gates are added in any order; a wire may be used as   *)
(* left, right or only input and several times.                            *)
(*   Rule = "shared"    the inputs of a gate share a counter, one more     *)
(*                      than the largest so far of any of them             *)
(*   Rule = "position"  one counter per wire and input position            *)
(*   Rule = "wrap"      as shared, but counted modulo Mod                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Wires, L, MaxBlocks, Rule, Mod
VARIABLES blocks, cnt, nonces
vars == <<blocks, cnt, nonces>>
Keys == (1..L) \X Wires \X (0..2)
Init == blocks = <<>> /\ nonces = <<>> /\ cnt = [k \in Keys |-> 0]
Gates(arity) == [1..arity -> Wires]
Blocks == UNION { [1..len -> Gates(a)] : len \in 1..L, a \in 1..2 }
Key(s, g, i) == <<s, g[i], IF Rule = "position" THEN i ELSE 0>>
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Top(s, g) == SetMax({ cnt[Key(s, g, i)] : i \in DOMAIN g })
\* Counters after a block.
Counted(b) == [k \in Keys |->
                 IF k[1] \in DOMAIN b /\ \E i \in DOMAIN b[k[1]] : Key(k[1], b[k[1]], i) = k
                 THEN IF Rule = "position" THEN cnt[k] + 1 ELSE Top(k[1], b[k[1]]) + 1
                 ELSE cnt[k]]
Shown(v) == IF Rule = "wrap" THEN v % Mod ELSE v
NonceOf(b, c2) == [x \in 1..(2 * L) |->
                     LET i == ((x - 1) \div L) + 1  s == ((x - 1) % L) + 1 IN
                     IF s \in DOMAIN b /\ i \in DOMAIN b[s] THEN Shown(c2[Key(s, b[s], i)] - 1) ELSE 0]
AddBlock(b) == /\ Len(blocks) < MaxBlocks
               /\ blocks' = Append(blocks, b) /\ cnt' = Counted(b) /\ nonces' = Append(nonces, NonceOf(b, Counted(b)))
Next == \E b \in Blocks : AddBlock(b)
Spec == Init /\ [][Next]_vars
InputsAt(b, s) == { b[s][i] : i \in DOMAIN b[s] }
OnceWithKey == \A x \in 1..Len(blocks) : \A y \in (x + 1)..Len(blocks) :
                 (\E s \in DOMAIN blocks[x] \cap DOMAIN blocks[y] : InputsAt(blocks[x], s) \cap InputsAt(blocks[y], s) # {})
                 => nonces[x] # nonces[y]
=============================================================================
