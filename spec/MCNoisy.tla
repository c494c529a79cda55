------------------------------ MODULE MCNoisy -------------------------------
(***************************************************************************)
(* A row with noise (G04): pad + encoding of key and masked value + noise. *)
(* The evaluator removes the pad with the keys it holds and takes the      *)
(* nearest codeword. All types of gates, rows, masks, output keys and      *)
(* noise patterns of weight at most Weight, for a code of length N that    *)
(* evaluates polynomials at distinct points. Up to half the redundancy the *)
(* right key and value are found; one symbol more must fail, and so must a *)
(* code whose points are not distinct (Pts).                               *)
(***************************************************************************)
EXTENDS GF, Garble, TLC
CONSTANTS Pts, Weight, PadKeys
VARIABLES row, noise
vars == <<row, noise>>
N == Len(Pts)
Enc == Map(N, LAMBDA i : <<1, Pts[i]>>)                    \* key, masked value
Mat == Map(N, LAMBDA i : <<Mul(Pts[i], 3) ^^ 1>>)           \* public matrix of the row
Messages == Elem \X Elem
Sum(a, b) == Map(N, LAMBDA i : a[i] ^^ b[i])
Encode(m) == Apply(Enc, m)
\* (as a sequence, evaluated once)
Tab == Map(Order, LAMBDA k : Map(Order, LAMBDA v : Encode(<<k - 1, v - 1>>)))
Code(m) == Tab[m[1] + 1][m[2] + 1]
Far(a, b) == FoldLeft(LAMBDA k, i : IF a[i] # b[i] THEN k + 1 ELSE k, 0, [i \in 1..N |-> i])
None == Map(N, LAMBDA i : 0)
Noises == { e \in [1..N -> Elem] : Far(e, None) <= Weight }
Inputs(t) == IF t = "INV" THEN 1 ELSE 2
Init == /\ noise = <<>>
        /\ row \in UNION { [t : {t}, r : 1..Rows(t), lin : [1..Inputs(t) -> 0..1], lout : 0..1, pad : PadKeys, key : Elem] : t \in {"AND", "XOR", "INV"} }
Next == noise = <<>> /\ noise' \in Noises /\ UNCHANGED row
Spec == Init /\ [][Next]_vars
Chi == MaskedOut(row.t, RowInputs(row.t, row.r), row.lin, row.lout)
Sent == Sum(Sum(Apply(Mat, <<row.pad>>), Encode(<<row.key, Chi>>)), noise)
\* The right message is strictly nearest to the word without its pad.
Decoded == noise # <<>> =>
  LET w == Sum(Sent, Apply(Mat, <<row.pad>>))
      right == <<row.key, Chi>>
      d == Far(Code(right), w)
  IN \A m \in Messages : m # right => Far(Code(m), w) > d
Four == <<0, 1, 2, 3>>
Twice == <<0, 1, 2, 2>>
Six == <<0, 1, 2, 3, 4, 5>>
=============================================================================
