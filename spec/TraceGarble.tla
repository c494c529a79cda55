----------------------------- MODULE TraceGarble ----------------------------
(***************************************************************************)
(* Validates recorded garblings against Garble and Circuit (G01-G04, P04,  *)
(* R04). The tables are what the parties output; masks, keys and noise are *)
(* the secrets of the material they were given. The public matrices are    *)
(* unknown to the specification: the recorder derives them from some of    *)
(* the runs, and all tables of all runs must agree with the same matrices. *)
(***************************************************************************)
EXTENDS Share, Garble, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceW == Trace[1].w
TracePoly == Trace[1].poly
VARIABLES l, c, gg      \* parties; circuit and matrices
tvars == <<l, c, gg>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TInit == IsEvent("init") /\ Irreducible(W, Poly) /\ UNCHANGED <<c, gg>>
TCtx == /\ IsEvent("ctx") /\ Distinct(E.xs \o E.def) /\ Len(E.xs) = E.n /\ Len(E.def) = E.l /\ UNCHANGED gg
        /\ LET d == E.t + E.l - 1 IN
           c' = [n |-> E.n, t |-> E.t, l |-> E.l, d |-> d, xs |-> E.xs,
                 chk |-> CheckRows(E.xs, d), sec |-> SecretRows(E.xs, E.def, d), secn |-> SecretRows(E.xs, E.def, E.n - 1)]
TRun == IsEvent("run") /\ E.status = "done" /\ E.unclaimed = 0 /\ E.inflight = 0 /\ UNCHANGED <<c, gg>>
\* --- circuit --------------------------------------------------------------------
\* Place of every wire: block and slot.
Outs(x) == x.inputs \o Map(Len(x.gates), LAMBDA b : x.gates[b].o)
PlacesFlat(x) == LET os == Outs(x) IN
            FoldLeft(LAMBDA f, b : FoldLeft(LAMBDA h, s : [h EXCEPT ![os[b][s] + 1] = <<b, s>>], f, [s \in 1..Len(os[b]) |-> s]),
                     [w \in 1..x.circ.nw |-> <<0, 0>>], [b \in 1..Len(os) |-> b])
Identity(k) == Map(k, LAMBDA i : Map(k, LAMBDA j : IF i = j THEN 1 ELSE 0))
Times(a, b) == Map(Len(a), LAMBDA i : Map(Len(b[1]), LAMBDA j : Dot(a[i], Map(Len(b), LAMBDA k : b[k][j]))))
TCirc == /\ IsEvent("circ") /\ UNCHANGED c
         /\ (PackRight(E.circ, c.l, E) = TRUE)
         /\ Len(E.enc) = E.mssg
         /\ (Times(E.dec, SubSeq(E.enc, 1, E.key + 1)) = Identity(E.key + 1))
         /\ gg' = [circ |-> E.circ, gates |-> E.gates, nin |-> Len(E.inputs), place |-> PlacesFlat(E), key |-> E.key, mssg |-> E.mssg,
                  enc |-> E.enc, dec |-> E.dec, mats |-> E.mats]
\* --- tables -----------------------------------------------------------------------
Place(w) == gg.place[w + 1]
MaskOf(x, w) == x.masks[Place(w)[1]][Place(w)[2]]
KeyOf(x, w, v) == Map(gg.key, LAMBDA k : x.keys[v + 1][k][Place(w)[1]][Place(w)[2]])
Plus(a, b) == Map(Len(a), LAMBDA i : a[i] ^^ b[i])
\* Contents of a row: symbols of all slots. (Table shares of any n parties lie on a polynomial of degree n-1.)
Word(x, b, r, s) == Map(gg.mssg, LAMBDA y : x.t[b][r][y][s])
\* Mask of a row: matrix times the sum of the keys; the matrix is unknown (<<>>) if the sum is always zero.
Pad(b, r, s, k) == IF gg.mats[b][r][s] = <<>> THEN Map(gg.mssg, LAMBDA y : 0) ELSE Apply(gg.mats[b][r][s], k)
Opened(b) == Map(Len(b), LAMBDA r : Map(Len(b[r]), LAMBDA y : SecretsBy(c.secn, c.n - 1, b[r][y])))
\* The table event with reconstructed symbols.
Shown(x) == [t |-> Map(Len(x.t), LAMBDA b : Opened(x.t[b])), masks |-> x.masks, keys |-> x.keys]
ShapeRight(x) == /\ Len(x.t) = Len(gg.gates)
                 /\ \A b \in 1..Len(x.t) : /\ Len(x.t[b]) = Rows(gg.gates[b].t)
                                           /\ \A r \in 1..Len(x.t[b]) : /\ Len(x.t[b][r]) = gg.mssg
                                                                        /\ \A y \in 1..gg.mssg : Len(x.t[b][r][y]) = c.n
\* What a row holds in a slot, apart from noise.
Due(x, b, s, r) ==
  LET gt == gg.gates[b]
      v == RowInputs(gt.t, r)
      ins == Map(Len(gt.i), LAMBDA i : gt.i[i][s])
      o == gt.o[s]
      chi == MaskedOut(gt.t, v, Map(Len(ins), LAMBDA i : MaskOf(x, ins[i])), MaskOf(x, o))
      k == FoldLeft(LAMBDA a, i : Plus(a, KeyOf(x, ins[i], v[i])), Map(gg.key, LAMBDA i : 0), Map(Len(ins), LAMBDA i : i))
  IN Plus(Pad(b, r, s, k), Apply(gg.enc, KeyOf(x, o, chi) \o <<chi>>))
RowRight(x, b, s, r) == Word(x, b, r, s) = Due(x, b, s, r)
RowsRight(x) == \A b \in 1..Len(gg.gates) : \A s \in 1..Len(gg.gates[b].o) : \A r \in 1..Rows(gg.gates[b].t) : RowRight(x, b, s, r)
\* The evaluator: from keys and masked values of the inputs of a gate to those of its output.
\* The state maps wires (from 1) to <<masked value, key>>, or to <<>> if not yet known.
Decode(word) == LET m == Apply(gg.dec, SubSeq(word, 1, gg.key + 1)) IN
                IF Apply(gg.enc, m) = word THEN m ELSE <<>>
EvalSlot(x, st, b, s) ==
  LET gt == gg.gates[b]
      ins == Map(Len(gt.i), LAMBDA i : st[gt.i[i][s] + 1])
      r == RowOf(gt.t, Map(Len(ins), LAMBDA i : ins[i][1]))
      k == FoldLeft(LAMBDA a, i : Plus(a, i[2]), Map(gg.key, LAMBDA i : 0), ins)
      m == Decode(Plus(Word(x, b, r, s), Pad(b, r, s, k)))
  IN IF m = <<>> \/ m[gg.key + 1] \notin {0, 1} THEN <<>> ELSE <<m[gg.key + 1], SubSeq(m, 1, gg.key)>>
EvalAll(x, inp) ==
  LET vals == Start(gg.circ, inp)
      first == Map(gg.circ.nw, LAMBDA w : IF w <= Width(gg.circ.inw)
                                         THEN LET v == Flip(vals[w - 1], MaskOf(x, w - 1)) IN <<v, KeyOf(x, w - 1, v)>> ELSE <<>>)
      step(st, gt) == LET p == Place(gt.o) IN
                      IF \E i \in 1..Len(gt.i) : st[gt.i[i] + 1] = <<>> THEN st
                      ELSE [st EXCEPT ![gt.o + 1] = EvalSlot(x, st, p[1] - gg.nin, p[2])]
  IN FoldLeft(step, first, gg.circ.gates)
EvaluationRight(x, inp) ==
  LET st == EvalAll(x, inp)
      vals == EvalWires(gg.circ, inp)
  IN /\ \A w \in 1..gg.circ.nw : /\ st[w] # <<>>
                                /\ st[w][1] = Flip(vals[w - 1], MaskOf(x, w - 1))
                                /\ st[w][2] = KeyOf(x, w - 1, st[w][1])
     \* outputs after unmasking
     /\ Select([w \in Wires(gg.circ) |-> Flip(st[w + 1][1], MaskOf(x, w))], OutputGroups(gg.circ)) = Eval(gg.circ, inp)
TableRight(x) == /\ ShapeRight(x)
                 /\ LET y == Shown(x) IN /\ (x.rows => RowsRight(y))
                                         /\ \A i \in 1..Len(x.inputs) : EvaluationRight(y, x.inputs[i])
TTable == IsEvent("table") /\ (TableRight(E) = TRUE) /\ UNCHANGED <<c, gg>>
\* --- noise: the same garbling without and with noise ---------------------------------
\* Every symbol of the table carries one of the noise sharings, every sharing is used exactly once.
NoiseOnce(x) ==
  LET d0 == Map(Len(x.t0), LAMBDA b : Opened(x.t0[b]))
      d1 == Map(Len(x.t1), LAMBDA b : Opened(x.t1[b]))
      diff == { <<b, r, y>> \in (1..Len(d0)) \X (1..4) \X (1..gg.mssg) : r <= Len(d0[b]) }
      \* in the used slots of the block
      val(p) == SubSeq(Plus(d1[p[1]][p[2]][p[3]], d0[p[1]][p[2]][p[3]]), 1, Len(gg.gates[p[1]].o))
      vals == { val(p) : p \in diff }
      starts == UNION { { SubSeq(x.errors[i], 1, k) : k \in 1..c.l } : i \in 1..Len(x.errors) }
      ones(S) == { v[1] : v \in S }
  IN /\ Len(x.errors) = Cardinality(diff)
     \* (the recorder chose noise that differs in the first slot)
     /\ vals \subseteq starts
     /\ Cardinality(ones(vals)) = Len(x.errors)
TNoiseRun == IsEvent("noise") /\ (NoiseOnce(E) = TRUE) /\ UNCHANGED <<c, gg>>
\* --- matrices (G03) ----------------------------------------------------------------------
\* All known matrices of a gate differ; gates that share an input wire in a slot have different ones in this slot.
Known(b, s) == { gg.mats[b][r][s] : r \in 1..Rows(gg.gates[b].t) } \ {<<>>}
NumKnown(b, s) == Cardinality({ r \in 1..Rows(gg.gates[b].t) : gg.mats[b][r][s] # <<>> })
InputsAt(b, s) == { gg.gates[b].i[i][s] : i \in 1..Len(gg.gates[b].i) }
SlotsOf(b) == 1..Len(gg.gates[b].o)
MatsOnce(x) ==
  /\ \A b \in 1..Len(gg.gates) :
       Cardinality(UNION { Known(b, s) : s \in SlotsOf(b) }) = FoldLeft(LAMBDA a, s : a + NumKnown(b, s), 0, Map(Len(gg.gates[b].o), LAMBDA s : s))
  /\ \A b \in 1..Len(gg.gates) : \A b2 \in (b + 1)..Len(gg.gates) : \A s \in SlotsOf(b) \cap SlotsOf(b2) :
       InputsAt(b, s) \cap InputsAt(b2, s) # {} => Known(b, s) \cap Known(b2, s) = {}
TDistinct == IsEvent("distinct") /\ (MatsOnce(E) = TRUE) /\ UNCHANGED <<c, gg>>
\* --- amounts (R04) --------------------------------------------------------------------------
CountBlocks(x, t) == Cardinality({ b \in 1..Len(x.gates) : x.gates[b].t = t })
AmountsRight(x) ==
  LET a == Amounts(Len(x.inputs), CountBlocks(x, "AND"), CountBlocks(x, "XOR"), CountBlocks(x, "INV"), c.n, c.t, c.l, x.key, x.mssg)
  IN x.got = a
TDescribe == IsEvent("describe") /\ (AmountsRight(E) = TRUE) /\ UNCHANGED <<c, gg>>
\* Garbling with one sharing less of one kind must not succeed.
TShort == IsEvent("short") /\ E.status # "done" /\ UNCHANGED <<c, gg>>
Low(s) == Len(s) = c.n /\ ConsistentBy(c.chk, c.d, s)
Form(kind, s) == CASE kind = "rand" -> Low(s)
                   [] kind = "zero" -> Len(s) = c.n /\ \A k \in 1..c.l : SecretsBy(c.secn, c.n - 1, s)[k] = 0
                   [] kind = "bit" -> Low(s) /\ \A k \in 1..c.l : SecretsBy(c.sec, c.d, s)[k] \in {0, 1}
                   [] OTHER -> FALSE
\* Dummy material of all parties: amounts at every party, and the form of (a selection of) its sharings.
TDummy == /\ IsEvent("dummy") /\ UNCHANGED <<c, gg>>
          /\ \A p \in 1..Len(E.got) : E.got[p] = E.want
          /\ (\A k \in 1..Len(E.parts) : \A i \in 1..Len(E.parts[k].shares) : Form(E.parts[k].kind, E.parts[k].shares[i])) = TRUE
\* --- material generated by the parties themselves, then garbled with (G04) ---------------------
Hidden(s) == SecretsBy(c.sec, c.d, s)
GeneratedRight(x) ==
  /\ Len(x.masks) >= Len(gg.gates) + gg.nin
  /\ \A i \in 1..Len(x.masks) : Form("bit", x.masks[i])
  /\ Len(x.keys) = 2 /\ \A v \in 1..2 : Len(x.keys[v]) = gg.key /\ \A k \in 1..gg.key :
        Len(x.keys[v][k]) >= Len(gg.gates) + gg.nin /\ \A i \in 1..Len(x.keys[v][k]) : Low(x.keys[v][k][i])
  /\ \A i \in 1..Len(x.errors) : Low(x.errors[i])
\* The generated material with its secrets in place of the shares.
Revealed(x) == [t |-> Map(Len(x.t), LAMBDA b : Opened(x.t[b])),
                masks |-> Map(Len(x.masks), LAMBDA i : Hidden(x.masks[i])),
                keys |-> Map(2, LAMBDA v : Map(gg.key, LAMBDA k : Map(Len(x.keys[v][k]), LAMBDA i : Hidden(x.keys[v][k][i]))))]
\* What is left of a row in every slot and symbol: the noise the row carries.
Left(y, b, r) == LET k == Len(gg.gates[b].o)
                     d == Map(k, LAMBDA s : Plus(Word(y, b, r, s), Due(y, b, s, r)))
                 IN Map(gg.mssg, LAMBDA z : Map(k, LAMBDA s : d[s][z]))
HowOften(q, v) == FoldLeft(LAMBDA a, e : IF e = v THEN a + 1 ELSE a, 0, q)
\* Every sharing of noise is carried by at most one symbol. Of incomplete blocks only the first slots are known.
ChainRight(x) ==
  /\ ShapeRight(x)
  /\ GeneratedRight(x)
  /\ LET y == Revealed(x)
         errs == Map(Len(x.errors), LAMBDA i : Hidden(x.errors[i]))
         rows == FoldLeft(LAMBDA a, b : a \o FoldLeft(LAMBDA h, r : h \o Left(y, b, r), <<>>, Map(Rows(gg.gates[b].t), LAMBDA r : r)),
                          <<>>, Map(Len(gg.gates), LAMBDA b : b))
         cut(q, k) == Map(Len(q), LAMBDA i : SubSeq(q[i], 1, k))
         withk(k) == SelectSeq(rows, LAMBDA v : Len(v) >= k)
     IN \A k \in 1..c.l :
          LET q == cut(withk(k), k)
              e == cut(errs, k)
          IN \A v \in { q[i] : i \in 1..Len(q) } : HowOften(q, v) <= HowOften(e, v)
TChain == IsEvent("chain") /\ (ChainRight(E) = TRUE) /\ UNCHANGED <<c, gg>>
TraceInit == l = 1 /\ c = <<>> /\ gg = <<>>
TraceNext == TInit \/ TCtx \/ TRun \/ TCirc \/ TTable \/ TNoiseRun \/ TDistinct \/ TDescribe \/ TShort \/ TDummy \/ TChain
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
