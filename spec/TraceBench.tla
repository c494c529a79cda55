----------------------------- MODULE TraceBench -----------------------------
(***************************************************************************)
(* Validates runs of the programs: the end of a run at all parties and its *)
(* report (B01, the end states of Bench), and printed amounts (B02).       *)
(***************************************************************************)
EXTENDS Garble, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TInit == IsEvent("init")
\* --- runs of all parties -------------------------------------------------------
\* Measurements of one party in the report.
Measured(x, b) == IF x.prog = "garble" THEN b.garbling ELSE b
Total(m) == FoldLeft(LAMBDA a, p : a + p[1], 0, m.comm)
MeasureRight(x, m) == /\ m.time >= 0
                      /\ Len(m.comm) = x.opts.n
                      /\ \A q \in 1..x.opts.n : Len(m.comm[q]) = 2 /\ m.comm[q][1] >= 0 /\ m.comm[q][2] >= m.comm[q][1]
                      /\ Total(m) > 0
\* What a party printed, if it did: <<time, bytes>> of all repetitions.
AsPrinted(ms, pr) == pr = <<>> \/ pr = [i \in 1..Len(ms) |-> <<ms[i].time, Total(ms[i])>>]
\* The figures are those of a repetition, not of all so far. (Messages of the fastest parties can arrive before
\* a party has begun its measurement, so they are not all alike.)
OwnTraffic(ms) == Len(ms) < 4 \/ Total(ms[Len(ms)]) < FoldLeft(LAMBDA a, m : a + Total(m), 0, SubSeq(ms, 1, Len(ms) - 1))
\* The figure of a sender is at most what it sends to the party in one run of the protocol (as recorded separately),
\* apart from messages of the next synchronization that come early. (What comes before the measurement is missing.)
\* At the first party reports can come before the end of the last measurement.
OfSender(x, p, ms) == x.traffic = <<>> \/
  \A i \in 1..Len(ms) : \A q \in 1..x.opts.n :
    \/ p = 1 /\ i = Len(ms)
    \/ ms[i].comm[q][1] <= x.traffic[p][q][1] + x.sync[1] /\ ms[i].comm[q][2] <= x.traffic[p][q][2] + x.sync[2]
ReportRight(x) ==
  /\ \A o \in DOMAIN x.opts : o \in DOMAIN x.report.details /\ x.report.details[o] = x.opts[o]
  /\ Len(x.report.benchmarks) = x.opts.n
  /\ \A p \in 1..x.opts.n : LET ms == Measured(x, x.report.benchmarks[p]) IN
       /\ Len(ms) = x.opts.reps
       /\ \A i \in 1..Len(ms) : MeasureRight(x, ms[i])
       /\ AsPrinted(ms, x.printed[p])
       /\ OwnTraffic(ms)
       /\ OfSender(x, p, ms)
RunRight(x) ==
  /\ Len(x.exits) = x.opts.n
  /\ \A p \in 1..x.opts.n : x.exits[p] = "ok"
  /\ x.saved = x.save          \* the report exists if it was asked for
  /\ x.save => ReportRight(x)
TRun == IsEvent("run") /\ (RunRight(E) = TRUE)
\* --- printed amounts --------------------------------------------------------------
CountBlocks(x, t) == Cardinality({ b \in 1..Len(x.gates) : x.gates[b].t = t })
SizeRight(x) ==
  LET o == x.opts
      a == Amounts(Len(x.inputs), CountBlocks(x, "AND"), CountBlocks(x, "XOR"), CountBlocks(x, "INV"), o.n, o.t, o.l, o.key, o.mssg)
      y == Generated(a)
  IN /\ x.status = "ok"
     /\ (PackRight(x.circ, o.l, x) = TRUE)
     /\ x.printed = [masks |-> a.masks, keys |-> a.keys[1] * a.keys[2] * a.keys[3], randoms |-> a.randoms, zeros |-> a.zeros,
                     errors |-> a.errors, bytes |-> x.bytes, rand |-> y.rand, zero |-> y.zero, bit |-> y.bit]
TSize == IsEvent("size") /\ (SizeRight(E) = TRUE)
TraceInit == l = 1
TraceNext == TInit \/ TRun \/ TSize
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
