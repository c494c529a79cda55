-------------------------------- MODULE Stat --------------------------------
(* Histograms of independent uniform samples. A cell with mean m deviates from m by more than       *)
(* 8 sqrt(m) with probability below 2^-45.                                                          *)
EXTENDS Integers, Sequences, SequencesExt
Near(c, mean) == (c - mean) * (c - mean) <= 64 * mean
Total(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* h.counts has one count per cell of equal probability, h.total is the number of samples.
Uniform(h) == /\ h.outside = 0 /\ Len(h.counts) = h.cells /\ Total(h.counts) = h.total
              /\ \A i \in 1..h.cells : Near(h.counts[i], h.total \div h.cells)
=============================================================================
