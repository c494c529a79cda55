"""Texts of the manifest."""
NOTES = ("All checks: TLA+ specifications in spec/ checked with TLC, bound to the code by replaying behaviours generated from them "
         "and by validating recorded executions of /repo's code against them. ./check <id> is self-contained.")
NA = {"Z01": "Stand-alone estimate scripts that need numpy, scipy or galois, which are not available offline, and give real-valued cost and "
             "security estimates: no transitions to specify, nothing to execute, and no reference other than the formulas themselves."}
TECH = {
 "N01": ("TLA+/TLC: router model refines the delivery contract; TLC behaviours replayed and random histories recorded on the real networks, validated against the contract",
         "exhaustive for 2 parties, 2 IDs, 2-3 sends, 2 receives; recorded histories of up to 16 parties on in-process and TCP networks incl. fragmenting proxies"),
 "N02": ("TLA+/TLC model of connection set-up and framing; recorded TCP set-ups in all start orders validated against the delivery contract",
         "exhaustive for 3-4 parties in the model; real set-ups with all orders of 3 parties, delays, fragmentation, up to 16 (40) parties"),
 "N03": ("TLC enumerates all arrival sequences, each is replayed on the real code and the result validated against the specification",
         "all arrival sequences of 3 parties up to length 5 (6), random ones up to 33 parties; call before, amid and after the arrivals"),
 "N04": ("TLA+/TLC model of consecutive barriers (one-phase variant shown to fail); TLC schedules and adversarial schedules run on the real code and validated",
         "exhaustive for 3 parties x 2 rounds and 2 parties x 4 rounds; schedules of 3 rounds from TLC, 1-9 parties controlled, real networks"),
 "N05": ("byte counters of the delivery contract in TLA+; recorded statistics of real networks validated at every reading",
         "same histories as N01 with statistics, interval differences and totals"),
 "N06": ("TLA+/TLC model of identifier trees; recorded identifier families and trees judged by the specification",
         "exhaustive for small bases and bounds; real bounds 0..2^20 around powers of 256"),
 "M01": ("TLA+ definition of the field (TLC proves its axioms for small sizes); recorded operations of the code validated against it in every size and order of initialization",
         "all operand pairs up to W=5 (sampled above) for W=1..30 in all operator forms, 4 orders of initialization, integer conversions incl. large ones"),
 "M02": ("TLA+ model of the encoding (TLC: unique decoding); recorded encodings and decodings of elements, sequences and preprocessing material validated against it",
         "all elements up to W=8, boundary and random ones above, sequences of 0..1000 elements, material of several shapes and garbling with decoded material"),
 "M03": ("histograms of the code's samples judged by the statistical specification in TLA+ (uniform cells, successive pairs, every bit)",
         "statistical: deviation beyond 8 standard deviations; all 30 field sizes, several orders of use"),
 "M04": ("TLA+ definition of interpolation (TLC: exact for all polynomials over small fields); recorded coefficient matrices and evaluations validated against it",
         "exhaustive over GF(2..8) in the model; recorded matrices up to 40 points in 9 field sizes, overlapping points included"),
 "M05": ("ranks computed by TLC on the recorded matrices; minimum-distance certificates of the shipped binary matrices checked by TLC",
         "every square selection for small sizes, sampled and consecutive ones above; all shipped binary matrices"),
 "S01": ("TLA+ specification of packed sharing (TLC: all sharings over small fields); recorded sharings and reconstructions validated against it",
         "all shapes and secrets over GF(4), GF(8); shapes up to 200 parties over 9 fields; all ways of sharing and reconstructing"),
 "S02": ("TLC: local operations act on the secrets, exhaustively for small fields; recorded register programs on the code validated step by step",
         "register programs of 7 (20) operations for all shapes over GF(4), GF(8) and up to 33 parties; all wire positions of the field"),
 "S03": ("TLC: every tampering of every sharing over small fields is inconsistent; results of checked reconstruction on all or tampered share vectors validated",
         "all share vectors over GF(4), GF(8) up to 4096 (40000); tampering of every position and number of shares elsewhere"),
 "S04": ("TLC counts the views of all sharings over small fields; the code's sharings under all coins enumerated and validated; histograms for larger fields",
         "exhaustive coins for small shapes, statistical (8 standard deviations) for larger ones and for independence between calls"),
 "K01": ("TLA+ meaning of circuits (TLC: any evaluation order gives it); circuits generated by TLC are written as files, loaded and evaluated by the code and validated",
         "all circuits with up to 2 inputs and 2 gates, all wire orders and output groups, all inputs; random ones up to 300 gates; shipped circuits"),
 "K02": ("TLA+ contract of packing; circuits generated by TLC are packed by the code with several sizes and the result validated",
         "all circuits with up to 2 inputs and 2 gates, random ones up to 120 gates, shipped ones; packing sizes 1..5000"),
 "P01": ("TLA+/TLC model of opening-based protocols on an asynchronous network; runs of the code under adversarial schedules validated against its contract",
         "exhaustive for 3 parties, 2 instances; recorded runs of 3..33 parties, all leaders, batches of 0..40, 6 scheduling policies; re-randomization by rank"),
 "P02": ("TLA+ contract of transformations and their random pairs; recorded runs of the code validated against it",
         "exhaustive for 3 parties in the model; recorded transformations at default and wire positions, full and incomplete blocks, repeated wires, 3..33 parties"),
 "P03": ("TLC counts the views of all executions over small fields; views recorded from the code for different secrets must span the same affine space",
         "exhaustive in the model (a reused mask is found); recorded views of every party in small fields, of every protocol, of noise generation and of whole garblings, sampled until the span is saturated"),
 "P04": ("TLA+/TLC models of concurrent instances and of the course of a whole garbling; TLC schedules replayed on the code, further runs under adversarial schedules; completion, residue and results validated",
         "exhaustive for 2 instances of 3 parties (equal identifiers shown to fail); 900 (6000) TLC schedules; mixes of all protocols up to 33 parties, concurrent preprocessings and garblings, block counts around identifier borders, 127 (129) parties"),
 "P05": ("TLC enumerates the joint views of a coalition over all coins of a small field; joint views recorded from the code for different secrets must span the same affine space",
         "exhaustive in the model for 3 parties (masks of too low degree or without zero sharing are found); recorded joint views of coalitions of 1..2 (3) parties with and without the leader, of every protocol and of a garbled gate, sampled until the span is saturated"),
 "R01": ("TLA+/TLC model of joint generation (results are images of dealt sharings); the code's runs recorded with all dealt sharings and validated as their images under the matrix",
         "3..33 parties, 7 fields, amounts around batch borders, 6 scheduling policies"),
 "R02": ("TLC counts the causes of every outcome for every knowledge of a coalition (a matrix ignoring parties is found); affine spans of outputs given the view of t parties compared by TLC; histograms judged by the statistical specification",
         "every coalition of t parties for small sets of parties, several calls, saturation sampling; statistical part within 8 standard deviations"),
 "R03": ("TLA+/TLC model of generation and use of material (each sharing once); recorded preprocessing runs of all parties judged by the TLA+ contract: amounts, form, no repetition, joint rank, and statistics of noise",
         "9 parameter sets up to 16 parties, amounts incl. 0, fewer than and not divisible by the parties; ranks of joint material and 2000 (6000) runs in small fields"),
 "R04": ("TLA+/TLC model of consumption (exact, one less fails); amounts computed by the TLA+ specification from the packed circuit compared with the code's description; garbling with exact and short material; dummy material judged",
         "special and random circuits for 10 parameter sets; one sharing less of each kind; dummy material beyond its pool of 100000"),
 "G01": ("TLC: symbolic garbling evaluates all small circuits; an evaluator written in TLA+ decodes tables garbled by the code and compares with the circuit's meaning",
         "exhaustive for all circuits of 2 gates on 2 inputs (3 on 1) with all masks, inputs and orders; real tables of 10 parameter sets, circuits from TLC and random, one of 300 gates"),
 "G02": ("every row of tables garbled by the code compared with the TLA+ definition (masked output, selected key, encoding, one noise value each)",
         "all rows and slots of all gates for 10 parameter sets, several materials, schedules and circuits; matrices solved from some runs must fit all runs"),
 "G03": ("TLA+/TLC model of the assignment of matrices (per-position and wrapping counters shown to fail); matrices recovered from several garblings by linear algebra; TLC checks that no two uses with a common input wire share one",
         "all assignments for 2-4 blocks in the model; circuits of up to 150 gates that use few wires, wires used 290 (560) times, fields of 2^16 and 2^18 so that chance collisions are excluded"),
 "G04": ("TLA+/TLC model of rows with noise and nearest-codeword decoding (too much noise and repeated code points shown to fail); real preprocessing followed by garbling in the controlled network; TLC recomputes every row from the secrets of the generated material and matches what is left with the generated noise",
         "all rows, masks, keys and noise patterns for codes of 4 symbols in GF(4), thorough: 6 symbols with 2 errors in GF(8); 7 (10) parameter sets with 6-7 (12-13) circuits, schedules, concurrent courses and stored material"),
 "B01": ("TLA+/TLC model of the programs' course incl. loss of messages at exit (without the last barrier it fails); real processes run in all start orders, ends and reports validated, traffic figures bounded by the recorded traffic of the same protocol",
         "exhaustive for 2 parties x 2 repetitions and 3 x 1; 33 (120) runs of 3..8 processes with delays, suspensions and slow connections"),
 "B02": ("printed amounts and size compared with the TLA+ formulas evaluated on the packed circuit and with the length of a real encoding",
         "32 (122) circuits and parameter sets incl. the default lengths"),
 "E01": ("TLA+ formulas of what is sent and of the estimate, their relation checked by TLC; recorded traffic of the real protocols and the output of the estimate script compared with them by TLC",
         "relation for all parameters up to 7 (12) parties and 3 (5) blocks of each kind; 72 (181) runs of each protocol, 80 (400) estimates up to 64 parties incl. defaults"),
}
