#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place where the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe_at, state=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    a["observe_at"] = observe_at
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NET = "src/protocol/network.rs"
prop("N01", "Messages are delivered exactly once, intact, in order, to the right receiver",
 "On the in-process and on the TCP network every sent message is delivered exactly once to a receive with the same protocol ID at each addressed party (a broadcast addresses every party including its sender), with unchanged content and the true sender, whether the receive is issued before or after the message arrives. Messages from one sender to one receiver under one protocol ID are received in the order in which they were sent. A receive never returns a message of another protocol ID and does not stay pending once a matching message was sent.",
 ["schedules", "histories", "inputs"], "Every interleaving of sends, arrivals and receives of any number of parties and protocol IDs (IDs of 0 to 255 bytes), every payload size including empty ones and sizes around the length-prefix boundaries, and every fragmentation of the byte stream.",
 "The tests exchange a handful of short messages on one schedule; receives before sends, reordering between IDs, broadcast to self, empty payloads, long IDs and payloads, and split reads are not reached.",
 [NET, "src/protocol/mod.rs"], [("send and receive routing", NET), ("TCP framing", NET), ("handle", "src/protocol/mod.rs")],
 "values returned by receive calls on the public network handle, compared with the calls made", ["in-flight messages", "unclaimed messages", "pending receives"])
prop("N02", "TCP parties form a complete, correctly attributed mesh in any start order",
 "Parties that start in any order and with any delays all finish connecting, and afterwards every ordered pair of parties can exchange messages in both directions, each message being attributed to the party that sent it. This holds no matter how the bytes of connection set-up and of messages are delayed, split or merged by the transport.",
 ["schedules", "configurations"], "Every start order and delay of the parties, every party count, every fragmentation and delay of bytes during set-up and afterwards.",
 "The tests start all parties at once on one host; late listeners, out-of-order accepts and partial reads of the identification are never exercised.",
 [NET], [("connection set-up", NET), ("per-peer reader and writer", NET)],
 "completion of the set-up call of every party and senders reported by subsequent receives", ["listening parties", "established links", "party behind each link"])
prop("N03", "Collecting one message per party returns each party's first message in order",
 "Collecting a message from each party under a protocol ID completes exactly when at least one message of every party has been received, and returns the first message of each party, listed by party. Repeated messages of a party are neither returned nor counted for another party, and nothing received under another protocol ID is touched.",
 ["schedules", "histories"], "Every arrival order of the parties' messages, every multiplicity of messages per party, and every number of parties.",
 "The tests receive one message per party in one order.",
 [NET], [("per-party collection", NET)], "result and completion time of the collection call", ["set of parties heard", "first message per party"])
prop("N04", "The barrier releases nobody before all have arrived, and is reusable",
 "A party leaves a synchronization only after every party has entered it, and once every party has entered it every party eventually leaves. This also holds for any number of consecutive synchronizations under the same protocol ID and for messages exchanged under other IDs in between, in particular when some parties are already in the next synchronization while others have not left the previous one.",
 ["schedules", "histories"], "Every delivery schedule, number of parties and number of consecutive synchronizations.",
 "The tests synchronize at most once on a fair schedule; the race between a fast party's next synchronization and a slow party's current one is not reached.",
 [NET], [("synchronization", NET), ("per-party collection", NET)], "return of the synchronization call at each party", ["parties inside round k"])
prop("N05", "Communication statistics equal the traffic received from each party",
 "At any time the statistics of a party report for each sender the total payload bytes, and the total payload plus protocol ID bytes, of exactly the messages that have arrived from that sender (including itself), each counted once and no later than the message is handed to a receiver. The total is the sum over the senders, and the difference between two measurements covers exactly the messages that arrived in between.",
 ["histories", "schedules"], "Every history of sends, broadcasts and receives on both kinds of network and every point at which the statistics are read.",
 "No test reads the statistics.",
 [NET, "src/lib.rs"], [("counters", NET), ("interval measurement", "src/lib.rs")], "public statistics calls, against the log of sends and receives", ["bytes arrived per sender"])
prop("N06", "Sub-protocol identifiers are sufficient, distinct and agreed upon",
 "For every parent identifier and every bound, at least as many child identifiers as the bound can be obtained, and the identifiers of all nodes of a tree of nested sub-protocols are pairwise distinct. Every party deriving identifiers from the same parent with the same bound obtains the same identifiers in the same order.",
 ["inputs", "configurations"], "Every bound (in particular 1, powers of 256 and their neighbours), every parent, every nesting.",
 "The tests create few children with small bounds; the bounds at which the width of the identifier changes are not reached.",
 ["src/protocol/mod.rs"], [("identifier builder", "src/protocol/mod.rs")], "identifiers returned by the public builder", ["identifiers handed out"])

GAL = "src/math/galois/mod.rs"
prop("M01", "Field arithmetic satisfies the field axioms in every supported field",
 "For every supported field size, addition, subtraction, multiplication, division and summation in all operator forms implement one field of 2^W elements with the documented zero and one, results always being elements of the field. Integers are converted to the element they represent modulo the field's polynomial, and using several field sizes in one process, in any order of initialization, changes nothing.",
 ["inputs", "configurations", "histories"], "Every pair of elements for small fields, every field size, every order in which fields are initialized and used, every 32-bit integer for conversions.",
 "The tests check a few elements of one field size per process.",
 [GAL, "extern/galois/galois.c"], [("operators", GAL), ("log tables", "extern/galois/galois.c"), ("initialization", GAL)], "results of public operators and conversions", ["set of initialized fields"])
prop("M02", "Stored and transmitted values decode to what was encoded",
 "Every field element and every sequence of field elements decodes to itself after encoding, and takes the documented number of bytes per element. Preprocessing material decodes to material with identical contents and shape, so that garbling with decoded material gives the same tables as garbling with the original.",
 ["inputs", "configurations"], "All elements of all field sizes (1 to 4 bytes per element), all shapes of preprocessing material.",
 "The tests round-trip a few elements of one field and no preprocessing material.",
 [GAL, "src/protocol/preproc.rs"], [("element encoding", GAL), ("material encoding", "src/protocol/preproc.rs")], "serialize/deserialize through the public serde implementations", None)
prop("M03", "Random field elements are uniform over the whole field",
 "Sampling with a uniform random generator yields every element of the field with equal probability and independently between samples, for every field size. This holds in any order in which different fields are used in one process.",
 ["inputs", "configurations"], "All field sizes, all orders of first use, random generators seeded arbitrarily.",
 "The tests only use samples as inputs and would accept any distribution.",
 [GAL], [("sampling", GAL)], "samples returned by the public sampling function", ["sampling range per field"])
MATH = "src/math/mod.rs"
prop("M04", "Interpolation maps evaluations of a polynomial to evaluations elsewhere",
 "For distinct points and fewer-than-that-many coefficients, applying the interpolation coefficients to the evaluations of any polynomial at the old points gives its evaluations at the new points, also when old and new points overlap. The coefficient matrix has one row per new point and one column per old point.",
 ["inputs", "configurations"], "All sets of distinct points, all polynomials of admissible degree, overlapping and disjoint point sets, one point up to the whole field.",
 "The tests use a few fixed point sets in one field.",
 [MATH], [("Lagrange coefficients", MATH)], "coefficient matrices returned by the public function", None)
prop("M05", "Randomness extraction and code matrices have the required rank everywhere",
 "Every square selection of inputs of the field extraction matrix is invertible, and the encoding matrix is the generator of a code in which any message-length selection of positions determines the message. The shipped binary extraction matrices are read as stored and keep full rank after removing the inputs of any set of parties up to the corruption threshold they are made for.",
 ["configurations", "inputs", "fault_sequences"], "All dimensions with fewer inputs than field elements, all subsets of inputs, every set of corrupt parties within the threshold.",
 "The tests check the shape and one selection.",
 [MATH, "data/binsup_mat"], [("extraction matrix", MATH), ("binary matrix loader", MATH), ("encoding matrix", MATH)], "matrices returned by the public functions", None)

SH = "src/sharing.rs"
prop("S01", "Reconstruction returns the shared secrets",
 "For every number of parties, degree, and choice of distinct secret positions disjoint from the party positions, reconstructing the shares of any secrets returns these secrets, and the shares lie on a polynomial of at most the stated degree that takes the secrets at the secret positions. This holds for all ways of sharing and reconstructing that the library offers, and for fewer secrets than positions the given ones are returned.",
 ["inputs", "configurations"], "All party counts, degrees, packing sizes and positions the field admits, all secrets, all coin tosses.",
 "The tests use one field and a few parameter sets with random secrets.",
 [SH, MATH], [("sharing", SH), ("reconstruction", SH)], "shares and reconstructed secrets returned by the public functions", None)
prop("S02", "Share arithmetic acts on the secrets",
 "Adding, subtracting and scaling shares, adding constants, and multiplying shares party by party yields shares whose reconstruction at the corresponding degree (sum of the degrees, if below the number of parties) gives the slot-wise sum, difference, scalar multiple and product of the secrets. Positions assigned to different wires and to default slots never coincide with each other or with a party's position.",
 ["inputs", "configurations"], "All parameters, secrets and sequences of operations within the degree bound.",
 "The tests cover single operations on one parameter set.",
 [SH], [("sharing", SH), ("positions", SH)], "reconstruction of combined shares", None)
prop("S03", "Reconstruction rejects every inconsistent set of shares",
 "Checked reconstruction succeeds if and only if the shares of all parties lie on one polynomial of the scheme's degree, in which case it returns the secrets; otherwise it reports malicious behaviour, and a wrong number of shares is reported as an error. In particular any change to at most (number of parties - degree - 1) shares of a valid sharing is detected.",
 ["inputs", "fault_sequences", "configurations"], "Every modification of any subset of shares, at every position, for all parameters.",
 "The tests corrupt one share in one position.",
 [SH], [("checked reconstruction", SH)], "result of checked reconstruction on modified shares", None)
prop("S04", "Up to t shares reveal nothing about the secrets",
 "With degree t + l - 1 and l secrets the joint distribution of any t shares is uniform and does not depend on the secrets. Random sharings are uniform over all sharings of the stated degree, and sharings of different calls are independent.",
 ["inputs", "configurations", "fault_sequences"], "All sets of at most t parties, all secrets, all coin tosses, all parameters of a small field; statistically for larger ones.",
 "The tests never look at the distribution of shares.",
 [SH, GAL], [("share randomness", SH)], "shares produced from enumerated or sampled coin tosses", None)

prop("K01", "A circuit file is loaded and evaluated with its defined meaning",
 "For every well-formed circuit file, the loaded gates, input groups, output groups and wire count are those of the file in the order of the file, and evaluating the circuit on any inputs gives the values defined by its gates, grouped and ordered as the outputs declared in the file.",
 ["programs", "inputs"], "All circuits of AND, XOR and INV gates with any number and width of inputs and outputs, all inputs.",
 "The tests load three circuits, each with a single output group.",
 ["src/circuit.rs"], [("loader", "src/circuit.rs"), ("evaluator", "src/circuit.rs")], "public accessors and evaluation results", ["wire values"])
prop("K02", "Packing groups every gate and wire exactly once and preserves the circuit",
 "The packed circuit contains every gate of the circuit exactly once, in blocks of gates of one type with at most the packing size, where only the last block of each type may be incomplete, and left input, right input and output of a gate share a slot. Input and output wires are packed in order into blocks of the packing size, and the reported block counts match.",
 ["programs", "configurations"], "All circuits and packing sizes, including sizes larger than the circuit.",
 "The tests check block counts of one circuit.",
 ["src/circuit.rs"], [("packing", "src/circuit.rs")], "public accessors of the packed circuit", None)

CORE = "src/protocol/core.rs"
prop("P01", "Distributed multiplication and degree reduction return shares of the result",
 "For every delivery schedule, leader and batch size, degree reduction of degree n-1 sharings and multiplication of packed sharings end at all parties with shares of degree t+l-1 whose secrets are, slot by slot and in order, the inputs' secrets respectively their products. The result is a re-randomized sharing, and the parties agree on the leader when none is given.",
 ["schedules", "inputs", "configurations"], "All schedules, leaders, batch sizes, admissible (n, t, l), secrets and preprocessed sharings.",
 "The tests run one parameter set with one schedule and check only reconstructed products.",
 [CORE], [("degree reduction", CORE), ("multiplication", CORE), ("leader choice", CORE)], "outputs of all parties of a run on a network whose schedule is controlled", ["masked shares collected by the leader", "re-shared values"])
prop("P02", "Share transformation moves and selects secrets exactly as specified",
 "Generating transformation randomness yields pairs of sharings, of degree t+l-1 at the new positions and degree n-1 at the old positions, of random secrets related by the specified selection, for full and incomplete blocks and for every transformation of a batch separately. Transforming shares with such a pair ends at all parties with shares of degree t+l-1 whose secrets at the new positions are the selected secrets of the input at the old positions.",
 ["schedules", "inputs", "configurations"], "All schedules, leaders, selections with repetitions, position sets up to the packing size, incomplete batches and blocks, repetition counts.",
 "The tests use few fixed selections, one schedule and one parameter set.",
 [CORE, MATH], [("transformation", CORE), ("transformation randomness", CORE), ("selection", MATH)], "outputs of all parties of a run on a network whose schedule is controlled", ["random pairs", "masked shares collected by the leader"])
prop("P03", "What a party receives during online protocols is independent of the secrets",
 "For uniformly random preprocessed sharings, the joint distribution of all messages any single party receives during degree reduction, multiplication, transformation, noise generation and a whole garbling does not depend on the secrets being processed. In particular every value opened to a leader is masked by preprocessed randomness that masks nothing else.",
 ["inputs", "schedules", "programs", "configurations"], "All secrets, leaders, circuits and parameters; views of every single party.",
 "The tests look at outputs only; unmasked or twice-used randomness gives the same outputs.",
 [CORE, "src/protocol/garble.rs"], [("masking", CORE), ("consumption of preprocessing", "src/protocol/garble.rs")], "messages received by each party over many runs with fresh preprocessing", ["preprocessed randomness not yet used"])
prop("P04", "Every protocol run completes at all parties on every schedule without residue",
 "For every delivery schedule, all parties complete every protocol (joint randomness generation, multiplication, transformation, preprocessing, garbling) once all messages are delivered, and no message remains unclaimed. Protocol instances that run concurrently or consecutively on one network under different identifiers give the same results as in isolation.",
 ["schedules", "programs", "configurations", "histories"], "All delivery schedules, concurrent and repeated instances, circuits of all sizes including block counts at which identifiers change length, all admissible (n, t, l).",
 "The tests run each protocol alone on the in-process network with one schedule.",
 [CORE, "src/protocol/preproc.rs", "src/protocol/garble.rs", NET], [("task structure", "src/protocol/garble.rs"), ("identifier assignment", "src/protocol/garble.rs"), ("message collection", NET)], "completion and results at all parties, unclaimed messages at the end", ["in-flight messages", "pending receives", "finished parties"])
prop("P05", "Online protocols tell a coalition of t parties nothing about the secrets",
 "For uniformly random preprocessed sharings, everything that any t parties together hold before a degree reduction, multiplication, transformation or whole garbling (their shares of the inputs and of the preprocessed material) and receive from the others during it has a joint distribution that does not depend on the secrets being processed. The secrets of generated transformation randomness are uniform given everything that any t parties hold and receive during its generation.",
 ["inputs", "programs", "configurations"], "All secrets, leaders inside and outside of the coalition, coalitions of t parties, circuits and parameters with t up to the maximum.",
 "The tests look at outputs only; a mask that t shares determine, or a zero sharing used for two openings, gives the same outputs.",
 [CORE, "src/protocol/garble.rs"], [("masking", CORE), ("transformation randomness", CORE), ("consumption of preprocessing", "src/protocol/garble.rs")], "messages between the parties over many runs with fresh preprocessing", ["preprocessed randomness not yet used"])

PRE = "src/protocol/preproc.rs"
prop("R01", "Jointly generated sharings are valid and contain every party's contribution",
 "Random, zero and random-bit generation end at all parties with at least the requested number of sharings, which are consistent sharings of degree t+l-1 (degree n-1 for zeros) of arbitrary field elements, of zeros, and of bits respectively. They are the images of the parties' dealt sharings under the given extraction matrix, so that every party contributes fresh randomness to every batch.",
 ["schedules", "inputs", "configurations"], "All schedules, requested counts (also not multiples of the batch size), admissible (n, t, l) and extraction matrices.",
 "The tests check one parameter set and only that secrets are zeros or bits.",
 [PRE], [("random sharings", PRE), ("zero sharings", PRE), ("random bits", PRE)], "outputs of all parties and messages dealt by each party", ["dealt sharings"])
prop("R02", "Jointly generated randomness is unpredictable to any t parties",
 "Given everything that any t parties dealt and received, the secrets of generated random sharings are uniform and those of random-bit sharings are uniform bits, independent between sharings of a call and between calls. The non-secret part of each sharing is uniform as well.",
 ["inputs", "fault_sequences", "configurations"], "All sets of t parties, all slots, all counts, repeated calls.",
 "The tests never look at distributions or at the parties' views.",
 [PRE, SH, MATH], [("dealing", PRE), ("extraction", PRE)], "outputs over many runs, and messages dealt", None)
prop("R03", "Preprocessing yields well-formed, independent material of the described amounts",
 "Preprocessing ends at all parties with material of at least the described amounts, in which masks are sharings of bits, keys and random values are sharings of field elements of degree t+l-1, zeros are sharings of zero of degree n-1, and no sharing occurs twice or was used up in making the noise. Noise sharings have degree t+l-1, and each of their secrets is zero with probability 1 - 1/4 (up to the chance that a random multiplier is zero) and otherwise uniform, independently per slot and sharing.",
 ["schedules", "configurations", "programs"], "All circuits, admissible parameters, numbers of noise values (also fewer than or not divisible by the number of parties), schedules.",
 "The tests check that noise and masks reconstruct for one small description.",
 [PRE, CORE], [("preprocessing", PRE), ("noise generation", PRE)], "material returned at all parties", None)
prop("R04", "Described amounts are what garbling consumes, and dummy material matches them",
 "Garbling any circuit with exactly the described amounts of material succeeds, and with one element less of the random, zero or noise sharings it does not, so that the description is exact. Dummy material has exactly the described amounts, is consistent across parties using the same seed and of the same form as real material (masks are bits, zeros are zero, degrees as required).",
 ["programs", "configurations"], "All circuits, packing sizes, key and message lengths, admissible (n, t, l), seeds.",
 "The tests garble one circuit with dummy material and never compare amounts.",
 [PRE, "src/protocol/garble.rs"], [("description", PRE), ("dummy material", PRE), ("consumption", "src/protocol/garble.rs")], "described counts, material contents, and success of garbling with exact and reduced material", None)

GB = "src/protocol/garble.rs"
prop("G01", "Evaluating the garbled circuit gives the circuit's outputs",
 "For every circuit, masks, keys and inputs, starting from the input wires' keys selected by their masked values and decrypting in each gate the row selected by the masked values of its inputs yields for every wire its masked value together with the key selected by it, so that unmasking the output wires gives the circuit's outputs. This holds for every slot of every block, also incomplete ones, for gates using a wire twice, and for every delivery schedule.",
 ["programs", "inputs", "schedules", "configurations"], "All circuits (fan-out, repeated wires, all gate types, incomplete blocks), masks, keys, inputs, admissible parameters and schedules.",
 "The only garbling test checks that the protocol terminates.",
 [GB, "src/circuit.rs", CORE], [("gate garbling", GB), ("wire transformation", GB), ("packing", "src/circuit.rs")], "garbled tables reconstructed from all parties' outputs", ["masked value and key of each wire"])
prop("G02", "Every row of every garbled table encrypts exactly the right message",
 "Each row of each gate's table is, slot by slot, the sum of a public matrix times the sum of the keys of the input wires belonging to the row, the encoding of the output key belonging to the row together with its masked value, and one noise value per symbol, each preprocessed noise value being used exactly once. The table shares of the parties lie on a polynomial of degree less than n.",
 ["programs", "inputs", "configurations"], "All rows (also those an evaluation does not reach), gates, slots and symbols of all circuits, all masks and keys.",
 "The only garbling test checks that the protocol terminates; no row is decrypted.",
 [GB], [("row encryption", GB), ("message encoding", GB), ("noise", GB)], "garbled tables reconstructed from all parties' outputs over several key sets", None)
prop("G03", "No encryption matrix is used twice with the same key",
 "Whenever a wire is an input of several gates in the same slot, the matrices multiplied with its keys in these gates' tables are different, whatever the positions and types of the gates. Within a gate the matrices of different rows and slots are different.",
 ["programs", "configurations"], "All circuits and packing sizes, in particular wires used as left input of one gate and right or only input of another.",
 "No test looks at the encryption.",
 [GB], [("matrix selection", GB)], "difference of garbled tables under keys that differ in one wire", ["matrices used per wire and slot"])
prop("G04", "Garbling with jointly generated material gives tables for its secrets",
 "When the parties generate the described material themselves and garble with it, at once or after storing and loading it, alone or with other such courses at the same time under other identifiers, every party finishes and every row of every table is in every used slot and symbol the right encryption (G02) under the masks and keys of that material plus noise, where the noise values found in the tables are those of the generated noise sharings, each carried by at most one symbol. Hence a row in which not more than half the redundant symbols carry noise decodes to the right key and masked value.",
 ["programs", "configurations", "schedules", "histories"], "All circuits, admissible parameters and delivery schedules, including parties that already garble while others still preprocess, and material stored in between.",
 "Preprocessing and garbling are tested separately; garbling is only tested with constant dummy material and its result is not looked at.",
 [GB, "src/protocol/preproc.rs", "src/math/mod.rs"], [("material generation", "src/protocol/preproc.rs"), ("row encryption", GB), ("noise", GB), ("stored material", "src/protocol/preproc.rs")], "material and garbled tables reconstructed from all parties' outputs of one run", ["noise carried by every symbol"])

BIN = "src/bin"
prop("B01", "Benchmark programs finish at all parties and report the run",
 "When all parties run a benchmark program with the same options, every party's process terminates successfully for any start order, number of repetitions and whether or not results are saved. With saving, the first party writes a report containing the options as given and one entry per party in party order with one measurement per repetition and one traffic figure per sender in party order, which counts that sender's messages of the repetition (apart from synchronization) and no others.",
 ["configurations", "schedules"], "Both benchmark programs, all combinations of options, all start orders.",
 "No test runs the programs.",
 [BIN + "/garble.rs", BIN + "/preproc.rs", NET], [("shutdown", BIN), ("report", BIN)], "exit status, output and report file of real processes", ["running parties", "unsent messages"])
prop("B02", "The size program reports the true amounts and size of the material",
 "For any circuit and parameters the size program prints the amounts that the description gives for that circuit and parameters, and the exact number of bytes of the encoded material. The amounts to be generated include the sharings that noise generation consumes.",
 ["programs", "configurations"], "All circuits and parameters.",
 "No test runs the program.",
 [BIN + "/preproc_size.rs", PRE], [("size report", BIN + "/preproc_size.rs")], "program output", None)
prop("E01", "The communication estimate counts what garbling and preprocessing send",
 "One run of garbling and one of preprocessing send, over all pairs of parties, exactly the field elements that follow from the packed circuit and the parameters: an element from everyone to everyone per sharing and opening, n to the leader and n back per reduction. The script for communication estimates (semi-honest, default noise) prints for every item and in total one party's share of these in bytes, for gates of one kind packed together and batches filled across key symbols; it equals what is sent if all batches are full and is never more.",
 ["configurations", "inputs"], "All circuits (estimate: AND and XOR gates) and parameters.",
 "No test counts messages and the scripts have no tests.",
 ["scripts/communication_estimates.py", GB, PRE, CORE], [("cost model", "scripts/communication_estimates.py"), ("messages", GB)], "messages in a controlled network, printed figures", None)
prop("Z01", "Security parameter and computation scripts give true values",
 "The computation costs printed by the estimate scripts equal those of the implemented protocols, and the generated security parameters and binary matrices reach the requested level.",
 ["configurations"], "All parameters accepted by the scripts.",
 "The scripts have no tests.",
 ["scripts/computation_estimates.py", "scripts/lpn_param.py"], [("cost model", "scripts/computation_estimates.py"), ("attack cost estimate", "scripts/lpn_param.py")], "printed tables", None)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
