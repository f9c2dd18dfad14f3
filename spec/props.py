P1F = ["phase1/phase1.go", "phase1/utils.go", "phase1/contribution.go", "phase1/header.go"]
P2F = ["phase2/phase2.go", "phase2/utils.go", "phase2/contribution.go", "phase2/header.go"]
KEY = ["common/keypair.go", "common/utils.go"]

NOTE = "Symbolic execution of the SSA of the current tree; field elements, bytes and sizes within the stated bounds are symbolic and every assertion is decided for all their values. Trusts the executor's models (points as discrete logarithms in a generic bilinear group, ideal hashes, file system), which native runs of models of explored paths confirm on every run."

prop("C01", "Phase 1 initialisation writes exactly the neutral parameters",
     "For every supported power, initialising a phase 1 ceremony writes a file in the documented format whose header is that power with zero contributions and whose points all are the group generators in the documented number and order. Unsupported powers are refused with an error.",
     ["inputs"], "every power the format admits",
     "The tests initialise one power and never look at the points; a wrong count or section only shows later, or never.",
     ["phase1/phase1.go", "phase1/header.go", "phase1/utils.go"],
     [("Initialize", "phase1/phase1.go:Initialize"), ("header codec", "phase1/header.go")],
     [H("P1Init", "powers 1..16 (thorough 1..17), all file bytes compared"),
      H("P1Power", "every unsupported power byte, symbolic", "rejected")],
     NOTE, "powers above 16 (17 thorough), for which the scaled batch size stands (many batches per section are crossed)")

prop("C02", "A phase 1 contribution multiplies the parameters by its proven secrets",
     "For every valid phase 1 file, contributing yields a file in which the parameters are those of the input with tau, alpha and beta multiplied by new secrets, still consecutive powers and consistent between both groups, and one record is appended that proves exactly these secrets against the previous transcript. Power and earlier records are preserved.",
     ["inputs", "histories"], "all tau, alpha, beta, all new secrets, all earlier contributions, all sizes within the bounds",
     "The tests contribute to one size with random secrets and only check that Verify agrees, which shares code with Contribute; batches are never crossed.",
     P1F + KEY, [("Contribute", "phase1/phase1.go:Contribute"), ("scaleG1, scaleG2", "phase1/utils.go"), ("key pairs", "common/keypair.go:GenPublicKey")],
     [H("P1Contribute", "powers 1..9 (11), 0..3 (5) earlier contributions, all secrets and points symbolic; oracle: independent reader, pairings and challenge"),
      H("P1Contribute", "the same with the batch sizes of the code", whole=True),
      H("P1Big", "powers 12..13 (14) with the batch sizes of the code, one contribution before, one made and verified by the code", whole=True, native=1),
      H("P1Many", "a file with 253..258 records takes a further contribution and verifies")],
     NOTE, "powers above 9 (11); batches are covered by scaling the batch size to 4")

prop("C03", "Every honest phase 1 history verifies",
     "A chain of contributions that starts from an initialised file, or from a transformed file given as the base, is accepted by verification, whatever the size, the number of contributions and the secrets.",
     ["inputs", "histories"], "all honest histories within the bounds",
     "One history of one size is tried by the tests; acceptance must not depend on random values, batch boundaries or the number of contributions.",
     P1F + KEY, [("Verify", "phase1/phase1.go:Verify"), ("verifyContribution", "phase1/utils.go:verifyContribution")],
     [H("P1Chain", "powers 1..7 (9), 1..4 contributions made and verified by the code, secrets symbolic"),
      H("P1HonestRef", "powers 1..9 (11), 1..5 (6) contributions made by an independent reference implementation"),
      H("P1Many", "histories of 253..258 contributions"),
      H("P1TransformChain", "input powers 1..5 (6), all output powers, 1..3 contributions on the transformed file"),
      H("P1BaseLarge", "transformed base of powers 6..11 (13), 1..2 reference contributions"),
      H("P1BaseLarge", "the same with the batch sizes of the code", whole=True),
      H("P1Big", "powers 12..13 (14) with the batch sizes of the code, one contribution before, one made and verified by the code", whole=True, native=1)],
     NOTE, "longer chains and larger powers")

prop("C04", "Phase 1 verification only accepts consistent parameters",
     "If verification accepts a file, its parameters are consecutive powers of one non-zero tau, alpha*tau^i and beta*tau^i with non-zero alpha and beta, equal in both groups, and the last record is for exactly these parameters. This holds for any file, including adversarial ones.",
     ["inputs"], "all files of the sizes within the bounds, every point independently arbitrary",
     "No test verifies a wrong file; soundness quantifies over all wrong files and depends on each section, batch boundary and both groups.",
     P1F + KEY, [("Verify", "phase1/phase1.go:Verify"), ("linearCombinationG1/G2", "phase1/utils.go"), ("SameRatio", "common/utils.go:SameRatio")],
     [H("P1Sound1", "powers 1..5 (6), one record, every point of parameters and record an independent symbolic logarithm", "accepted rejected"),
      H("P1Sound2", "powers 1..3 (4), two (or three) arbitrary records", "accepted rejected"),
      H("P1Sound0", "power 1, no record, arbitrary parameters", "rejected"),
      H("P1SoundTransformed", "powers 1..3 (4), arbitrary base file, 1..2 (3) arbitrary records", "accepted rejected"),
      H("P1SoundWide", "powers 6, 10 (6..11), all points and one record arbitrary", "accepted rejected"),
      H("P1SoundWide", "the same with the batch sizes of the code (one batch)", "accepted rejected", whole=True),
      H("P1Infinity", "powers 1..3 (4), any one of all points replaced by infinity", "rejected")],
     NOTE, "powers above 5 (6); several records at powers above 3 (4)", ["the random coefficients of batched checks are treated as indeterminates: acceptance with negligible probability is not counted"])

prop("C05", "Phase 1 transcripts are bound to their history",
     "If verification accepts a file, every record proves knowledge of the factor by which its contribution changed tau, alpha and beta, bound to the complete preceding history, and carries the hash of its own content chained to it. Records cannot be altered, moved, dropped, repeated or reused for another secret.",
     ["inputs", "histories"], "all records, all tampering within the bounds",
     "Tests only verify honest transcripts; the binding is about every forged one.",
     P1F + KEY, [("verifyContribution", "phase1/utils.go:verifyContribution"), ("GenSP challenge", "common/keypair.go:GenSP"), ("record hash", "phase1/contribution.go")],
     [H("P1Bind", "powers 1..2, histories of 1..3 (4) contributions with symbolic secrets: any point, challenge or hash byte of any record altered, with the later records left alone or relinked to it, hashes over more or fewer bytes, records dropped, swapped, repeated, truncated", "accepted rejected"),
      H("P1Contribute", "the record that is made proves its factors against the previous hash"),
      H("P1HonestRef", "records of an independent implementation of the format are accepted"),
      H("P1Many", "histories of 253..258 contributions"),
      H("P1Counts", "headers that tell 18 numbers of contributions to 65535, arbitrary parameters, no valid record", "rejected"),
      H("P1Sound1", "one arbitrary record", "accepted rejected"),
      H("P1Sound2", "two (or three) arbitrary records", "accepted rejected"),
      H("P1SoundTransformed", "arbitrary records on an arbitrary base", "accepted rejected")],
     NOTE, "arbitrary records: chains of more than two (three); tampering: chains of more than three (four)")

prop("C06", "Malformed phase 1 files give errors, never panics or acceptance",
     "Truncated, missing or wrongly sized phase 1 files, headers that do not fit the content and points outside the groups make every operation that needs them return an error. No input file makes an operation panic, and a file that cannot take a further contribution is refused.",
     ["inputs", "crash_points"], "every prefix, every header, every point position",
     "Malformed inputs are not tested; truncation must be caught at every byte.",
     P1F, [("header reading", "phase1/header.go:ReadFrom"), ("decoders", "phase1/phase1.go, phase1/utils.go"), ("contribution reading", "phase1/contribution.go")],
     [H("P1Truncated", "powers 1..2 (3), 0..2 contributions: every proper prefix of a valid file, for Verify and Contribute", "rejected"),
      H("P1TruncatedBase", "every proper prefix of the base file", "rejected"),
      H("P1UseTruncated", "powers 1 (2), 0..1 contributions: every proper prefix, for verification, contribution, as a base and for both initialisations", "rejected"),
      H("P1UseBadPoint", "power 1: every point outside the groups, for the same operations", "rejected"),
      H("P1TransformMalformed", "powers 1..2 (3): every proper prefix of the input of the transformation, every point that it needs outside the groups", "rejected"),
      H("P1Header", "all 2^24 headers, symbolic, on a valid file"),
      H("P1BadPoint", "powers 1..2 (3), every point position, off the curve or off the subgroup, symbolic encodings", "rejected"),
      H("P1Infinity", "every point replaced by infinity", "rejected"),
      H("P1Missing", "missing inputs and output directories"),
      H("IOMissing", "every input missing or a directory, for every operation", "failed"),
      H("P1Full", "the maximal number of contributions", "rejected"),
      H("P1Power", "every unsupported power", "rejected"),
      H("P1Layout", "powers 1..2 (3), 0..2 contributions, any point in the uncompressed encoding, every operation that reads the file", "rejected"),
      H("P1Trailing", "powers 1..2 (3), 0..2 contributions, 1..1280 trailing bytes or records", "rejected")],
     NOTE, "files of powers above 2 (3) for the point-by-point cases; several defects in one file at once")

prop("C07", "Transform selects exactly the first powers of the larger ceremony",
     "Transforming an existing powers-of-tau file writes a phase 1 file of the requested power with zero contributions whose points are exactly the corresponding points of the input. A request for more powers than the input holds, or a truncated input, is an error.",
     ["inputs"], "all input points, all pairs of powers within the bounds",
     "Not tested at all; section offsets depend on both powers.",
     ["phase1/phase1.go", "phase1/utils.go"], [("Transform", "phase1/phase1.go:Transform"), ("transformG1/G2", "phase1/utils.go")],
     [H("P1Transform", "1 <= out <= in <= 6 (8), every input point symbolic"),
      H("P1TransformBad", "in 0..3, out 0..5, complete and truncated inputs", "accepted rejected"),
      H("P1TransformMalformed", "powers 1..2 (3): every proper prefix, every point outside the groups", "rejected"),
      H("P1TransformLarge", "13 input powers 9..28, all offsets of the real layout, output powers 1..4 (6)"),
      H("P1TransformChain", "contributions on transformed files")],
     NOTE, "output powers above 6 (8); input powers above 8 with output powers above 4 (6)")

prop("C08", "Phase 2 initialisation evaluates the circuit's QAP exactly",
     "For every circuit that fits, initialising phase 2 writes delta equal to the generators, Z_i = tau^i*(tau^n-1), and for every wire the evaluations of its A, B and beta*A+alpha*B+C polynomials, assigned to the verifying part, the private part or the commitment part as the wire is public, private or committed. The header counts match the circuit.",
     ["inputs", "programs"], "all circuits of the sizes within the bounds with arbitrary coefficients, all tau, alpha, beta",
     "The tests use one circuit with coefficients 1; special coefficients, empty rows, unused wires and domain padding are not reached, and a wrong point yields keys that merely fail later.",
     P2F + ["lagrange/g1.go", "lagrange/g2.go"], [("processEvaluations", "phase2/utils.go"), ("processDeltaAndZ", "phase2/utils.go"), ("processPVCKK", "phase2/utils.go"), ("processLagrange", "phase2/utils.go")],
     [H("P2Init", "phase 1 powers 1..4 (5), 0..2^power constraints, 1..2 public, 0..2 secret, 0..1 internal wires, generic coefficients, symbolic tau, alpha, beta"),
      H("P2InitCoeffs", "3 constraints, every position and wire, coefficient pairs from 0, 1, 2, -1, -2 and an arbitrary element"),
      H("P2InitSizes", "56 coefficients around powers of two up to 2^253, half of the order and zero, both signs, in every row"),
      H("P2InitMany", "66000 wires, and 66000 terms with different coefficients"),
      H("P2InitSparse", "1..4 constraints with a single term at every position"),
      H("P2InitBase", "circuits of 1..8 (16) constraints on phase 1 files of 13 powers 9..28"),
      H("P2InitLarge", "powers 4..8 (9), up to 28 wires, sparse circuits with arbitrary coefficients")],
     NOTE, "more than 256 (512) constraints; more than 28 wires; dense circuits of more than 16 (32) constraints", ["gnark's R1CS serialisation is modelled as faithful"])

prop("C09", "Commitments and lazy constraints are evaluated like any other",
     "For circuits with commitments, the committed wires go to the commitment part and nowhere else, and the commitment information reaches the keys unchanged. Lazy (templated) constraints contribute exactly what the plain constraints they stand for contribute.",
     ["inputs", "programs"], "all sets of committed wires, public or private, and all lazy templates within the bounds",
     "One commitment circuit is tested at most; lazy constraints are not tested at all.",
     P2F + ["phase2/parted.go", "keys/keys.go"], [("filterL", "phase2/utils.go:filterL"), ("lazy constraints", "phase2/utils.go:processEvaluations")],
     [H("P2InitCommit", "up to 3 public, 2 secret and 2 (3) internal wires, every subset of the wires committed, every position of the commitment"),
      H("LazyInit", "0..2 plain constraints, templates of 1..2 constraints with 1..2 instances, every input order"),
      H("PartedCommit", "the same commitments through the parted initialisation"),
      H("PartedLazyInit", "the same lazy circuits through the parted initialisation")],
     NOTE, "larger circuits and templates")

prop("C10", "Phase 2 accepts exactly the circuits its phase 1 supports",
     "The domain of a phase 2 file is the smallest power of two that holds the constraints, and the counts in the header are those of the circuit. A circuit with more constraints than phase 1 supports is refused with an error instead of a panic or wrong parameters.",
     ["inputs", "configurations"], "all combinations of power and number of constraints within the bounds",
     "Only fitting circuits are tested; the boundary is a comparison on sizes.",
     ["phase2/utils.go", "phase2/phase2.go", "phase2/header.go", "phase2/parted.go"], [("nextPowerofTwo", "phase2/utils.go"), ("processHeader", "phase2/utils.go")],
     [H("P2TooLarge", "powers 1..3, 0..11 constraints", "accepted rejected"),
      H("PartedTooLarge", "the same for the parted initialisation", "accepted rejected"),
      H("P2Init", "header counts over all small shapes"),
      H("P2InitCommit", "header counts for every commitment to up to 3 public, 2 secret and 2 (3) internal wires"),
      H("PartedCommit", "the same for the parted initialisation")],
     NOTE, "numbers of constraints beyond 11")

prop("C11", "A phase 2 contribution multiplies delta by its proven secret",
     "For every valid phase 2 file, contributing yields a file in which delta is multiplied by a new secret in both groups, every Z and private point is divided by it, and one record is appended that proves exactly this secret against the previous transcript. Header counts and earlier records are preserved.",
     ["inputs", "histories"], "all parameters, sizes, earlier contributions and secrets within the bounds",
     "Tests only check that Verify agrees on one size; batch boundaries are never crossed.",
     P2F + KEY, [("Contribute", "phase2/phase2.go:Contribute"), ("scale", "phase2/utils.go:scale")],
     [H("P2Contribute", "domains 2..32 (128), 0..16 (40) private points around multiples of the scaled batch size 4, 0..3 (5) earlier contributions, everything symbolic"),
      H("P2Wide", "domains 2..512 (1024), 0..512 (600) private points around multiples of 128 and 256"),
      H("P2Wide", "the same with the batch sizes of the code", whole=True),
      H("P2Big", "domains 2048, 16384 (2048..16384), 4097, 20000 (1500..40000) private points with the batch sizes of the code", whole=True, native=1),
      H("P2Many", "a file with 253..258 records takes a further contribution")],
     NOTE, "larger sizes")

prop("C12", "Every honest phase 2 history verifies",
     "A chain of contributions to an initialised phase 2 file is accepted by verification against that file, whatever the circuit, the number of contributions and the secrets.",
     ["inputs", "histories"], "all honest histories within the bounds",
     "One history of one circuit is tested.",
     P2F + KEY, [("Verify", "phase2/phase2.go:Verify"), ("verifyContribution", "phase2/utils.go")],
     [H("P2Chain", "small circuits, 4 contributions made and verified by the code, secrets symbolic"),
      H("P2HonestRef", "domains 2..32 (128), 0..16 (40) private points, 1..5 (7) contributions made by an independent reference"),
      H("P2Wide", "domains 2..512 (1024), 0..512 (600) private points around multiples of 128 and 256"),
      H("P2Wide", "the same with the batch sizes of the code", whole=True),
      H("P2Big", "domains 2048, 16384 (2048..16384), 4097, 20000 (1500..40000) private points with the batch sizes of the code", whole=True, native=1),
      H("P2Many", "histories of 253..258 contributions")],
     NOTE, "longer chains and larger circuits")

prop("C13", "Phase 2 verification only accepts the original divided by delta",
     "If verification accepts a file against its origin, delta is non-zero and equal in both groups, every Z and private point is the original one divided by delta, the header counts are the original ones, and the last record is for this delta. This holds for any file, including adversarial ones.",
     ["inputs"], "all files of the sizes within the bounds, every point independently arbitrary",
     "No wrong file is tested; each point of every batch has to be bound.",
     P2F + KEY, [("verifyParameter", "phase2/utils.go:verifyParameter"), ("aggregate", "phase2/utils.go:aggregate")],
     [H("P2Sound1", "domains 2..32 (128), 0..16 (40) private points, one record, all points symbolic", "accepted rejected"),
      H("P2SoundN", "two or three (four) arbitrary records", "accepted rejected"),
      H("P2SoundWide", "domains 64, 2048 (64..4096), 130, 2100 (65..4200) private points, all points and one record arbitrary", "accepted rejected"),
      H("P2SoundWide", "the same with the batch sizes of the code (one batch)", "accepted rejected", whole=True),
      H("P2Sound0", "no record", "rejected"),
      H("P2HeaderVerify", "each header field any 63-bit value, symbolic"),
      H("P2Infinity", "any one point at infinity", "rejected"),
      H("P2Layout", "any one point in the uncompressed encoding, in its place or over the next one: contribution and extraction see the points that were verified", "rejected")],
     NOTE, "larger sizes", ["the random coefficients of batched checks are treated as indeterminates"])

prop("C14", "Phase 2 transcripts are bound to their history",
     "If verification accepts a file, every record proves knowledge of the factor by which its contribution changed delta, bound to the complete preceding history, and carries the hash of its content. Records cannot be altered, moved, dropped, repeated or taken from phase 1.",
     ["inputs", "histories"], "all records, all tampering within the bounds",
     "Tests only verify honest transcripts.",
     P2F + KEY, [("verifyContribution", "phase2/utils.go:verifyContribution"), ("record hash", "phase2/contribution.go"), ("GenSP", "common/keypair.go:GenSP")],
     [H("P2Bind", "histories of 1..4 (5) contributions with symbolic secrets: any point, challenge or hash byte of any record altered, with the later records left alone or relinked to it, hashes over more or fewer bytes, records dropped, swapped, repeated, truncated, of phase 1", "accepted rejected"),
      H("P2Contribute", "the record that is made proves its factor against the previous hash"),
      H("P2HonestRef", "records of an independent implementation of the format are accepted"),
      H("P2Many", "histories of 253..258 contributions"),
      H("P2Sound1", "one arbitrary record", "accepted rejected"),
      H("P2SoundN", "several arbitrary records", "accepted rejected")],
     NOTE, "arbitrary records: chains of more than three (four)")

prop("C15", "Malformed phase 2 and evaluation files give errors, never panics",
     "Truncated, missing or inconsistent phase 2, origin or evaluation files, impossible sizes in headers and points outside the groups make verification, contribution and key extraction return an error. No such file makes them panic, exhaust memory or report success.",
     ["inputs", "crash_points"], "every prefix, header values, every point position",
     "Malformed inputs are not tested.",
     P2F + ["keys/keys.go"], [("header validation", "phase2/header.go"), ("decoders", "phase2/phase2.go, keys/keys.go")],
     [H("P2Truncated", "domains 2..4 (8), 0..2 contributions: every proper prefix, Verify and Contribute", "rejected"),
      H("P2TruncatedOrigin", "every proper prefix of the origin", "rejected"),
      H("P2HeaderVerify", "each header field any 63-bit value, symbolic"),
      H("P2HeaderOp", "each header field, 16 extreme values, Contribute", "accepted rejected"),
      H("P2BadPoint", "domains 2..8 (16), 0..2 contributions: every point position", "rejected"),
      H("P2Missing", "missing files and directories"),
      H("KeysTruncated", "every proper prefix of either input, both extractions", "rejected"),
      H("KeysHeader", "each header field, 15 extreme values", "accepted rejected"),
      H("KeysBadPoint", "every point position of both inputs", "rejected"),
      H("KeysMissing", "missing inputs, output directories and verifying key"),
      H("KeysLength", "every number of points in any section of the evaluations, symbolic", "rejected"),
      H("KeysMismatch", "evaluations of another circuit, every count different by one", "rejected"),
      H("IOMissing", "every input missing or a directory, for every operation", "failed")],
     NOTE, "larger files; several defects in one file at once")

prop("C16", "Parted initialisation equals the regular one",
     "Initialising phase 2 from a circuit split into parts gives byte-identical phase 2 and evaluation files to initialising from the whole circuit, for every circuit and batch size. Counts that do not match the parts and missing parts are errors.",
     ["inputs", "programs", "configurations"], "all circuits, batch sizes and argument values within the bounds",
     "One circuit and batch size is tested.",
     ["phase2/parted.go", "phase2/utils.go", "phase2/phase2.go"], [("InitializeFromPartedR1CS", "phase2/parted.go"), ("checkParts", "phase2/parted.go")],
     [H("PartedInit", "0..8 constraints, every batch size, several wire layouts, symbolic secrets"),
      H("PartedLarge", "powers 4..6 (8): 1 to 2^power constraints around the halves of the domain, 3..20 wires, 4 batch sizes"),
      H("P2InitBase", "parted circuits of 1..8 (16) constraints on phase 1 files of 13 powers 9..28"),
      H("PartedSparse", "a single term at every position"),
      H("PartedSizes", "112 coefficients at the limits of machine numbers"),
      H("PartedCommit", "circuits with commitments"),
      H("PartedLazyInit", "circuits with lazy constraints"),
      H("PartedArgs", "wrong counts, batch sizes and session names", "accepted rejected"),
      H("PartedMissing", "any part missing", "rejected"),
      H("PartedTooLarge", "circuits beyond the capacity", "accepted rejected"),
      H("PartedSame", "the output is the input", "refused")],
     NOTE, "more than 64 (256) constraints")

prop("C17", "The extracted keys are exactly the ceremony's parameters",
     "Key extraction writes a proving and a verifying key whose every element is the corresponding parameter of the final phase 2 file and the evaluations, with the points at infinity removed and marked as gnark expects. gnark reads both files back to the same keys.",
     ["inputs"], "all parameter values, including every pattern of points at infinity, within the bounds",
     "Tests extract the keys of one circuit; patterns of infinity and commitments vary with the circuit.",
     ["keys/keys.go"], [("extractPK, extractVK", "keys/keys.go"), ("filterInfinityG1/G2", "keys/keys.go")],
     [H("KeysMany", "66000 wires, private or public, nearly all or none at infinity"),
      H("KeysOver", "the keys of 24 other states are there before"),
      H("KeysExtract", "up to 5 (6) wires, public, private and committed, every point arbitrary or infinity"),
      H("KeysReadable", "gnark's own decoder and encoder on the result"),
      H("KeysWide", "64..512 (600) wires around multiples of 128 and 256, mostly public, private or committed"),
      H("KeysLarge", "domains 2..256 (512), up to 50 (300) wires, fixed patterns of infinity")],
     NOTE, "larger circuits")

prop("C18", "Split keys equal the monolithic keys",
     "Extracting split keys writes the same key as extracting the monolithic one, section by section, with the same verifying key and one commitment key shared by prover and verifier.",
     ["inputs"], "all parameter values within the bounds",
     "One circuit without commitments is tested.",
     ["keys/keys.go"], [("ExtractSplitKeys", "keys/keys.go")],
     [H("KeysMany", "66000 wires, private or public, nearly all or none at infinity"),
      H("KeysSession", "14 sessions, in other directories and with unusual characters"),
      H("KeysOver", "the split keys of 24 other states are there before"),
      H("KeysSplit", "up to 5 (6) wires, public, private and committed, every point arbitrary or infinity"),
      H("KeysLarge", "domains 2..256 (512), up to 50 (300) wires, fixed patterns of infinity"),
      H("KeysWide", "64..512 (600) wires around multiples of 128 and 256, mostly public, private or committed"),
      H("KeysTruncated", "split extraction on truncated inputs", "rejected")],
     NOTE, "larger circuits", ["gnark's reader of the split format needs memory-mapped files of a real circuit and is covered by the repository's own test only"])

prop("C19", "The Lagrange conversion is the inverse transform",
     "Converting a vector of points to the Lagrange basis gives the inverse discrete Fourier transform of the vector in both groups, for every size and number of processors, whatever the points.",
     ["inputs", "configurations", "schedules"], "all points, sizes and processor counts within the bounds",
     "Not tested on its own; the split between sequential and parallel parts depends on size and processors.",
     ["lagrange/g1.go", "lagrange/g2.go", "common/utils.go"], [("ConvertG1, ConvertG2", "lagrange/g1.go, lagrange/g2.go"), ("BitReverseG1/G2", "common/utils.go")],
     [H("LagG1", "sizes 2..256 (1024), 19 (32) numbers of processors from 1 to 128 (256), arbitrary points"),
      H("LagG2", "sizes 2..256 (1024), 19 (32) numbers of processors from 1 to 128 (256), arbitrary points"),
      H("BitRev", "sizes 1..32 (256), arbitrary points"),
      H("LagSpecial", "sizes 2..256 (1024), 5 (10) numbers of processors: equal and opposite points, points at infinity, powers of a root of unity"),
      H("LagRace", "the same sizes under race detection", race=True),
      H("LagSchedules", "sizes 4, 16, 64, 2..3 (4) processors, all schedules of the first 4 (7) scheduling points")],
     NOTE, "sizes above 256 (1024)")

prop("C20", "Parallel loops cover every index exactly once",
     "The parallel loop helper calls its body on intervals that partition the range, waits for all of them, and gives the same effect under every schedule, for every range length and number of processors or tasks. An empty range does nothing.",
     ["inputs", "schedules", "configurations"], "all lengths up to 2^28, all task counts and schedules within the bounds",
     "The helper is only used indirectly; the partition arithmetic depends on length and number of processors.",
     ["common/parallelize.go"], [("Parallelize", "common/parallelize.go:Parallelize")],
     [H("ParSpans", "lengths up to 2^28 symbolic, 1..6 (16) tasks or processors"),
      H("ParMany", "19 (32) numbers of processors from 1 to 128 (256) or tasks, lengths around 1 to 2^20 times their number, every index"),
      H("ParEmpty", "empty ranges, 1..8 tasks"),
      H("ParSlow", "1..130 (600) tasks, one of which finishes after all others, with race detection", race=True),
      H("ParSchedules", "0..5 (8) iterations, 1..3 (4) tasks, all schedules, with race detection", race=True)],
     NOTE, "more than 256 tasks; arbitrary lengths for more than 16 tasks")

prop("C21", "Success means that every output was completely written",
     "If an operation reports success, all its output files are complete and correct, whatever I/O errors occur: an output that cannot be created, a full device or a file size limit at any byte is reported as an error. Longer files that exist already are replaced completely.",
     ["fault_sequences", "crash_points"], "every operation, every output, every position of the fault",
     "No test injects I/O faults; buffered writers hide errors until flush or close.",
     P1F + P2F + ["phase2/parted.go", "phase2/lagrange.go", "keys/keys.go", "common/file.go"],
     [("flush and close", "phase1/phase1.go, phase2/phase2.go, keys/keys.go"), ("CreateOutput", "common/file.go")],
     [H("IOLimit", "all 9 writing operations, file size limit 0..20000 bytes symbolic", "done failed"),
      H("IOFull", "each output on a full device", "failed"),
      H("IODir", "each output cannot be created", "failed"),
      H("IOOver", "each output exists, longer, shorter or empty, with and without commitments"),
      H("IOCollide", "two outputs of an operation are the same file", "refused")],
     NOTE, "faults that go away again; power loss after a successful close (the tool does not sync)")

prop("C22", "The command line rejects wrong arguments and runs what it is told",
     "Every command runs its operation with the arguments in the documented order and fails exactly when the operation fails. A wrong number of arguments, text that is no number and powers out of range are errors that write nothing, never silently truncated to another value.",
     ["inputs", "configurations"], "all commands, argument counts and numeric values within the bounds",
     "The command line is not tested at all.",
     ["main.go", "actions.go"], [("actions", "actions.go"), ("command table", "main.go")],
     [H("CLIWorks", "all 12 commands with valid arguments", cli=True),
      H("CLICount", "all commands, every number of arguments up to two too many", "rejected", cli=True),
      H("CLIPower", "10 malformed numbers and 600 (1200) integers", "done rejected", cli=True),
      H("CLITransform", "21 x 21 pairs of powers", "done rejected", cli=True),
      H("CLIParted", "7 malformed values for each number", "rejected", cli=True),
      H("CLINumber", "18 forms of the number ten for each number of each command: the same as 10, or an error", "done rejected", cli=True),
      H("CLIFails", "every command without its input", "rejected", cli=True),
      H("CLIUnknown", "unknown commands", cli=True)],
     NOTE, "flags of the command line library")

prop("C23", "The attested hash is the one in the transcript",
     "The hash a contributor is shown is the hash recorded in the new file, and verification prints the recorded hash of every contribution it accepts. So the attestation of a participant can be checked against the final transcript.",
     ["inputs", "histories"], "all histories within the bounds",
     "The tests do not look at the output.",
     ["phase1/phase1.go", "phase2/phase2.go", "phase1/utils.go", "phase2/utils.go"], [("printing", "phase1/phase1.go:Contribute, phase1/phase1.go:Verify, phase2/phase2.go:Contribute, phase2/phase2.go:Verify")],
     [H("P1Contribute", "powers 1..3, 0..2 earlier contributions"),
      H("P1Chain", "chains of 1..2 (4) contributions"),
      H("P2Contribute", "0..2 (3) earlier contributions"),
      H("P2HonestRef", "chains of 1..3 (4) contributions"),
      H("P2Chain", "chains of 2 (4) contributions")],
     NOTE, "the layout of the printed text (any text that contains the hash in hexadecimal is accepted)")

prop("C24", "Every secret is fresh, independent and full-size random",
     "The secrets of a contribution and the trapdoor of the commitment key are independent random field elements from the system's cryptographic source, never reused within an operation, between operations or derived from predictable data. An operation whose random source fails returns an error, and verification does so too.",
     ["inputs", "histories", "fault_sequences"], "all executions and failures of the random source within the bounds",
     "A reused or short secret passes every test.",
     ["common/keypair.go", "phase1/phase1.go", "phase2/phase2.go", "keys/keys.go"], [("GenPublicKey", "common/keypair.go"), ("Contribute", "phase1/phase1.go, phase2/phase2.go"), ("commitment key", "keys/keys.go")],
     [H("P1Fresh", "powers 1..2 (3), 0..1 (2) earlier contributions: the three new parameters and the three blinding points depend on six independent draws"),
      H("P2Fresh", "0..1 (2) earlier contributions"),
      H("ChainFresh", "two successive contributions in each phase"),
      H("KeysFresh", "two extractions, monolithic and split, 1..2 committed wires"),
      H("RandFail", "contribution, verification and extraction with the source failing after 0..13 (23) draws", "done failed")],
     NOTE, "the quality of the operating system's random source; erasure of secrets from memory")

prop("C25", "Operations never modify their inputs",
     "No operation changes the files it reads, also when it fails and also when the output path names an input file. So a failed or repeated step never costs the ceremony its state.",
     ["inputs", "crash_points"], "all operations within the bounds, both outcomes",
     "The tests never reuse or compare inputs.",
     ["common/file.go", "phase1/phase1.go", "phase2/phase2.go", "phase2/parted.go", "keys/keys.go"], [("CreateOutput", "common/file.go")],
     [H("P1Contribute", "input compared afterwards"),
      H("P1Chain", "file compared after verification"),
      H("P1Transform", "input compared afterwards"),
      H("P1Same", "output path is the input, two spellings"),
      H("IONames", "each input has the name of any file the operation was seen to change, temporary ones included", "refused", cli=True),
      H("P2Contribute", "input compared afterwards"),
      H("P2HonestRef", "both inputs compared after verification"),
      H("P2Same", "output path is an input, two spellings", "done refused"),
      H("KeysExtract", "inputs compared afterwards"),
      H("KeysSplit", "inputs compared afterwards"),
      H("PartedSame", "output path is the input", "refused"),
      H("IOAlias", "every output of every operation is every input, by the same name, another spelling, a symbolic or a hard link", "refused"),
      H("IOKeep", "all inputs are kept by every operation, successful or failed by a full device or a file size limit", "done failed"),
      H("IOMissing", "no operation creates or changes an input that is missing", "failed")],
     NOTE, "files changed by another program during the operation")

prop("C26", "The exported Solidity verifier holds the verifying key",
     "The contract that the export writes for a session contains exactly the constants of that session's verifying key - alpha, beta, gamma, delta and one point for every public input, each coordinate complete and in its place - and is exactly the contract that gnark generates for that key, also after an extraction and when an older contract exists. A missing or malformed verifying key is an error.",
     ["inputs", "crash_points"], "all verifying keys within the bounds",
     "The tests do not export a contract.",
     ["keys/keys.go", "actions.go"], [("ExportSol", "keys/keys.go:ExportSol")],
     [H("SolExport", "1..4 (8) points for the inputs, 0..2 committed wires, all points symbolic, 5 session names, with and without an older contract"),
      H("SolWide", "19 (21) numbers of points from 9 to 256 (400), all points symbolic"),
      H("SolPipeline", "extraction and export of a symbolic phase 2 state, every point arbitrary or infinity"),
      H("SolBad", "every truncation of a verifying key, a missing one, one without points", "failed"),
      H("IOOver", "an older, longer contract is replaced completely"),
      H("CLIWorks", "the command", cli=True)],
     NOTE, "the meaning of the Solidity text around the constants (gnark's template is run as it is); gnark's contract does not verify proofs of circuits with commitments")

prop("C27", "A complete honest ceremony yields the circuit's Groth16 keys",
     "The keys extracted after any honest ceremony are the Groth16 keys of the circuit for tau, alpha, beta and delta equal to the products of all participants' secrets, in the monolithic and the split form.",
     ["inputs", "histories", "programs"], "all secrets of all participants, all small circuits with generic coefficients",
     "The tests prove one statement with one set of secrets; a proof may verify although unused parts of the keys are wrong.",
     P1F + P2F + ["keys/keys.go", "lagrange/g1.go", "lagrange/g2.go"], [("the whole pipeline", "phase1, phase2, keys")],
     [H("EndToEnd", "generic, sparse and lazy circuits of 1..3 constraints with and without commitment, regular and parted, initialised and transformed base, 1..2 (3) contributions in each phase (0 after a transformation), secrets symbolic")],
     NOTE, "larger circuits")

prop("C28", "Results do not depend on processors or schedule",
     "Every operation gives the same correct result on any number of processors and under every schedule, without data races.",
     ["schedules", "configurations"], "1..256 processors, all operations",
     "The tests run on one machine and not under the race detector.",
     ["common/parallelize.go", "phase1/utils.go", "phase2/utils.go", "lagrange/g1.go", "lagrange/g2.go"], [("Parallelize", "common/parallelize.go"), ("goroutines of the Lagrange conversion", "lagrange/g1.go, lagrange/g2.go")],
     [H("CPUs", "every operation on 19 (32) numbers of processors from 1 to 128 (256), with happens-before race detection on every access", race=True),
      H("LagSchedules", "all schedules of the first 4 (7) scheduling points of the conversion"),
      H("LagRace", "race detection over the conversion, sizes 2..256 (1024), 19 (32) numbers of processors from 1 to 128 (256)", race=True),
      H("ParSchedules", "all schedules of the loop helper", race=True),
      H("P2InitCommit", "sets of committed wires; where the code goes through a map, both its order of insertion and another one"),
      H("PartedCommit", "the same for the parted initialisation")],
     NOTE, "weak-memory effects of racy programs (races themselves are reported)")

prop("C29", "An operation depends on its inputs only, not on what ran before or beside it",
     "What an operation writes, accepts or refuses depends on the contents of its inputs (and fresh randomness) alone. Operations done earlier by the same process or in the same directory, on other ceremonies or on older contents of the same file names, successful or failed in the middle, and the files they left (such as srs.lag, evals, older outputs and keys), make no difference; neither do operations on other files at the same time.",
     ["histories", "schedules"], "every pair of operations, with all secrets symbolic, inputs of equal and of different sizes, the first complete or on a damaged input",
     "Each test runs one ceremony from an empty directory; a stale intermediate file, a cache or a shared buffer shows only in a second ceremony with other contents.",
     P1F + P2F + ["phase2/parted.go", "phase2/lagrange.go", "keys/keys.go", "common/file.go"],
     [("intermediate files", "phase2/utils.go, phase2/lagrange.go"), ("all operations", "phase1/phase1.go, phase2/phase2.go, phase2/parted.go, keys/keys.go")],
     [H("Again", "16 operations and rejections after each of them, on 2 (5) other sets of inputs under the same names, complete or damaged, older or newer than what was left, secrets symbolic"),
      H("Beside", "2 of 5 operations at once on different files of 2 sizes, with happens-before race detection", race=True)],
     NOTE, "three operations in a row; other interleavings of racy programs (races themselves are reported)")
