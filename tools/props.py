def P(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

FL = "float/float.go"
GA = "gadget/gadget.go"
RC = "gadget/rangecheck.go"
HI = "hint/hint.go"
UT = "util/util.go"
MA = "math/math.go"
L64 = "loc2index64/loc2index64.go"
L32 = "loc2index32/loc2index32.go"

SAMPLED = "the existing tests replay one in a hundred rows of a few hundred TestFloat vectors with one table size, one backend and wire operands only; "

PROPS = [
P("C01", "Addition and subtraction are IEEE-754 exact for every pair of operands",
  "Adding or subtracting two floating point values in a circuit accepts exactly the correctly rounded (nearest, ties to even) IEEE-754 result in canonical form, including signed zeros, subnormals, overflow to infinity, infinities and NaN. This holds for every format whose exponent range is wide for its precision (binary32 and binary64 among them), range table width, constraint system (R1CS and PLONK) and whether the operands are witness values, constants or allocated encodings; the honest prover never fails.",
  ["inputs", "configurations"], "all operand pairs of binary32, binary64 and small formats, all table widths, both constraint systems, all operand kinds",
  SAMPLED + "alignment, cancellation, carries and rounding ties over all exponent pairs are never enumerated",
  [FL, GA, HI, UT], [("Add: align, normalise, round, fix overflow", FL + " Add/Sub/round/fixOverflow"), ("sum sign rule", FL + " Add")]),
P("C02", "Multiplication is IEEE-754 exact for every pair of operands",
  "Multiplying two floating point values in a circuit accepts exactly the correctly rounded IEEE-754 product in canonical form, including subnormal results, underflow to signed zero, overflow, infinities, 0*Inf = NaN and NaN propagation. This holds for every format whose exponent range is wide for its precision (binary32 and binary64 among them), range table width, constraint system and operand kind; the honest prover never fails.",
  ["inputs", "configurations"], "all operand pairs, table widths, both constraint systems, all operand kinds",
  SAMPLED + "gradual underflow depends on every combination of exponent sum and mantissa tail",
  [FL, GA, HI], [("Mul: product MSB, shift clamp, round, fix overflow", FL + " Mul/round/fixOverflow")]),
P("C03", "Division is IEEE-754 exact for every pair of operands",
  "Dividing two floating point values in a circuit accepts exactly the correctly rounded IEEE-754 quotient in canonical form, including subnormal results, x/0 = Inf, 0/0 = NaN, x/Inf = 0, Inf/Inf = NaN and NaN propagation. This holds for every format whose exponent range is wide for its precision (binary32 and binary64 among them), range table width, constraint system and operand kind; the honest prover never fails.",
  ["inputs", "configurations"], "all operand pairs, table widths, both constraint systems, all operand kinds",
  SAMPLED + "sticky-bit and half-way decisions of the quotient depend on remainders no sample covers",
  [FL, GA, HI], [("Div: quotient hint, remainder bounds, round, fix overflow", FL + " Div/round/fixOverflow")]),
P("C04", "Square root is IEEE-754 exact for every operand",
  "The square root of a floating point value in a circuit accepts exactly the correctly rounded IEEE-754 root in canonical form, including subnormal operands, sqrt(-0) = -0, sqrt(+Inf) = +Inf and NaN for negative operands and NaN. This holds for every format whose exponent range is wide for its precision (binary32 and binary64 among them), range table width, constraint system and operand kind; the honest prover never fails.",
  ["inputs", "configurations"], "all operands, table widths, both constraint systems, all operand kinds",
  SAMPLED + "the bit lengths used are 'obtained by empirical analysis' according to the source",
  [FL, GA, HI], [("Sqrt: exponent parity, root and remainder bounds, round", FL + " Sqrt")]),
P("C05", "Comparisons, negation, absolute value and selection follow IEEE-754",
  "The order comparisons of two floating point values return exactly the IEEE-754 answer (0 or 1), with every comparison against NaN false and +0 equal to -0. Negation, absolute value and conditional selection change only the sign, or return exactly the chosen operand, for every value including NaN and infinities. This holds for every format whose exponent range is wide for its precision (binary32 and binary64 among them), table width, constraint system and operand kind; the honest prover never fails.",
  ["inputs", "configurations"], "all operand pairs, table widths, both constraint systems, all operand kinds",
  SAMPLED + "the order is decided by sign, exponent and mantissa comparisons whose interplay no sample enumerates",
  [FL, GA], [("less", FL + " less/IsLt/IsLe/IsGt/IsGe"), ("Neg/Abs/Select", FL)]),
P("C06", "Truncation, floor and ceiling are exact for every operand",
  "Truncating, flooring or ceiling a floating point value in a circuit accepts exactly the integral value that IEEE-754 round-toward-zero, -down and -up give, in canonical form and keeping the sign of zero, infinities and NaN. This holds for every format whose exponent range is wide for its precision (binary32 and binary64 among them), table width, constraint system and operand kind; the honest prover never fails.",
  ["inputs", "configurations"], "all operands, table widths, both constraint systems, all operand kinds",
  SAMPLED + "carry into the next binade, results of magnitude below one and already integral values at every exponent are not covered",
  [FL, GA, HI], [("Trunc/Floor/Ceil", FL), ("TruncHint/FloorHint", HI)]),
P("C07", "Encoding, decoding and allocation agree and round-trip for every bit pattern",
  "For every bit pattern of a format, the component form computed outside the circuit, the constant form and the allocated form are the same canonical form, which encodes back to the same value (NaN payloads excepted). The hexadecimal and native float conversions of the utility package agree with it bit for bit.",
  ["inputs", "configurations"], "all bit patterns of all formats, with constants and allocation in both constraint systems",
  "the tests allocate a few hundred encodings and never compare the off-circuit codec with the circuit, nor encode back",
  [FL, UT, HI], [("NewFloat", FL), ("NewConstant", FL), ("ComponentsOf/ValueOf and the F32/F64 wrappers", UT), ("HexToFloat/HexToFloat32", UT)]),
P("C08", "Float to integer conversion is exact on its whole documented range",
  "Converting a truncated, floored or ceiled floating point value to an integer gives exactly that integer, with negative values as field negatives, for every value whose exponent the power-of-two table covers. The honest prover never fails there, and values outside never yield a wrong integer.",
  ["inputs", "configurations"], "all integral values in range and values just outside it, all formats, table widths and both constraint systems",
  "the tests convert a handful of values",
  [FL, GA, HI], [("ToInt", FL), ("QueryPowerOf2", GA)]),
P("C09", "Composed programs give the same result as native IEEE arithmetic",
  "Any circuit composed of the floating point operations - results feeding operations, mixing constants, allocated and selected values, several operations sharing lookup tables - accepts exactly the result native IEEE-754 arithmetic gives for the same program. Results of operations are always valid canonical operands of further operations.",
  ["programs", "inputs", "configurations"], "random straight-line programs over all operations with random special and ordinary inputs",
  "the tests exercise single operations on freshly allocated operands; composition is only met in the fixed location and math circuits",
  [FL, GA, RC], [("canonical FloatVar invariant", FL + " FloatVar"), ("shared deferred range and power tables", RC + " commit")]),
P("S01", "Allocation accepts only valid encodings and has a unique decoding",
  "No prover can allocate a field element outside [0, 2^(1+E+M)) as a floating point value, nor allocate a valid encoding as anything other than its own canonical components, whatever values it supplies for the prover-chosen hints.",
  ["inputs", "fault_sequences"], "all field elements and all prover strategies for the hint values of allocation",
  "tests only ever run the honest hints, so a missing or loose constraint is invisible to them",
  [FL, GA, RC, HI], [("bit length and boolean constraints of NewFloat", FL), ("range checker", RC), ("power-of-two lookup", GA)]),
P("S02", "No prover can forge the result of an addition or subtraction",
  "For fixed operands, a circuit adding or subtracting floating point values is satisfiable for the correct result only, whatever values a malicious prover supplies for the hints (the sign of a NaN result excepted).",
  ["inputs", "fault_sequences"], "all operands, configurations and prover strategies for the hint values",
  "tests only ever run the honest hints, so a missing or loose constraint is invisible to them",
  [FL, GA, RC], [("constraints of Add and round", FL), ("range checker", RC), ("power-of-two lookup", GA)]),
P("S03", "No prover can forge the result of a multiplication or division",
  "For fixed operands, a circuit multiplying or dividing floating point values is satisfiable for the correct result only, whatever values a malicious prover supplies for the hints.",
  ["inputs", "fault_sequences"], "all operands, configurations and prover strategies for the hint values",
  "tests only ever run the honest hints, so a missing or loose constraint is invisible to them",
  [FL, GA, RC], [("constraints of Mul, Div and round", FL), ("range checker", RC), ("power-of-two lookup", GA)]),
P("S04", "No prover can forge the result of a comparison or selection",
  "For fixed operands, a circuit comparing floating point values (and selecting by the outcome) is satisfiable for the correct outcome only, whatever values a malicious prover supplies for the hints.",
  ["inputs", "fault_sequences"], "all operands, configurations and prover strategies for the hint values",
  "tests only ever run the honest hints, so a missing or loose constraint is invisible to them",
  [FL, GA, RC], [("less", FL), ("sign gadget", GA + " Abs/IsPositive")]),
P("S05", "No prover can forge the result of truncation, floor, ceiling or conversion",
  "For a fixed operand, a circuit truncating, flooring, ceiling or converting a floating point value to an integer is satisfiable for the correct result only, whatever values a malicious prover supplies for the hints.",
  ["inputs", "fault_sequences"], "all operands, configurations and prover strategies for the hint values",
  "tests only ever run the honest hints, so a missing or loose constraint is invisible to them",
  [FL, GA, RC], [("constraints of Trunc, Floor and ToInt", FL), ("range checker", RC)]),
P("S06", "Integer gadgets and range checks accept exactly the values they promise",
  "A bit length check in either tight mode accepts a value exactly when it fits the stated number of bits (for the small-absolute-value mode among small values and small negatives), and the loose mode accepts every value that fits and none that exceeds whole limbs. The sign, absolute value, minimum, maximum, equality, disjunction and power-of-two gadgets return their unique mathematical result for every in-range argument, whatever hints a prover supplies, for every table width and any mix of checks sharing a table, including none.",
  ["inputs", "configurations", "fault_sequences"], "all values, lengths, modes, table widths, constraint systems, mixes of checks, and prover strategies",
  "no test calls the gadgets directly; they are reached only through honest float operations at three table widths",
  [GA, RC, HI], [("CommitChecker.commit", RC), ("optimal width selection", RC), ("Abs/IsPositive/Max/Min/IsEq/Or/QueryPowerOf2", GA)]),
P("S07", "Equality assertions accept equal values and reject all others",
  "The exact equality assertion is satisfiable exactly when both values are the same canonical value or both are NaN. The one-ULP assertion accepts exactly identical values and same-sign neighbours one unit in the last place apart. The custom tolerance assertions accept exactly pairs with equal sign that are identical or whose absolute difference is at most the given tolerance; no prover can make a rejected pair pass.",
  ["inputs", "fault_sequences"], "all pairs of values, tolerances, configurations and prover strategies",
  "tests only assert pairs that must be accepted; nothing shows that a wrong pair is refused",
  [FL, GA], [("AssertIsEqual", FL), ("AssertIsEqualOrULP", FL), ("AssertIsEqualOrCustomULP32/64", FL)]),
P("S08", "No prover can forge the result of a square root",
  "For a fixed operand, a circuit taking the square root of a floating point value is satisfiable for the correct result only, whatever values a malicious prover supplies for the hints.",
  ["inputs", "fault_sequences"], "all operands, configurations and prover strategies for the hint values",
  "tests only ever run the honest hints, so a missing or loose constraint is invisible to them",
  [FL, GA, RC], [("constraints of Sqrt and round", FL), ("range checker", RC)]),
P("L01", "The 64 bit location circuit computes the H3 cell of every location",
  "For every latitude in [-pi/2, pi/2], longitude in [-pi, pi] and resolution 0 to 15, the 64 bit circuit computes the face-local grid indices (I, J, K) that H3 assigns, the location being moved by no more than a few units of double precision on the unit sphere where it lies on a cell or face boundary. The honest prover can prove every such location.",
  ["inputs", "configurations"], "all locations, resolutions 0 to 15, both constraint systems",
  "the 64 bit circuit's only test replays recorded rows away from poles, face edges and cell boundaries, and fails on some of them",
  [L64, MA, FL, HI], [("closestFaceAndSquaredDistance", L64), ("R", L64), ("hex2d and hex2dToCoordIJK", L64), ("NormalizeIJK", L64), ("PrecomputeHint64", HI)]),
P("L02", "The 32 bit location circuits compute the H3 cell of every location",
  "For every latitude in [-pi/2, pi/2], longitude in [-pi, pi] and resolution 0 to 15, the 32 bit circuit and its Taylor sine variant compute the face-local grid indices (I, J, K) that H3 assigns, the location being moved by no more than a small multiple of single precision on the unit sphere. The honest prover can prove every such location.",
  ["inputs", "configurations"], "all locations, resolutions 0 to 15, both constraint systems",
  "tests replay a few hundred recorded rows; poles, the date line, face centres and edges, pentagons and rounding at boundaries are not among them",
  [L32, MA, FL, HI], [("closestFaceAndSquaredDistance", L32), ("hex2d and hex2dToCoordIJK", L32), ("NormalizeIJK", L32), ("PrecomputeHint32", HI)]),
P("L03", "Hexagon grid quantisation and index normalisation are exact",
  "Every point of the plane is given the indices of the hexagon that contains it, except within rounding of an edge, in non-negative normal form with at least one index zero. Normalisation maps every signed index triple to the unique normal form of the same cell.",
  ["inputs", "configurations"], "all plane points up to the largest grid, all signed index triples, both packages and constraint systems",
  "no test calls these functions; they are reached only through whole locations",
  [L64, L32], [("hex2dToCoordIJK", L64 + ", " + L32), ("NormalizeIJK", L64 + ", " + L32)]),
P("L04", "No prover can prove a location to lie in a wrong cell",
  "For a fixed location and resolution, the stages of the location circuits (face selection, scaling, projection, grid quantisation, normalisation and the trigonometric hints) are satisfiable for one result only, whatever values a malicious prover supplies for the hints.",
  ["inputs", "fault_sequences"], "all locations, both packages, prover strategies for all hints",
  "tests only ever run the honest hints",
  [L64, L32, FL, HI], [("checks of the trigonometric hint", L64 + ", " + L32), ("stage functions", L64 + ", " + L32)]),
P("L05", "A location proof is accepted for true claims only",
  "The complete circuits, compiled by gnark, are satisfied by the right cell for a location and resolution. They are not satisfied by any other cell, a resolution above 15, an encoding outside the format, NaN, infinity, or a latitude or longitude outside [-pi/2, pi/2] or [-pi, pi].",
  ["inputs", "configurations"], "all claims, all three circuits, both constraint systems",
  "the tests only make true claims",
  [L64, L32], [("Define and the final assertions", L64 + "_test.go, " + L32 + "_test.go"), ("range assertions on the inputs", L64 + ", " + L32)]),
P("M01", "Polynomial evaluation equals Horner's scheme in IEEE arithmetic",
  "Evaluating a polynomial in a circuit gives bit for bit the value of Horner's scheme in native IEEE-754 arithmetic (zeros of either sign count as equal), for every degree, coefficient and point, with the lowest coefficient first for Eval and the highest first for the single-fold EvalK. The honest prover never fails.",
  ["inputs", "configurations"], "all polynomials and points of both formats, table widths, constraint systems and operand kinds",
  "tests evaluate one cubic and one polynomial of degree 10",
  [MA, FL], [("Polynomial.Eval/EvalK", MA)]),
P("M02", "Arctangent functions are accurate everywhere",
  "For every operand, infinities and NaN included, the circuit's arctangents differ from the mathematical value by at most a few units of the format's precision, and the two-argument arctangent does so in all quadrants and on the axes, being NaN only at the origin, for two infinities or for NaN. The honest prover never fails.",
  ["inputs", "configurations"], "all operands (both formats for atan), table widths, constraint systems and operand kinds",
  "tests compare a sample of recorded values; axes, the origin, infinities, subnormals and the switch at 1 are not among them",
  [MA, FL], [("AtanRemez64/AtanRemez32", MA), ("Atan2", MA)]),
P("M03", "Sine functions are accurate on [-pi, pi]",
  "For every operand in [-pi, pi] the circuit's Taylor sines differ from the mathematical sine by at most a few units of the format's precision, relatively so on [-pi/2, pi/2]. The honest prover never fails.",
  ["inputs", "configurations"], "all operands in [-pi, pi], both formats, table widths, constraint systems and operand kinds",
  "tests compare a sample of recorded values; neighbourhoods of 0, pi/2 and pi are not among them",
  [MA, FL], [("SinTaylor64/SinTaylor32", MA)]),
P("M04", "No prover can forge the result of a math function",
  "For a fixed operand, a circuit taking an arctangent or a sine is satisfiable for one result only, whatever values a malicious prover supplies for the hints.",
  ["inputs", "fault_sequences"], "all operands, configurations and prover strategies for the hint values",
  "tests only ever run the honest hints",
  [MA, FL, GA], [("AtanRemez64/AtanRemez32/Atan2/SinTaylor64/SinTaylor32", MA)]),
P("H01", "No witness, however invalid, crashes the prover",
  "Whatever field elements are supplied as a circuit's inputs - invalid encodings, huge values, NaN, wrong results, locations outside the globe - the prover either solves the circuit or reports an error; it never panics, hangs or exits. An encoding that is not valid for its format is always refused.",
  ["inputs", "configurations"], "all field elements as inputs of every operation, gadget, math and location circuit, both constraint systems",
  "tests supply valid witnesses only; a panic in a hint takes the whole proving process down",
  [HI, FL, GA, L64, L32], [("hint functions on out-of-range inputs", HI), ("allocation bounds", FL + " NewFloat")]),
P("R01", "Hints are pure: concurrent and repeated solving give identical witnesses",
  "Every hint function is deterministic, leaves its inputs unchanged, and shares no mutable state: solving any number of circuits concurrently, with any number of workers and in any order, gives each witness exactly the wire values it gets when solved alone, without data races.",
  ["schedules", "inputs"], "all interleavings of concurrent solving and direct hint calls over all circuits",
  "tests solve one witness at a time and compare outputs only; gnark's solver runs hints in parallel goroutines",
  [HI, FL, GA, MA, L64, L32], [("hint functions", HI), ("hints of the circuits", L64 + ", " + L32)]),
P("R02", "Compilation is deterministic and safe to run concurrently",
  "Compiling a circuit yields byte for byte the same constraint system every time, in every process and when other circuits are compiled at the same time, without data races, so that prover and verifier keys made anywhere fit together.",
  ["schedules", "configurations"], "all circuits, both constraint systems, interleavings of concurrent compilation, separate processes (map seeds)",
  "tests compile once per process; randomised map iteration or shared state would only show across runs",
  [FL, GA, RC, MA, UT], [("deferred range and power table commits", RC + ", " + GA), ("Context", FL)]),
P("B01", "Results do not depend on the proof field or constraint system",
  "Every circuit gives the same result over the scalar field of each supported curve as over BN254, in R1CS and PLONK form: right claims are accepted and wrong ones rejected, and no gadget relies on a particular field modulus.",
  ["configurations", "inputs"], "all circuits over the scalar fields of seven curves, both constraint systems",
  "tests use the BN254 field with few exceptions; the sign gadget and hints split values around half the modulus",
  [FL, GA, HI, RC], [("AbsHint and the sign gadget", HI + ", " + GA), ("field-sized arithmetic of the hints", HI)]),
P("B02", "Real proofs verify for exactly the claim they were made for",
  "With Groth16 and PLONK, a right claim can be proven and the proof, keys and proof serialised and read back, verifies for it. The proof verifies for no other public values, false claims cannot be proven, and the public claim of a location proof does not depend on the secret coordinates.",
  ["inputs", "configurations"], "all claims, operation and location circuits, proof systems and curves",
  "tests prove a handful of claims and never offer a proof for another claim",
  [FL, L64, L32, UT], [("public and secret inputs of the circuits", L64 + "_test.go, " + L32 + "_test.go"), ("results bound to outputs", FL + " AssertIsEqual")]),
P("B03", "The reported query, entry and commit costs equal the compiled constraints",
  "For R1CS circuits with a fixed table width, the query, entry and finalisation costs the gadget layer reports, added to the constraints emitted directly, are exactly the constraints of the compiled circuit. Benchmarks of single operations rest on these counters.",
  ["configurations", "programs"], "mixes of range checks, power queries and operations, table widths",
  "nothing compares the counters with the constraints emitted",
  [RC, GA, FL], [("cost counters and width selection", RC), ("power table", GA)]),
P("B04", "The automatic range table width is close to the cheapest one",
  "When the table width is left to the range checker, the compiled circuit has hardly more constraints (within a quarter) than with the best fixed width, for circuits of every size and both constraint systems.",
  ["configurations", "programs"], "mixes of bit length checks and operations from one to thousands, both constraint systems",
  "tests with the automatic width only check results, which any width gives",
  [RC], [("optimalWidth and the cost estimates", RC)]),
P("U01", "Benchmark pipelines report success and results only for verified proofs",
  "A benchmarking pipeline succeeds exactly when the circuit compiled, the assignment was proven with that circuit's keys and each proof verified against its public claim; any failing step marks the benchmark as failed and returns an error, without crashing. The file pipelines keep what a result file holds, write its header once, and append one row with the resolution, index and constraint count for each success, none for a failure.",
  ["inputs", "fault_sequences"], "circuits, assignments, result files and failures of every step",
  "no test runs the pipelines, and none makes a step fail",
  [UT], [("BenchProof, BenchProofToFile*, BenchProofMemory*", UT)]),
P("U02", "The proximity program reports the nearest vertex of the prover's cell",
  "The proximity program asks for the boundary of the cell it was given for the prover's location and prints the great circle distance from the verifier to the nearest of its vertices, for cells in all hemispheres. It reports no distance if an H3 program fails or answers nothing it can read.",
  ["inputs", "fault_sequences"], "boundaries of cells everywhere, failures of the H3 programs",
  "the program has no tests",
  ["proximity/proximity.go"], [("main, cellToBoundary, latLngToCell", "proximity/proximity.go")]),
P("U03", "Great circle distances and written cells are right everywhere",
  "The distance function gives the great circle distance for every pair of points, identical, near and antipodal ones included. The cell writer stores every centre as hexadecimal bits that read back as the same value (rounded to single precision if asked) and reports write failures.",
  ["inputs", "fault_sequences"], "all pairs of points, all lists of cells, unwritable files",
  "the functions have no tests",
  ["proximity/proximity.go"], [("OldHaversine", "proximity/proximity.go"), ("WriteHexCellsToFile", "proximity/proximity.go")]),
P("U04", "Location helpers pass coordinates, cells and bytes on unchanged",
  "The helpers that run or call H3 hand over latitude, longitude (to 30 decimals) and resolution exactly, return what H3 answers, and report its failures. The unit, text and byte conversions return the same value in the other representation and refuse text that is no number.",
  ["inputs", "fault_sequences"], "all locations, answers and failures of the H3 program, all byte strings and numbers",
  "tests make two calls, one of which needs an H3 program that is not there",
  [UT], [("ExecuteLatLngToIJK", UT), ("LatLngToIJ", UT), ("StrToIntSlice", UT), ("HexToFloat/RadiansToDegrees/ScaledIntToFloat64", UT)]),
P("U05", "The tables of face constants describe one icosahedron",
  "Centres, longitudes, latitudes and azimuths of the twenty faces agree with each other and describe the faces of one regular icosahedron, and every single precision table is the double precision table rounded.",
  ["inputs"], "all twenty faces and all tables",
  "tests use the tables only through a few recorded locations, which do not reach every face",
  [UT], [("FaceCenterPoint, FaceCenterGeoLng, CosFaceLat, SinFaceLat, Azimuth", UT)]),
P("U06", "The coefficient generator fits best polynomials and reports true errors",
  "For every function, interval and degree the Remez script returns the polynomial of that degree with the least maximum error on the interval, up to rounding of the coefficients, and the maximum error it reports is the one that polynomial has. Run as it is, it fits the arctangent on [0, 1] with degree 24.",
  ["inputs"], "all smooth functions, intervals and degrees",
  "the script has no tests; whether a polynomial is the best one shows on the whole error curve only",
  ["scripts/generate_remez_coefficients.py"], [("remez", "scripts/generate_remez_coefficients.py")]),
P("U07", "The table of test outcomes shows the outcome of every location test",
  "For every set of complete test logs, each cell of the LaTeX table is red if the test of that row, resolution and position failed in the row's log and green if it passed.",
  ["inputs"], "all combinations of passed and failed tests in the four logs",
  "the script has no tests",
  ["scripts/generate_latex_table_tests.py"], [("read_test_results, generate_latex_table", "scripts/generate_latex_table_tests.py")]),
P("U08", "Generated reference values are true values of the functions",
  "Each row the generators write for arctangent, sine and the two polynomials holds, in the precision of its file, an input and the value of the function at exactly that input (within one unit for arctangent and sine, within the rounding of the terms for the polynomials). Rows for arctangent and sine add the floats next below and next above the result. Each file has a thousand rows, with inputs of both signs, small and large for arctangent and sine, all over [-100, 100] for the polynomials.",
  ["inputs"], "all random draws, all floats",
  "the generators have no tests; tests of the library take their recorded output for granted",
  ["data/generate_test_math.py", "data/generate_test_polynomial.py"], [("generate_test_values, find_surrounding_floats", "data/generate_test_math.py"), ("generate_test_values", "data/generate_test_polynomial.py")]),
P("U09", "Generated reference locations carry the cells that H3 gives for them",
  "For every resolution from 0 to 15 the generator writes nine rows, at the fractions log(i)/log(20), i = 2..10, of the way from the centre of the example location's cell to the first vertex of its boundary, wherever H3 puts them: radians as hexadecimal bits of the file's precision, the resolution and the I, J, K that H3 answers for that point. It writes no file if an H3 program fails or its answer names no cell or centre.",
  ["inputs", "fault_sequences"], "all cells, vertices and answers of the H3 programs, failures of every call",
  "the generator has no tests; tests of the circuits take its recorded output for granted",
  ["data/generate_test_loc2index.py"], [("generate_points, cell_to_boundary, write_to_file", "data/generate_test_loc2index.py")]),
]

MON = "runtime monitoring: instrumented execution engine as online checker of the circuit, reference oracle, real gnark solver replay"
ADV = "runtime monitoring with fault injection: malicious hint values injected into monitored executions, forgeries confirmed on the real gnark solver"
NC = "Held on the executions counted in the evidence: every observed result compared with hardware IEEE-754 arithmetic (or exact big-number arithmetic for small formats); batches are also compiled and solved by gnark itself, with perturbed results required to be rejected. Assumes the generators reach the interesting operands; no claim about operands not run."
NS = "Held on the tampered executions counted in the evidence: every hint output replaced by a list of chosen wrong values, singly and in compensated pairs, later hints recomputed; accepted forgeries are replayed on the real gnark solver before being reported. Trusts gnark's lookup argument; forgeries needing three or more unrelated wrong hints are out of reach."

CHECKS = [(i, MON, NC) for i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09")] + \
         [(i, ADV, NS) for i in ("S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08")]

NL = "Held on the locations counted in the evidence, judged by an independent gnomonic projection that is itself compared with the H3 C library in the run. Tolerances are about twice the largest deviation ever observed in long runs; an error below them at a cell boundary is not seen."
NM = "Held on the operands counted in the evidence, compared with Go's math package; bounds are about one and a half times the largest error seen in long runs."
CHECKS += [(i, MON, NL) for i in ("L01", "L02", "L03")] + [("L04", ADV, NS), ("L05", MON, "Held on the claims counted in the evidence, each compiled and solved by gnark itself. The missing lower bounds on the coordinates are listed as known findings."),
    ("M01", MON, NC), ("M02", MON, NM), ("M03", MON, NM), ("M04", ADV, NS)]

RACE = "runtime monitoring: race detector, differential replay of concurrent against serial executions, hint call recording"
CHECKS += [
    ("H01", "runtime monitoring: hostile witnesses solved by gnark in child processes, crash and hang monitor", "Held on the witnesses counted in the evidence. Circuits are solved by gnark's own solver in child processes; a panic, exit or time-out of a child is traced back to the witness and replayed alone."),
    ("R01", RACE, "Held on the schedules counted in the evidence; the race detector sees races of executed code only."),
    ("R02", RACE, "Held on the schedules and processes counted in the evidence."),
    ("B01", "runtime monitoring: differential execution over seven fields against a reference oracle", NC),
    ("B02", "runtime monitoring: real provers and verifiers observed on true, altered and false claims", "Held on the claims counted in the evidence, with gnark's own test setup."),
    ("B03", "runtime monitoring: conservation check of cost counters against emitted constraints", "Held on the circuits counted in the evidence."),
    ("B04", "runtime monitoring: differential cost measurement over all table widths", "Held on the circuits counted in the evidence."),
    ("U01", "runtime monitoring with fault injection: recording proof system wrappers, result file checker", "Held on the runs counted in the evidence; timings are not judged."),
    ("U02", "runtime monitoring with fault injection: the program run against recording stand-ins of the H3 programs", "Held on the runs counted in the evidence."),
    ("U03", "runtime monitoring: functions served by the instrumented program, compared with a reference", "Held on the calls counted in the evidence."),
    ("U04", "runtime monitoring with fault injection: recording stand-in of the H3 program, H3 library as reference", "Held on the calls counted in the evidence."),
    ("U05", "runtime monitoring: consistency check of the tables as loaded in the running program", "All entries of all tables are compared in every run."),
    ("U06", "runtime monitoring: the script's fits judged by their sampled error curves (Chebyshev alternation)", "Held on the fits counted in the evidence. The degree 24 fit is finer than its rounded coefficients, so only its reported error is judged."),
    ("U07", "runtime monitoring: the script run on generated and recorded logs, cell by cell comparison", "Held on the logs counted in the evidence."),
    ("U08", "runtime monitoring: the generators run as they are, every row compared with high precision arithmetic", "Held on the rows counted in the evidence."),
    ("U09", "runtime monitoring with fault injection: the generator run against recording stand-ins of the H3 programs", "Held on the runs counted in the evidence."),
]

NOT_APPLICABLE = []
SETUP = "bash build.sh zk loc sys race"
NOTES = "See DESIGN.md. known-findings.txt lists repaired and recorded defects."
