#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the list of properties; edit here).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

U = "include/MTToolBox/util.hpp"
p("C01", "Bit-manipulation helpers equal their mathematical definitions",
  "For every 16/32/64-bit word (and 128-bit SIMD word where provided) the utilities return exactly: the number of one bits; the word with its bit order reversed; the index, counted from the most significant bit, of the lowest set bit (-1 for zero); the requested bit, or the word with only that bit replaced; and the word/bit-vector conversions are mutually inverse with element 0 the most significant bit. "
  "The range reducer maps any input v and start<=end to start + v mod (end-start+1), hence always inside [start,end]; the power-of-two floor returns the largest power of two <= n for n>=1; and the table filler, on a zeroed table, sets entry i to the XOR of the source words selected by the bits of i.",
  ["inputs"], "every word value, every position in range, every table size",
  "Unit tests sample at most a few words; the helpers decide pivots, parities and parameter ranges of every algorithm for all 2^64 words.",
  [U, "samples/sfmtdc/w128.hpp", "samples/dSFMTdc/w128.hpp"],
  [("count_bit/reverse_bit/calc_1pos/getBitOfPos/setBitOfPos", U), ("toGF2Vec/fromGF2Vec", U), ("get_range/floor2p/fill_table", U)],
  observe=["return values of the helper functions"])
M32 = "include/MTToolBox/MersenneTwister.hpp"
p("C02", "MersenneTwister is MT19937 for every seed and every position",
  "For every 32-bit seed, every key array or string of length >= 1, and every n, the n-th 32-bit output of the 32-bit Mersenne Twister equals the n-th output of the reference MT19937 algorithm (initialisation, array initialisation, recurrence and tempering), and a 64-bit draw is two consecutive 32-bit draws, high half first. Reseeding makes the stream depend only on the new seed.",
  ["inputs", "histories"], "all seeds, all key arrays, all stream positions, any interleaving of 32/64-bit draws and reseeds",
  "The tests compare a fixed prefix for one seed and one array; the 1024-word ring buffer differs from the reference layout and wraps only later.",
  [M32], [("seed", M32), ("seed_array", M32), ("next", M32), ("temper", M32)],
  state=[("mt", "1024-word ring holding the last 624 recurrence words before the cursor", M32), ("mti", "cursor, always in [0,1024)", M32)])
M64 = "include/MTToolBox/MersenneTwister64.hpp"
p("C03", "MersenneTwister64 is MT19937-64 for every seed and every position",
  "For every 64-bit seed, every key array or string of length >= 1, and every n, the n-th 64-bit output of the 64-bit Mersenne Twister equals the n-th output of the reference MT19937-64 algorithm, and a 32-bit draw is the upper half of the next 64-bit output. Reseeding makes the stream depend only on the new seed.",
  ["inputs", "histories"], "all seeds, all key arrays, all stream positions",
  "The repository has no test of the 64-bit generator beyond incidental use.",
  [M64], [("seed", M64), ("seed_array", M64), ("next", M64), ("temper", M64)],
  state=[("mt", "312 recurrence words", M64), ("mti", "cursor in [0,312)", M64)])
SQ = "include/MTToolBox/Sequential.hpp"
p("C04", "Sequential enumerates every value once, then refuses",
  "A sequential parameter source started at s with mask m delivers s^m, (s-1)^m, ..., 0^m in this order, each exactly once, and every later request throws underflow_error; copying it, or asking for 32- or 64-bit values, delivers the same sequence. Reseeding with t restarts the countdown at t.",
  ["inputs", "histories"], "all starting values, masks and call histories",
  "Exhaustive parameter searches rely on no value being skipped or repeated; tests use a few values near the end.",
  [SQ], [("next", SQ), ("reseed", SQ), ("Sequential(Sequential&)", SQ)],
  state=[("status/error", "next countdown value / exhausted flag", SQ)])
GENS = ["samples/XORSHIFT/xorshift-2.cpp", "samples/XORSHIFT/xorshift-3.cpp", "samples/XORSHIFT/xorshift-4.cpp", "samples/XORSHIFT/xorshift-5.cpp",
        "samples/TinyMTDC/tinymt32search.hpp", "samples/MTGPDC/MTGP32search.hpp", "samples/MTDC/mt1.cpp", "samples/MTDC/mt2.cpp",
        "samples/RMT/rmt64.hpp", "samples/sfmtdc/sfmtsearch.hpp", "samples/dSFMTdc/dSFMTsearch.hpp"]
p("C05", "Every bundled generator is GF(2)-linear in its state",
  "For every bundled generator that supports addition (xorshift, TinyMT, MTGP, MT, RMT, SFMT, dSFMT), any parameters and any two states of it, adding one state into the other and then stepping gives the state sum of the two stepped states and the XOR of the two outputs, at every later step. The zero state set by the zeroing operation is the neutral element: it outputs zero and stays zero.",
  ["inputs", "histories"], "all states, all parameter values allowed by the class, every cursor position, every number of later steps",
  "The linearity tests draw two seeds and compare 100 outputs for one parameter set.",
  GENS, [("generate/next_state", "each generator class"), ("add", "each generator class"), ("setZero", "each generator class")])
p("C06", "Truncated output is the top bits of the (optionally reversed) output",
  "For every bundled generator with truncated output, asking for w bits (1<=w<=word size) advances the state exactly like a full-width draw and returns that draw, bit-reversed first when reverse output is on, with everything but its w most significant bits cleared. A copy or clone of a generator has the same parameters, output mode and state, so it produces the same stream.",
  ["inputs", "configurations"], "all states, parameters, w in range, both output modes",
  "Equidistribution of every width is computed through this call; tests only look at aggregated results for one parameter set.",
  GENS, [("generate(int)", "each generator class"), ("copy constructor/clone", "each generator class"), ("setReverseOutput/resetReverseOutput", "each generator class")])
p("C07", "Zero test, zeroing, seeding and unit states of bundled generators",
  "For every bundled generator the zero test is true exactly when every effective state bit at its current cursor position is zero (so exactly when all its future outputs' state is zero), and it is true after zeroing. Where unit states are supported, setting unit bit i (0<=i<state bit size) yields a state with exactly one state bit set, at a position different for different i.",
  ["inputs"], "all states, cursor positions and bit indices",
  "Only one cursor position and few states occur in tests; the zero test ends the lattice and parity algorithms.",
  GENS, [("isZero", "each generator class"), ("setOneBit", "rmt64, sfmt, dSFMT"), ("seed", "each generator class")])
PER = "include/MTToolBox/period.hpp"; PERC = "lib/period.cpp"; PRIM = "lib/AlgorithmPrimitivity.cpp"
p("C08", "Minimal polynomial is computed from 2n consecutive chosen output bits",
  "The minimal polynomial routine draws exactly 2n outputs (n = the given state size, or the generator's bit size), hands the sequence of the selected bit of each, in order, to the minimal-polynomial solver with bound n, and so returns the minimal polynomial of that bit sequence. The polynomial LCM routine returns a polynomial that both arguments divide, of degree deg x + deg y - deg gcd(x,y).",
  ["inputs", "programs"], "all generators (through their interface), bit positions, sizes and polynomials",
  "Tests check a handful of fixed generators only.",
  [PER, U], [("minpoly", PER), ("LCM", U)])
p("C09", "Primitivity decisions are exact",
  "The degree test is true exactly for the Mersenne exponents of the documented table, in which no known Mersenne exponent below its maximum is missing; the irreducibility test is true exactly for irreducible polynomials; and the primitivity tests accept p of degree n exactly when p is irreducible and (Mersenne case) n is a Mersenne exponent, or (factor-list case) the degree matches and x^((2^n-1)/q) != 1 mod p for every listed q. The functional primitivity object agrees with them for its configured factor list.",
  ["inputs"], "all polynomials, degrees and factor lists",
  "Tests call them on about ten polynomials.",
  [PERC, PRIM], [("isMexp/isIrreducible/isPrime", PERC), ("AlgorithmPrimitivity::operator()", PRIM)])
p("C10", "Factor search finds exactly the irreducible factor of the wanted degree",
  "For a non-zero polynomial f over GF(2) and degree d with deg f < 2d, the factor-of-degree test returns true exactly when f has an irreducible factor of degree d and on success leaves f equal to that factor. When it returns false, no such factor existed.",
  ["inputs"], "all polynomials f and degrees d with deg f < 2d (in particular with repeated and with zero small factors)",
  "The unit test uses one product polynomial.",
  [PERC], [("hasFactorOfDegree", PERC)])
p("C11", "Prime-factor tables are complete and prime",
  "Every published factor table for 2^n-1 lists exactly the distinct prime divisors of 2^n-1 for its n, in a form the table readers convert to the exact integers. Hence a polynomial accepted with the matching table has period exactly 2^n-1.",
  ["inputs"], "every entry of the 17 tables",
  "The table test only checks the products divide; primality of entries is tested probabilistically at most.",
  [PRIM], [("prime_factors2_*_1", PRIM), ("AlgorithmPrimitivity(const char*[])", PRIM)])
RS = "include/MTToolBox/AlgorithmRecursionSearch.hpp"; RRS = "include/MTToolBox/AlgorithmReducibleRecursionSearch.hpp"
p("C12", "Recursion search accepts exactly the first maximal-period parameter",
  "The recursion search draws parameters one at a time, at most the given number of tries, and returns true exactly at the first parameter whose minimal polynomial (from the all-one-word seed) has degree equal to the state size and is accepted by the configured primitivity test; the reported polynomial is then that polynomial and the generator holds that parameter. It returns false only after exactly the given number of rejected parameters, and its counter equals the total number of parameters drawn over all calls.",
  ["inputs", "programs", "histories"], "all generators and parameter sources, all try counts, repeated calls",
  "Tests run one generator with one source.",
  [RS], [("AlgorithmRecursionSearch::start", RS)])
p("C13", "Reducible search and characteristic polynomial are exact",
  "The reducible search returns true exactly at the first drawn parameter whose minimal polynomial has an irreducible factor of degree equal to the Mersenne exponent, reporting that factor and the unfactored polynomial, and false only after exactly the allowed number of tries. The characteristic-polynomial routine multiplies (by LCM) the minimal polynomials of output bits 0,1,... into its argument until the degree equals the state size or all bits are used, and applying a polynomial to a generator leaves it in state sum of c_i * (i-fold step) and advances nothing else.",
  ["inputs", "programs", "histories"], "all generators, polynomials, try counts",
  "Tests exercise one search and never the intermediate routines for other polynomials.",
  [RRS, "include/MTToolBox/ReducibleGenerator.hpp"], [("AlgorithmReducibleRecursionSearch::start", RRS), ("calcCharacteristicPolynomial", RRS), ("annihilate", "include/MTToolBox/ReducibleGenerator.hpp")])
EQ = "include/MTToolBox/AlgorithmEquidistribution.hpp"
p("C14", "Dimension of equidistribution is computed exactly for every bit width",
  "For every GF(2)-linear generator in a state whose orbit generates the state space, every bit width w up to the word size, and every v<=w, the reported k(v) is the exact dimension of equidistribution of the v most significant output bits: the largest k such that every k-tuple of v-bit outputs is attained from some state. Every v in 1..w is reported.",
  ["inputs", "programs"], "all linear generators (through their interface), all state sizes, all widths",
  "Tests check the final numbers for two generators; a wrong pivot choice, swap, counter or truncation shows only for some lattices.",
  [EQ], [("get_all_equidist/get_equidist/get_equidist_main/adjust", EQ), ("linear_generator_vector::add/next_state", EQ)],
  state=[("basis[i]", "lattice vector with norm -count, leading coefficient next, tail the outputs of rand", EQ)])
p("C15", "Equidistribution defects and their sum follow from k(v)",
  "The sum returned for all widths equals the sum over v=1..w of floor(state size / v) - k(v), the single-width call returns k(w) and the sum over the smaller widths, and k(v) never exceeds floor(state size / v): a larger value raises an error instead of being reported. The reducible variant uses the Mersenne exponent as state size after projecting the state to the irreducible factor's subspace.",
  ["inputs", "programs"], "all k(v) values, widths and state sizes",
  "Tests see single sums.",
  [EQ, "include/MTToolBox/AlgorithmReducibleEquidistribution.hpp"], [("get_all_equidist/get_equidist", EQ), ("AlgorithmReducibleEquidistribution", "include/MTToolBox/AlgorithmReducibleEquidistribution.hpp")])
SE = "samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp"; DE = "samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp"
p("C16", "SIMD equidistribution combines element sizes and start positions correctly",
  "For SFMT and dSFMT, the reported dimension of equidistribution in v bits is the minimum, over all start positions within the SIMD word, of the largest value over the output widths (weight modes), each counted in elements: the exact dimension in SIMD steps of the packed leading bits times elements per word, minus the elements missing from the first word. It never exceeds floor(Mersenne exponent / v) - a larger value raises an error - and the returned sum is that of floor(Mersenne exponent / v) minus the reported values.",
  ["inputs", "configurations"], "all parameter sets, start modes, weight modes, element sizes 32/64(52)/128 and widths",
  "There is no test of SIMD equidistribution.",
  [SE, DE], [("calc_SIMD_equidistribution", SE), ("AlgorithmSIMDEquidistribution", SE), ("calc_dSFMT_equidistribution", DE)])
PB = "include/MTToolBox/AlgorithmPartialBitPattern.hpp"; BB = "include/MTToolBox/AlgorithmBestBits.hpp"
p("C17", "Partial bit pattern tempering keeps the best pattern of every window",
  "For each window of bit positions and each parameter slot, the partial-bit-pattern search tries every bit pattern of the window and leaves the generator with the pattern of smallest total defect, preferring more one bits among ties and touching only the window's bits (counted from the MSB, or from the LSB in LSB mode). It evaluates LSB searches with output reversed, MSB searches without, visits the windows from the most significant end outward up to the configured number of bits, and always leaves reverse output off.",
  ["inputs", "programs"], "all tempering generators (through their interface), window sizes, both modes and all defect landscapes",
  "Tests observe one final tempering parameter.",
  [PB], [("operator()", PB), ("search_best_temper", PB), ("make_mask", PB)])
p("C18", "Best-bits tempering keeps exactly the minimal-defect candidates",
  "At every bit level the best-bits search evaluates each in-range bit choice for each surviving parameter set with the defect of the (level+1) leading bits, keeps exactly those of minimal defect among all, and finally installs a parameter set that survived every level, with reverse output off. A candidate differs from its parent only in the bits of each parameter that this level and the shift amounts select, which follow the enumerated pattern.",
  ["inputs", "programs"], "all tempering generators (through their interface), shift amounts, limits and defect landscapes",
  "The test runs one generator.",
  [BB], [("operator()", BB), ("search_best_temper", BB), ("make_pattern", BB), ("inRange", BB)])
CP = "include/MTToolBox/AlgorithmCalculateParity.hpp"
p("C19", "Parity vector is non-zero and orthogonal to every collected basis word",
  "The parity search returns a non-zero word orthogonal (even number of common one bits) to every word it collected from states annihilated by the irreducible factor, stores exactly that word in the generator, and keeps the collected words linearly independent with distinct lowest set bits. It tries unit states in order until (state size - Mersenne exponent) independent words are collected or all are used; if no non-zero orthogonal word exists it throws instead of returning.",
  ["inputs", "programs"], "all reducible linear generators (through their interface) and polynomials",
  "No test covers the parity calculation for more than one generator.",
  [CP], [("searchParity/calc_basis/addBase/set_state", CP), ("search_parity_check_vector", CP)])
p("C20", "Period certification guarantees odd parity with at most one flipped bit",
  "After period certification of an SFMT or dSFMT state, the inner product over GF(2) of the parity vector with the checked state word is odd, whenever the parity vector is non-zero; a state that already satisfied this is unchanged, and any other differs in exactly one bit.",
  ["inputs"], "all states and all non-zero parity vectors",
  "A state already certified is the common case; the correcting branch runs for half of the states and depends on the lowest set bit of the parity vector.",
  ["samples/sfmtdc/calc_parity.cpp", "samples/sfmtdc/sfmtsearch.hpp", "samples/dSFMTdc/dSFMTsearch.hpp"], [("periodCertification", "samples/sfmtdc/sfmtsearch.hpp, samples/dSFMTdc/dSFMTsearch.hpp")])
TL = "include/MTToolBox/TestLinearity.hpp"
p("C21", "The linearity checker never rejects a linear generator and detects deviation",
  "The linearity checker returns true exactly when, for the two fixed seeds, 100 outputs of g1+g1 are all zero and the first 100 outputs of g1+g2 equal the XOR of the two streams; so it returns true for every GF(2)-linear generator and false whenever one of those comparisons fails. It leaves the generator passed to it unchanged.",
  ["inputs", "programs"], "all generators (through their interface)",
  "Only linear sample generators are ever passed in tests.",
  [TL], [("operator()/test1/test2", TL)])
RT = "include/MTToolBox/AlgorithmRecursionAndTempering.hpp"; RRT = "include/MTToolBox/AlgorithmReducibleRT.hpp"
p("C22", "Combined searches report values of the generator they leave behind",
  "When a combined recursion-and-tempering search returns true, the reported polynomial is the one accepted by the recursion search, the reported weight is its number of terms, the reported defect is the total defect of the generator with its final tempering, LSB tempering is applied exactly once before MSB tempering unless disabled (the default is not to disable it), and the verbose flag changes none of these. In the reducible variant the reported parity is the one installed in the generator and the polynomial is the irreducible factor.",
  ["inputs", "programs", "configurations"], "all generators, tempering algorithms, and both verbose settings",
  "Tests run it once per generator, verbose.",
  [RT, RRT], [("search", RT), ("search", RRT)])
p("C23", "Parameter setup stays in the documented ranges and keeps the id",
  "For every value the parameter source can deliver, the parameters set up by each bundled generator stay within its documented ranges (shift amounts usable for the word size, pick-up positions inside the state, no degenerate zero where excluded), so that later stepping is well defined. TinyMT parameters carry the 32-bit id in the documented bits, and the mapping from source value to parameters is the documented one. Constructing a generator for a Mersenne exponent gives it the number of state words, the partial-word mask, the id and the default modes that exponent and the arguments call for.",
  ["inputs"], "all source values, Mersenne exponents and fixed-parameter options",
  "Random search samples a vanishing part of the source values.",
  GENS, [("setUpParam", "each generator class")])
p("C24", "Fixed point of dSFMT is really a fixed point",
  "setConst leaves the constant term c of the recursion run with the floating-point prefix (that recursion is the linear step plus c). The fixed-point calculation for dSFMT returns the lung of a state y, inside the component of the irreducible factor, that satisfies step(y) + c' = y, where c' is the part of c in that component; it reports failure exactly when the factor is not coprime to the cofactor or to x+1.",
  ["inputs"], "all parameter sets",
  "There is no test.",
  ["samples/dSFMTdc/calc_fixpoint.cpp"], [("calc_fixpoint", "samples/dSFMTdc/calc_fixpoint.cpp")])
XC = "samples/XORSHIFT/xorshift128.c"
p("C25", "xorshift128 C generator: documented recurrence and never-zero initialisation",
  "The C xorshift128 generator steps by the recurrence with shifts (11 left, 7 right, 20 left) of the searched parameters, its integer initialisation is a deterministic function of the seed only, and after initialisation by any array the state is a deterministic function of the array contents and length and is never all zero.",
  ["inputs"], "all states, seeds, arrays and lengths",
  "There is no test.",
  [XC], [("xorshift128_generate", XC), ("xorshift128_init", XC), ("xorshift128_init_by_array", XC)])
p("C26", "No undefined machine behaviour in the library routines under contract",
  "Within their documented preconditions the library routines never index outside an array, shift by a negative or too large amount, overflow signed arithmetic, divide by zero, dereference a null or freed object, or read an uninitialised value.",
  ["inputs", "histories"], "all inputs allowed by the preconditions, all loop iterations",
  "Undefined behaviour usually produces the expected number on the tested compiler.",
  [U, M32, M64, SQ, EQ, PB, BB, CP, PERC], [("all functions under contract", "see the other properties")])
p("C27", "Parameter text, headers and binary output formats",
  "The header string lists the parameters in the order in which the parameter string prints them, and the printed values are the generator's parameters.",
  ["inputs"], "all parameter values",
  "Only looked at by eye.",
  GENS, [("getHeaderString/getParamString", "each generator class")])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
