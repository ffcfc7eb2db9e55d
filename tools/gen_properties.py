#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
S = "src/komm/"


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": S + w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


LC = "_lossless_coding/"
prop("C01", "Sliding-window (LZ77 / LZSS) coding is lossless and tokens mean what they say",
     "For every search and lookahead size, source and target alphabet size, initial search buffer and message, LZ77 and LZSS decoding recovers exactly the encoded message. "
     "Every token the encoder emits is in range and describes a longest match available in the search window (overlap with the lookahead allowed; for LZSS a reference is used exactly when the longest match reaches the break-even length), written in fixed-width fields of the documented minimal widths. "
     "Decoding any in-range token sequence copies symbols one at a time from the already reconstructed history, and the token and symbol representations convert into each other without loss.",
     ["inputs", "configurations"], "all alphabets, window sizes, initial buffers and messages of any length (including empty, runs longer than the window, and matches overlapping the lookahead)",
     "The tests encode a handful of literal messages with fixed window sizes; no finite sample covers the interplay of window edge, overlap, end of message, alphabet size and initial buffer.",
     [LC + "LempelZiv77Code.py", LC + "LempelZivSSCode.py", LC + "util.py"],
     [("source_to_tokens / tokens_to_source", LC + "LempelZiv77Code.py"), ("break_even, source_to_tokens / tokens_to_source", LC + "LempelZivSSCode.py"), ("integer_to_symbols / symbols_to_integer", LC + "util.py")],
     ["LempelZiv77Code", "LempelZivSSCode: encode, decode, source_to_tokens, tokens_to_source, tokens_to_target, target_to_tokens"],
     [("buffer", "search window followed by the reconstructed message", LC + "LempelZiv77Code.py")])
prop("C02", "Growing-dictionary (LZ78 / LZW) coding is lossless and both ends stay in step",
     "For every source and target alphabet size and every message, LZ78 and LZW decoding recovers exactly the encoded message, with the decoder rebuilding the encoder's dictionary from the symbols alone. "
     "At every step the encoder parses the longest dictionary phrase that prefixes the remaining message and adds exactly one new phrase, and each pointer is written with the minimal number of target symbols for the current dictionary size.",
     ["inputs", "configurations", "histories"], "all alphabet sizes and messages of any length, hence every sequence of dictionary states (including a phrase used immediately after it is created, a message ending inside a phrase, and every pointer-width change)",
     "The tests use a few short messages, whose dictionaries never pass most width changes and rarely reach the phrase-just-created case for non-binary alphabets.",
     [LC + "LempelZiv78Code.py", LC + "LempelZivWelchCode.py", LC + "util.py"],
     [("source_to_tokens / tokens_to_source / tokens_to_target / target_to_tokens", LC + "LempelZiv78Code.py"), ("encode / decode", LC + "LempelZivWelchCode.py")],
     ["LempelZiv78Code, LempelZivWelchCode: encode, decode and token methods"],
     [("dictionary", "phrase <-> index map grown in lockstep by encoder and decoder", LC + "LempelZivWelchCode.py")])
prop("C03", "Fixed-to-variable codes: exact concatenation coding and exact classification",
     "Encoding with a fixed-to-variable code concatenates the codewords of the successive source blocks, and for a prefix-free code decoding inverts encoding for every message and rejects every sequence that is not a concatenation of codewords. "
     "A code is reported uniquely decodable exactly when no two different messages have the same encoding, and prefix-free exactly when no codeword is a prefix of another. "
     "The Kraft sum, rate, canonical codeword assignment and the mappings, codewords and sizes a code reports agree with its definition however it was constructed.",
     ["inputs", "configurations", "programs"], "all codeword sets over all target alphabets, block sizes, and messages",
     "Unique decodability is a statement about all pairs of messages; the tests classify a few dozen known codes and decode a few messages.",
     [LC + "FixedToVariableCode.py", LC + "util.py"],
     [("is_uniquely_parsable (Sardinas-Patterson)", LC + "util.py"), ("is_prefix_free", LC + "util.py"), ("parse_prefix_free / parse_fixed_length", LC + "util.py"), ("canonical_code", LC + "util.py")],
     ["FixedToVariableCode constructors, encode, decode, is_uniquely_decodable, is_prefix_free, kraft_parameter, rate"])
prop("C04", "Variable-to-fixed codes: parsing, classification and Tunstall optimality",
     "Encoding with a prefix-free, fully covering variable-to-fixed code never fails: it parses every message into dictionary words, completing an unfinished last word, and decoding returns the message followed only by that completion. "
     "The full-covering, prefix-free and unique-encodability classifications agree with their definitions over all source sequences, and each code rate equals target block length over mean word length. "
     "A Tunstall code is prefix-free, fully covering, uses as many words as fit the target block, and has the largest possible mean word length.",
     ["inputs", "configurations"], "all dictionaries, source alphabets, probability vectors, target block sizes and messages",
     "The tests check a few textbook dictionaries and messages; classification quantifies over all source sequences.",
     [LC + "VariableToFixedCode.py", LC + "TunstallCode.py", LC + "util.py"],
     [("is_fully_covering", LC + "util.py"), ("parse_prefix_free with allow_incomplete", LC + "util.py"), ("tunstall_algorithm", LC + "TunstallCode.py")],
     ["VariableToFixedCode and TunstallCode: encode, decode, predicates, rate"])
prop("C05", "Huffman, Shannon and Fano codes meet their defining optimality or length rules",
     "For every probability vector and block size, the Huffman code is prefix-free and no uniquely decodable binary code of the same source blocks has a smaller expected length, for both tie-breaking policies. "
     "The Shannon code is prefix-free with codeword lengths equal to the rounded-up self-information, and the Fano code is prefix-free and every internal division splits the sorted probabilities as evenly as possible. "
     "All of them assign one distinct codeword per source block and their messages round-trip.",
     ["inputs", "configurations"], "all probability vectors (including zeros and ties), alphabet sizes and extension block sizes",
     "Optimality is a universal statement over competing codes; the tests compare a few literal codeword lists.",
     [LC + "HuffmanCode.py", LC + "ShannonCode.py", LC + "FanoCode.py", LC + "util.py"],
     [("huffman_algorithm", LC + "HuffmanCode.py"), ("shannon_algorithm", LC + "ShannonCode.py"), ("fano_algorithm", LC + "FanoCode.py")],
     ["HuffmanCode, ShannonCode, FanoCode: codewords, rate, encode, decode"])
IC = "_integer_coding/"
prop("C06", "Integer codes (unary, Fibonacci) are lossless self-delimiting codes",
     "Encoding any sequence of admissible integers with the unary or Fibonacci code and decoding the resulting bits returns the same sequence, and each integer's bits are the documented representation of that integer alone, so the encoding of a sequence is the concatenation of the encodings of its members.",
     ["inputs"], "all finite sequences of admissible integers of any size, including empty sequences and very large integers",
     "The tests use short lists of small integers.",
     [IC + "UnaryCode.py", IC + "FibonacciCode.py", IC + "base.py"],
     [("encode / decode", IC + "FibonacciCode.py"), ("encode / decode", IC + "UnaryCode.py")],
     ["UnaryCode, FibonacciCode: encode, decode"])
CC = "_error_control_convolutional/"
FS = "_finite_state_machine/"
prop("C07", "Convolutional encoding is multiplication by the generator matrix in any chunking",
     "For every (n, k) convolutional code, however specified (feedforward or feedback polynomials, low- or high-rate systematic forms), the encoder output stream equals the input stream times the transfer-function matrix over GF(2)((D)). "
     "The reported state-space matrices, finite-state machine, constraint lengths and memory order realise that same input-output map. "
     "Encoding a message in consecutive chunks, carrying the returned final state, gives the same output and final state as encoding it at once.",
     ["inputs", "configurations", "histories"], "all generator matrices, input streams, initial states and ways of cutting the stream into calls",
     "The tests encode short literal sequences with well-known encoders, mostly from the zero state and in one call.",
     [CC + "base.py", CC + "ConvolutionalCode.py", CC + "LowRateConvolutionalCode.py", CC + "HighRateConvolutionalCode.py"],
     [("encode / encode_with_state", CC + "base.py"), ("state_space_representation, finite_state_machine", CC + "ConvolutionalCode.py")],
     ["ConvolutionalCode, LowRateConvolutionalCode, HighRateConvolutionalCode: encode, encode_with_state, state_space_representation, finite_state_machine"],
     [("state", "shift-register contents carried between calls", CC + "base.py")])
prop("C08", "Finite-state machines process exactly as their transition and output tables say",
     "For every Mealy or Moore machine, processing an input sequence from an initial state yields exactly the outputs and final state obtained by following its next-state and output tables symbol by symbol, and splitting the input into consecutive calls changes nothing. "
     "The state, input and output counts, the input edges and the output edges a machine reports are those of its tables.",
     ["inputs", "configurations", "histories"], "all machines, initial states, input sequences and splits of the sequence into calls",
     "The tests step two or three textbook machines through single short inputs.",
     [FS + "MealyMachine.py", FS + "MooreMachine.py"],
     [("process", FS + "MealyMachine.py"), ("process", FS + "MooreMachine.py"), ("input_edges / output_edges", FS + "MealyMachine.py")],
     ["MealyMachine, MooreMachine: process, edges, counts"],
     [("state", "current machine state", FS + "MealyMachine.py")])
prop("C09", "Viterbi decoding returns a true minimum-metric path",
     "For every finite-state machine, observation sequence, additive metric and initial metrics, the Viterbi algorithm returns, for each final state, an input sequence that drives the machine along a path ending there whose total metric equals the reported final metric, and no path ending there has a smaller total metric. "
     "Consequently hard- and soft-decision Viterbi decoding of a terminated convolutional code returns a most likely message.",
     ["inputs", "configurations"], "all machines (including several inputs joining the same pair of states), observations, metrics with ties and infinities, initial metrics and lengths",
     "The tests decode a few received words; minimality is a statement over exponentially many paths.",
     [FS + "MealyMachine.py", "_error_control_decoders/ViterbiDecoder.py"],
     [("viterbi", FS + "MealyMachine.py"), ("decode", "_error_control_decoders/ViterbiDecoder.py")],
     ["MealyMachine.viterbi, ViterbiDecoder.decode"],
     [("metrics, survivors", "best metric and path per state", FS + "MealyMachine.py")])
prop("C10", "Streaming Viterbi decoding is chunk-invariant and follows the traceback rule",
     "For every convolutional code, traceback length, initial state, metric and received stream, the streaming Viterbi decoder's concatenated output depends only on the concatenated stream, not on how it is cut into calls, and every call returns exactly as many bits as its blocks carry. "
     "After the first traceback-length blocks, each decoded block is the input, traceback-length blocks earlier, on a minimum-metric path to the best current state, so with a noiseless stream the output is the encoder input delayed by the traceback length.",
     ["inputs", "histories", "configurations"], "all codes, traceback lengths, initial states, received streams and sequences of call sizes",
     "The tests run one or two streams in one or two calls, from state zero.",
     [CC + "ViterbiStreamDecoder.py", FS + "MealyMachine.py"],
     [("viterbi_streaming", FS + "MealyMachine.py"), ("decode", CC + "ViterbiStreamDecoder.py")],
     ["ViterbiStreamDecoder.decode"],
     [("memory", "survivor paths and metrics kept between calls", CC + "ViterbiStreamDecoder.py")])
prop("C11", "Forward-backward (BCJR) computes the exact posterior of every input symbol",
     "For every finite-state machine, observation sequence, non-negative edge likelihood, input priors and initial and final state distributions, the forward-backward algorithm returns, for each time, the exact conditional distribution of the input symbol obtained by summing over all paths. "
     "The soft output of BCJR decoding of a terminated convolutional code is the log-ratio of those posteriors, and its hard output picks the more likely bit.",
     ["inputs", "configurations"], "all machines, lengths, likelihoods, priors, initial and final distributions",
     "The tests check a couple of textbook numbers; exact marginalisation quantifies over all paths.",
     [FS + "MealyMachine.py", "_error_control_decoders/BCJRDecoder.py"],
     [("forward_backward", FS + "MealyMachine.py"), ("decode", "_error_control_decoders/BCJRDecoder.py")],
     ["MealyMachine.forward_backward, BCJRDecoder.decode"])
prop("C12", "Terminated convolutional codes are the block codes their termination defines",
     "For every convolutional code, block count and termination mode, the terminated code maps each message to the encoder output of the documented path: from the zero state and cut (truncation), driven back to the zero state by a tail (zero termination), or starting and ending in the same state (tail-biting, refused where no such path exists for every message). "
     "It is a linear block code whose length, dimension, generator and check matrices, right inverse, codewords and minimum distance all describe that same map.",
     ["inputs", "configurations"], "all convolutional codes (feedforward and feedback), block counts, termination modes and messages",
     "The tests compare matrices of a few named examples.",
     [CC + "TerminatedConvolutionalCode.py"],
     [("TerminationStrategy classes", CC + "TerminatedConvolutionalCode.py")],
     ["TerminatedConvolutionalCode: encode, generator_matrix, check_matrix, inverse_encode, minimum_distance"])
prop("C13", "Free distance and catastrophicity of convolutional codes are exact",
     "For every convolutional code, the reported free distance is the smallest weight of a nonzero code sequence produced from the zero state. "
     "An encoder is reported catastrophic exactly when some input sequence with infinitely many ones produces an output with finitely many ones.",
     ["inputs", "configurations"], "all generator matrices, and through them all infinite input sequences",
     "Both are statements over infinitely many sequences; the tests tabulate published codes, nearly all of them minimal and non-catastrophic.",
     [CC + "ConvolutionalCode.py", CC + "base.py"],
     [("free_distance, is_catastrophic", CC + "base.py")],
     ["ConvolutionalCode.free_distance, is_catastrophic"])
EB = "_error_control_block/"
prop("C14", "A block code's matrices, encoder, checker and inverse describe one linear code",
     "For every block code, however constructed, each encoded block is the message block times the generator matrix over GF(2), the check matrix times any word gives the reported syndrome, and the syndrome is zero exactly for codewords. "
     "Projecting or inverse-encoding an encoded message returns the message, inverse-encoding a non-codeword is refused, and all these operations act independently on each block of arrays of any shape whose last dimension is a multiple of the block size and refuse sizes that are not a multiple. "
     "Length, dimension, redundancy, rate and the systematic positions reported are those of the code.",
     ["inputs", "configurations"], "all full-rank generator matrices and check matrices, all parity submatrices and information sets; all messages, words and array shapes",
     "The tests check named codes on a few messages; equivalence of matrix, encoder and checker must hold for every message of every code.",
     [EB + "base.py", EB + "BlockCode.py", EB + "SystematicBlockCode.py", "_util/matrices.py", "_util/decorators.py"],
     [("encode / project_word / inverse_encode / check", EB + "base.py"), ("null_matrix, rref, pseudo_inverse", "_util/matrices.py"), ("blockwise", "_util/decorators.py")],
     ["BlockCode, SystematicBlockCode and subclasses: encode, check, project_word, inverse_encode, matrices"])
prop("C15", "Distance, weight and coset facts are exact and independent of query order",
     "For every block code, the codeword list is the list of encodings in message order; the codeword and coset-leader weight distributions, minimum distance, packing radius and covering radius are those of the code's actual codewords and cosets. "
     "Every coset leader has the syndrome of its position and minimum weight in its coset, and the Slepian array's entry is leader plus codeword. "
     "The answers do not depend on which queries were made before or how often.",
     ["inputs", "configurations", "histories"], "all block codes of dimension at least one (including redundancy zero or large) and all query sequences on a code object",
     "The tests query named codes once each; cached results and batch boundaries are exercised only at particular sizes and orders.",
     [EB + "base.py", EB + "SlepianArray.py", EB + "BlockCode.py"],
     [("codewords, codeword_weight_distribution, coset_leaders, coset_leader_weight_distribution", EB + "base.py"), ("entry / row / col", EB + "SlepianArray.py")],
     ["BlockCode queries, SlepianArray"],
     [("_cached_codewords / _cached_coset_leaders", "which results were already computed", EB + "base.py")])
prop("C16", "Named block-code families have the parameters and structure of their definitions",
     "For every admissible parameter, Hamming, simplex, Golay, repetition, single-parity-check, Cordaro-Wagner, Reed-Muller, BCH, polar and lexicographic codes (and their extended forms) have the length, dimension, minimum distance, duality and codeword set that define the family. "
     "Closed-form answers a family provides instead of the generic computation (weight distributions, coset-leader distributions, minimum distance, Reed partitions) equal what the generic computation on its codewords gives.",
     ["configurations", "inputs"], "all family parameters within the admissible range",
     "The tests tabulate small parameters; the closed forms and constructions are parametric.",
     [EB + f for f in ("HammingCode.py", "SimplexCode.py", "GolayCode.py", "RepetitionCode.py", "SingleParityCheckCode.py", "CordaroWagnerCode.py", "ReedMullerCode.py", "BCHCode.py", "PolarCode.py", "Lexicode.py")],
     [("family constructors and closed forms", EB + "ReedMullerCode.py"), ("BCH generator polynomial", EB + "BCHCode.py")],
     ["HammingCode, SimplexCode, GolayCode, RepetitionCode, SingleParityCheckCode, CordaroWagnerCode, ReedMullerCode, BCHCode, PolarCode, Lexicode"])
prop("C17", "Cyclic codes are ideals: shifts, polynomials and systematic mode agree",
     "For every generator or check polynomial dividing X^n + 1, the cyclic code's codewords are exactly the multiples of the generator polynomial of degree below n, closed under cyclic shifts, and generator times check polynomial is X^n + 1. "
     "Systematic and non-systematic encoding generate the same code, encode, check and inverse-encode agree with the generator and check matrices the code reports, and the systematic encoder leaves the message readable at the reported positions. "
     "Invalid definitions (a polynomial that does not divide X^n + 1, no polynomial, or both) are refused.",
     ["inputs", "configurations"], "all lengths, divisors of X^n + 1, messages and words",
     "The tests cover a few named polynomials and messages.",
     [EB + "CyclicCode.py"],
     [("encode / check / matrices", EB + "CyclicCode.py")],
     ["CyclicCode"])
ED = "_error_control_decoders/"
prop("C18", "Block decoders achieve what they promise for every received word",
     "Exhaustive-search hard and soft decoding returns a codeword message nearest to the received word, syndrome-table decoding is minimum-distance decoding, and the Wagner decoder is maximum-likelihood for single-parity-check codes, for every received word. "
     "Berlekamp and Reed decoding correct every error pattern of weight up to half the designed minimum distance, and successive-cancellation decoding of polar codes takes each bit's exact log-likelihood ratio given the previous decisions, in particular recovering every noiseless codeword. "
     "All decoders act blockwise and independently on every block of arrays of any shape, and different decoders of one code agree wherever both are guaranteed.",
     ["inputs", "configurations"], "all codes, received words (hard and soft), error patterns within the guarantee, array shapes",
     "The tests sample random errors on a few codes; the guarantee is over every error pattern and every real vector.",
     [ED + f for f in ("ExhaustiveSearchDecoder.py", "SyndromeTableDecoder.py", "WagnerDecoder.py", "BerlekampDecoder.py", "ReedDecoder.py", "SCDecoder.py", "base.py", "util.py")],
     [("decode", ED + "BerlekampDecoder.py"), ("decode", ED + "ReedDecoder.py"), ("decode", ED + "SCDecoder.py")],
     ["ExhaustiveSearchDecoder, SyndromeTableDecoder, WagnerDecoder, BerlekampDecoder, ReedDecoder, SCDecoder"])
AL = "_algebra/"
prop("C19", "Binary polynomials form the Euclidean ring GF(2)[X]",
     "For all binary polynomials of any degree, addition, subtraction, multiplication, powers, division with remainder, gcd, extended gcd, lcm, modular powers and evaluation agree with polynomial arithmetic over GF(2), for any number of operands. "
     "Degree, exponents, coefficients (with any requested width), reciprocal, derivative-free comparisons, equality and hashing, and the constructors from integers, strings, exponents and coefficients denote the same polynomial, and the irreducibility and primitivity tests are exact.",
     ["inputs"], "all polynomials (including zero, one, and degrees beyond 64 bits) and all operand counts",
     "The tests evaluate a few literal polynomials of small degree.",
     [AL + "BinaryPolynomial.py", AL + "ring.py", AL + "domain.py"],
     [("arithmetic operators, divmod, gcd, xgcd, lcm", AL + "BinaryPolynomial.py"), ("binary_exp, gcd", AL + "domain.py")],
     ["BinaryPolynomial"])
prop("C20", "Finite fields GF(2^m) and binary rational functions satisfy the field axioms",
     "For every degree and irreducible modulus, the operations of the finite field are polynomial arithmetic modulo the modulus, every nonzero element has the inverse, quotient, powers (also negative), logarithm, conjugates and minimal polynomial that theory gives, and the default modulus is primitive. "
     "Binary polynomial fractions compare equal exactly when they are the same rational function, and their sum, product, inverse and quotient are those of the rational-function field.",
     ["inputs", "configurations"], "all degrees, irreducible moduli, and all elements and pairs of elements",
     "The tests check a few literal elements of small fields.",
     [AL + "FiniteBifield.py", AL + "BinaryPolynomialFraction.py", AL + "field.py"],
     [("element operations, minimal_polynomial, logarithm, conjugates", AL + "FiniteBifield.py"), ("reduction to lowest terms", AL + "BinaryPolynomialFraction.py")],
     ["FiniteBifield, BinaryPolynomialFraction"])
prop("C21", "Bit/integer conversions are mutually inverse at every width and shape",
     "For every integer, width and array shape, converting integers to bits and back (in either bit order) returns the original values, including widths of 64 bits and more, and every bit printed has its positional weight. "
     "Results have the documented shape, with the bits along the last axis.",
     ["inputs"], "all non-negative integers of any size, widths, array shapes and bit orders",
     "The tests use a few small integers and one- or two-dimensional arrays.",
     ["_util/bit_operations.py"],
     [("int_to_bits / bits_to_int", "_util/bit_operations.py")],
     ["komm.int_to_bits, komm.bits_to_int"])
LB = "_labelings/"
prop("C22", "Labelings are bijections and Gray labelings change one bit between neighbours",
     "For every labeling of any size, mapping indices to bits and bits to indices are mutually inverse on arrays of any shape whose bit dimension is a multiple of the label length, and match the labeling's matrix and inverse mapping. "
     "Natural labelings spell the index in binary most-significant bit first, reflected labelings give consecutive indices labels at Hamming distance one, and product labelings act coordinatewise in the documented index order, so reflected rectangular labelings give grid neighbours distance one. "
     "The marginalised bit log-likelihood ratios equal those of the definition for every metric vector.",
     ["inputs", "configurations"], "all labelings, sizes, index and bit arrays",
     "The tests check a few small labelings on a few vectors.",
     [LB + f for f in ("base.py", "Labeling.py", "NaturalLabeling.py", "ReflectedLabeling.py", "ReflectedRectangularLabeling.py", "ProductLabeling.py")],
     [("indices_to_bits / bits_to_indices", LB + "base.py"), ("matrix", LB + "ProductLabeling.py")],
     ["Labeling, NaturalLabeling, ReflectedLabeling, ReflectedRectangularLabeling, ProductLabeling"])
CN = "_constellations/"
prop("C23", "Constellations: nearest-point decisions, exact posteriors and geometry",
     "For every constellation, mapping indices to symbols and taking closest indices are inverse, and the closest-index decision of any received vector array returns a nearest constellation point. "
     "Posterior probabilities are the normalised Gaussian likelihoods times priors, and mean, mean energy and minimum distance are those of the points for the given priors. "
     "PAM, ASK, PSK, QAM, cross-QAM, APSK, orthogonal, biorthogonal and simplex constellations have exactly the points, order, size and dimension their parameters define.",
     ["inputs", "configurations"], "all constellations, parameters, received arrays of any shape, noise levels and priors",
     "The tests check a few small constellations at a few points.",
     [CN + f for f in ("base.py", "Constellation.py", "PAMConstellation.py", "ASKConstellation.py", "PSKConstellation.py", "QAMConstellation.py", "CrossQAMConstellation.py", "APSKConstellation.py", "OrthogonalConstellation.py", "BiorthogonalConstellation.py", "SimplexConstellation.py")],
     [("closest_indices / closest_symbols / posteriors", CN + "base.py")],
     ["Constellation classes: indices_to_symbols, closest_indices, posteriors, statistics"])
prop("C24", "Scalar quantizers map every input to the level of its cell",
     "For every scalar quantizer, each input is assigned the unique index whose threshold interval contains it and the value of that level, for arrays of any shape and inputs on or beyond the thresholds, and digitizing followed by level lookup equals quantizing. "
     "Uniform quantizers have equally spaced levels and midpoint thresholds for each range and choice, and index and value stay within range for every real input; the reported mean squared error is that of the quantizer.",
     ["inputs", "configurations"], "all level and threshold vectors, uniform ranges and choices, and real inputs including boundary and out-of-range values",
     "The tests quantize a few literal vectors.",
     ["_quantization/base.py", "_quantization/ScalarQuantizer.py", "_quantization/UniformQuantizer.py"],
     [("digitize / quantize", "_quantization/base.py"), ("levels / thresholds", "_quantization/UniformQuantizer.py")],
     ["ScalarQuantizer, UniformQuantizer: digitize, quantize"])
SB = "_sequences_binary/"
prop("C25", "Sequences follow their recurrences and have the promised correlations",
     "For every feedback polynomial (constant term 1) and start state, a shift-register sequence starts with the register contents and satisfies the linear recurrence of its polynomial; the default polynomials are primitive and give maximum-length sequences whose cyclic autocorrelation is L at multiples of L and -1 elsewhere. "
     "Walsh-Hadamard sequences are the rows of the Hadamard matrix in the natural ordering or the ordering by number of sign changes, Barker sequences have off-peak autocorrelation at most one, and Zadoff-Chu sequences have the defined phases and, for coprime root and length, zero off-peak cyclic autocorrelation. "
     "Reported bit, polar, autocorrelation and cyclic autocorrelation sequences agree with their definitions for every shift, positive or negative, within or beyond the length, plain and normalised.",
     ["inputs", "configurations"], "all polynomials, start states, lengths, orderings, indices, shifts and normalisations",
     "The tests list a few sequences literally.",
     [SB + f for f in ("LFSRSequence.py", "WalshHadamardSequence.py", "BarkerSequence.py", "BinarySequence.py", "sequences.py")] + ["_sequences_complex/ZadoffChuSequence.py", "_sequences_complex/ComplexSequence.py", "_util/sequences.py"],
     [("lfsr_sequence", SB + "sequences.py"), ("WalshHadamardSequence index mapping", SB + "WalshHadamardSequence.py"), ("autocorrelation / cyclic_autocorrelation", "_util/sequences.py")],
     ["LFSRSequence, WalshHadamardSequence, BarkerSequence, BinarySequence, ComplexSequence, ZadoffChuSequence"],
     [("start_state", "shift register contents", SB + "LFSRSequence.py")])
MC = "_sources/MarkovChain.py"
prop("C26", "Markov chain classification and long-run quantities are exact",
     "For every transition matrix, the accessible states, communicating classes, transient, recurrent and absorbing states, periods, and the irreducible, regular and absorbing properties reported are those of the transition graph. "
     "The stationary distribution, mean numbers of visits, mean times to absorption and absorption probabilities solve the chain's defining linear equations, with states listed in increasing order; simulated paths take only transitions of positive probability, with the stated relative frequencies, and stop on absorption.",
     ["inputs", "configurations"], "all transition matrices of any size and structure, and all state pairs and step counts",
     "The tests check a few textbook chains, most of them with few states.",
     ["_sources/MarkovChain.py"],
     [("communicating_classes, transient_states, period", MC), ("fundamental-matrix computations", MC)],
     ["MarkovChain"])
prop("C27", "Channels and sources follow their stated law, and are determined by their seed",
     "For every channel, parameter (also after it is changed), input type and array shape, the transition matrix and cardinalities are the documented ones, the output has the shape of the input, each output symbol is one the transition matrix allows for that input symbol, and the input is left as it was; "
     "sources and Markov chains emit only symbols and transitions of positive probability; invalid parameters are refused. Relative frequencies agree with the stated law and different uses, calls and seeds are independent; Gaussian noise has the stated power (half of it in each component for complex inputs), and none at noise power zero. "
     "What an object produces is determined by the seed of its generator and the calls made on that generator: the same history from the same seed gives the same outputs, whether the generator is passed in or is the global one set by komm.global_rng.set at creation.",
     ["inputs", "configurations", "histories"], "all channel parameters, inputs and shapes, seeds and call histories",
     "The tests check shapes and a few statistics for typical parameters.",
     ["_channels/" + f for f in ("BinarySymmetricChannel.py", "BinaryErasureChannel.py", "ZChannel.py", "DiscreteMemorylessChannel.py", "GaussianChannel.py")] + ["_sources/DiscreteMemorylessSource.py", "_sources/MarkovChain.py", "_util/global_rng.py"],
     [("transmit", "_channels/DiscreteMemorylessChannel.py"), ("emit / simulate", MC)],
     ["channel transmit and transition_matrix, source emit, komm.global_rng"])
prop("C28", "Entropies, divergences and mutual information follow their definitions",
     "For every probability mass function, joint or transition matrix and logarithm base, entropy, binary entropy, relative entropy, mutual information and the closed-form capacities equal their defining sums, with zero probabilities contributing zero, infinite relative entropy exactly when absolute continuity fails, and mutual information between zero and the smaller entropy.",
     ["inputs", "configurations"], "all distributions (including zero entries), channel parameters and bases",
     "The tests evaluate a few literal distributions.",
     ["_util/information_theory.py", "_sources/DiscreteMemorylessSource.py", "_channels/BinarySymmetricChannel.py", "_channels/BinaryErasureChannel.py", "_channels/ZChannel.py", "_channels/DiscreteMemorylessChannel.py", "_sources/MarkovChain.py"],
     [("entropy, relative_entropy, mutual_information", "_util/information_theory.py")],
     ["komm entropy functions, channel mutual_information and capacity, source entropy"])
prop("C29", "Resampling, convolution and framing helpers preserve sample positions",
     "For every input, upsampling, downsampling, sampling-rate expansion and decimation, convolution, sequence autocorrelation and cyclic autocorrelation return exactly the samples given by their defining index formulas, at every offset, factor and axis.",
     ["inputs"], "all sequences, factors, offsets, axes and shapes",
     "The tests check a few literal vectors.",
     ["_util/signal_processing.py"], [("resampling and correlation helpers", "_util/signal_processing.py")],
     ["komm signal-processing helpers"])
prop("C30", "Calls never modify their inputs or shared results, and repeat identically",
     "No encoding, decoding, mapping, quantising or analysis call modifies the arrays passed to it, whatever their type or memory layout, and list, tuple, boolean, signed and unsigned, contiguous or strided inputs of equal value give equal results. "
     "Repeating a deterministic call on the same object, in any order among other calls, returns an equal result, so does the same call on another object of the same definition, and arrays returned earlier keep their values.",
     ["inputs", "histories"], "all public operations, input containers, element types, layouts and call sequences",
     "The tests call each operation once with one container type and look only at the return value.",
     [EB + "base.py", "_util/matrices.py", "_util/decorators.py", "_util/validators.py", CC + "base.py", LC + "util.py"],
     [("input normalisation (asarray, validators)", "_util/validators.py"), ("cached properties", EB + "base.py")],
     ["all public classes"])

prop("C31", "Pulse waveforms, spectra and correlations are consistent transforms",
     "For every pulse (rectangular, Manchester, sinc, raised cosine, Beaulieu, Gaussian and the roots), every parameter in its domain and every instant or frequency, including removable singularities and band edges, the waveform and the spectrum are the Fourier pair defining the pulse, the energy spectral density is the squared magnitude of the spectrum, the autocorrelation its inverse transform and the energy its value at zero. "
     "The root of a Nyquist pulse has the square root of its spectrum and exists for Nyquist pulses only, taps sample the waveform on the stated grid, an infinite support requires a span, parameters outside the domain are refused, and the shape of the input is kept.",
     ["inputs", "configurations"], "all pulses and parameters; all instants and frequencies (rational, and next to singularities); all input shapes and layouts; all spans and rates",
     "The tests compare numerical integrals at a few parameters and tolerances of 1e-3 on coarse grids, and look at few singular points.",
     ["_pulses/base.py", "_pulses/RectangularPulse.py", "_pulses/ManchesterPulse.py", "_pulses/SincPulse.py", "_pulses/RaisedCosinePulse.py", "_pulses/BeaulieuPulse.py", "_pulses/GaussianPulse.py", "_pulses/util.py"],
     [("waveforms and removable singularities", "_pulses/RaisedCosinePulse.py"), ("closed-form correlations and the root quadrature", "_pulses/BeaulieuPulse.py"), ("taps and root pulses", "_pulses/base.py")],
     ["komm.*Pulse: waveform, spectrum, energy, autocorrelation, energy_spectral_density, support, taps, root"])
prop("C32", "Special functions meet their probabilistic definitions at every argument",
     "For every argument the Gaussian Q-function is the tail of the normal law (in relative terms far out), its inverse undoes it with the limits at zero and one, the Marcum Q-function is the tail of the non-central chi law for every order and every pair of arguments including large ones, and box-plus is the L-value of a modulo-2 sum, with zero annihilating and infinity neutral. "
     "Arrays of any shape, container and numeric type are mapped elementwise, and arguments outside the domain are refused.",
     ["inputs"], "all real and infinite arguments; all orders, shapes, containers and element types",
     "The tests compare tabulated values at small arguments.",
     ["_util/special_functions.py", "_error_control_decoders/SCDecoder.py"],
     [("gaussian_q, gaussian_q_inv, marcum_q, boxplus", "_util/special_functions.py")],
     ["komm.gaussian_q, gaussian_q_inv, marcum_q, boxplus"])
prop("C33", "Constructions and calls accept exactly their documented parameter domain",
     "Every request whose parameters lie in the documented domain is served, and the object built reports the sizes those parameters define; every request that breaks one of the bounds, shapes, divisibility or distinctness conditions or option names below is refused with an exception instead of producing an object or a value. "
     "This holds for block and convolutional codes and their families (orders, lengths, designed distances, frozen and information sets, polynomials dividing X^n+1, matrix shapes, termination modes, decoder input and output types), labelings and the indices and bits given to table and product labelings, "
     "constellation orders, matrix shapes, priors and received blocks, quantizers, source codes (laws, cardinalities, block sizes, codeword tables and lengths, options) and the symbols and bits given to them, channels, sources and chains, finite fields and fractions, sequences, pulses, resampling, information measures and bit conversions.",
     ["inputs", "configurations"], "all parameter values on both sides of every border of every domain; all options; list, tuple and array arguments (preconditions that the library leaves to the caller, such as entries of generator matrices, are not covered)",
     "The tests construct objects with a few valid parameters and try an invalid value for some of them.",
     ["_util/validators.py", "_error_control_block/*.py", "_error_control_convolutional/*.py", "_labelings/base.py", "_lossless_coding/*.py", "_lossless_coding/util.py", "_quantization/*.py", "_channels/*.py", "_sequences_binary/*.py", "_constellations/*.py"],
     [("laws, probabilities, transition matrices, integer ranges, logarithm bases", "_util/validators.py"), ("designed distances", "_error_control_block/BCHCode.py"), ("codeword lengths and block sizes", "_lossless_coding/util.py"), ("labeling calls", "_labelings/base.py")],
     ["constructors of all exported classes; FixedToVariableCode.from_codewords, from_lengths; VariableToFixedCode.from_sourcewords; sampling_rate_*; entropy and bit conversion functions"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
