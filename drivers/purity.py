"""C30: no call changes its arguments or earlier results; equal arguments give equal results, whatever
the container, element type, layout or history."""
import copy
import hashlib

import numpy as np

import komm


# ---- canonical form of a result ----
def canon(v):
    if v is None or isinstance(v, str):
        return repr(v)
    if isinstance(v, (bool, np.bool_, int, np.integer)):
        return str(int(v))
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if v != v or v in (float("inf"), float("-inf")):
            return repr(v)
        if abs(v) < 1e15 and abs(v - round(v)) < 1e-9 * max(1, abs(v)):   # the order of a summation may show
            return str(round(v))
        if abs(v) < 1e5:
            return f"~{int(np.floor(v * 1e6 + .2371))}"
        return f"~{v * (1 + 1.2371e-8):.7g}"
    if isinstance(v, (complex, np.complexfloating)):
        return f"({canon(v.real)},{canon(v.imag)})"
    if isinstance(v, np.ndarray):
        return f"A{list(v.shape)}[" + ",".join(canon(x) for x in v.ravel().tolist()) + "]"
    if isinstance(v, dict):
        return "{" + ",".join(sorted(canon(k) + ":" + canon(x) for k, x in v.items())) + "}"
    if isinstance(v, (set, frozenset)):
        return "S{" + ",".join(sorted(canon(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(canon(x) for x in v) + "]"
    return repr(v)


def digest(v):
    s = canon(v)
    return s if len(s) <= 60 else s[:24] + ".." + hashlib.sha1(s.encode()).hexdigest()[:16]


# ---- equal values in another container ----
def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


def variant(ctx, a, kinds="all"):
    """kinds: 'all' or 'float' (element type kept)"""
    r = ctx.rng
    if not isinstance(a, np.ndarray):
        return a
    if a.ndim == 0:
        return a.item() if r.random() < .5 else a[()] if r.random() < .5 else a.copy()
    b = a
    if kinds == "all" and a.dtype.kind == "i" and r.random() < .6 and a.size:
        lo, hi = int(a.min()), int(a.max())
        types = [t for t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64)
                 if lo >= np.iinfo(t).min and hi <= np.iinfo(t).max]
        if 0 <= lo and hi <= 1:
            types += [bool, bool]
        b = a.astype(r.choice(types))
    elif a.dtype.kind == "f" and kinds == "all" and a.size and np.all(a == np.floor(a)) and r.random() < .3:
        b = a.astype(int)
    k = r.randrange(9)
    if k == 0:
        return b.tolist()
    if k == 1:
        return tup(b.tolist())
    if k == 2:
        return np.asfortranarray(b)
    if k == 3:
        return np.repeat(b, 2, axis=-1)[..., ::2]
    if k == 4:
        return np.flip(np.flip(b, 0).copy(), 0)
    if k == 5 and b.ndim > 1:
        return [np.array(x) for x in b]
    if k == 6:
        c = b.copy()
        c.flags.writeable = False
        return c
    return b.copy()


def ints(lo, hi, *dims):
    return lambda ctx: ctx.np.integers(lo, hi, dims)


def bits(n, shapes=((), (1,), (3,), (2, 2)), blocks=1):
    def g(ctx):
        return ctx.np.integers(0, 2, (*ctx.rng.choice(shapes), n * ctx.rng.randint(1, blocks)))
    return g


def floats(n, shapes=((), (1,), (3,), (2, 2)), mul=1, scale=4):
    def g(ctx):
        return ctx.np.integers(-5 * scale, 5 * scale + 1, (*ctx.rng.choice(shapes), n * ctx.rng.randint(1, mul))) / scale
    return g


def indices(n):
    """now and then every index in order"""
    return lambda ctx: np.arange(n) if ctx.rng.random() < .35 else ctx.np.integers(0, n, ctx.rng.choice([(1,), (5,), (2, 3)]))


def const(*vals):
    return lambda ctx: copy.deepcopy(ctx.rng.choice(vals))


def pmf_of(n, D=12):
    def g(ctx):
        w = ctx.np.multinomial(D - n, [1 / n] * n) + 1
        return w / D if ctx.rng.random() < .7 else np.round(w / D, 6) * (1 + 2e-7)      # validators allow rounding
    return g


Q0 = lambda name: (name, lambda o: getattr(o, name) if not callable(getattr(o, name)) else getattr(o, name)(), None)   # noqa: E731


def M(name, *gens, kinds="all", **kw):
    return (name + ("" if not kw else str(sorted(kw.items()))), lambda o, *a: getattr(o, name)(*a, **kw), gens, kinds)


BLOCK_Q = [Q0(n) for n in ("length", "dimension", "redundancy", "rate", "generator_matrix", "check_matrix", "generator_matrix_right_inverse", "codewords",
                           "codeword_weight_distribution", "minimum_distance", "coset_leaders", "coset_leader_weight_distribution", "packing_radius", "covering_radius")]


def block_ops(n, k, code):
    def word(ctx):
        u = ctx.np.integers(0, 2, (*ctx.rng.choice([(), (3,), (2, 2)]), k * ctx.rng.randint(1, 2)))
        return np.asarray(code.encode(u)).astype(int)
    return [M("encode", bits(k, blocks=3)), M("encode", bits(k, blocks=3)), M("inverse_encode", word), M("check", bits(n, blocks=3)), M("check", word),
            M("project_word", bits(n, blocks=2))] + BLOCK_Q


def decoder_ops(n, soft=False):
    return [M("decode", floats(n, mul=2) if soft else bits(n, blocks=2))] * 4


def built(name, cls, gens, queries, kinds="all"):
    """constructing from arrays is itself a call: its result is what the object answers"""
    def go(_, *a):
        o = cls(*a)
        return [canon(q(o)) for q in queries]
    return (f"new {name}", go, gens, kinds)


G74 = np.array([[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 0, 1], [0, 0, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]])
G53 = np.array([[1, 1, 0, 1, 0], [0, 1, 1, 1, 1], [1, 0, 0, 1, 1]])


def full_rank(ctx):
    r = ctx.rng
    k, n = r.choice([(1, 3), (2, 4), (2, 5), (3, 5), (3, 6), (4, 4)])
    while True:
        G = ctx.np.integers(0, 2, (k, n))
        seen = {tuple((np.array(c) @ G % 2).tolist()) for c in np.ndindex(*[2] * k)}
        if len(seen) == 2**k:
            return G


def distinct_labels(ctx):
    m = ctx.rng.choice([1, 2, 3])
    p = ctx.np.permutation(2**m)
    return np.array([[(x >> i) & 1 for i in range(m)] for x in p])


def points(ctx):
    n, d = ctx.rng.choice([(2, 1), (4, 1), (4, 2), (3, 2)])
    P = ctx.np.choice(81, n, replace=False)
    return np.stack([P % 9 - 4, P // 9 - 4], axis=1)[:, :d] if d == 2 else (ctx.np.choice(9, n, replace=False) - 4)[:, None]


def machine(ctx):
    S, A = ctx.rng.choice([(2, 2), (3, 2), (4, 2), (2, 4)])
    return ctx.np.integers(0, S, (S, A)), ctx.np.integers(0, 4, (S, A))


def metric(y, z):
    return float((int(z) - float(y))**2)


def table():
    T = {}

    def add(name, factory, ops):
        T[name] = (factory, ops)

    def rng():
        return np.random.default_rng(7)
    for name, f in {
        "BlockCode": lambda: komm.BlockCode(generator_matrix=G53), "BlockCodeH": lambda: komm.BlockCode(check_matrix=G53),
        "Hamming": lambda: komm.HammingCode(3), "HammingX": lambda: komm.HammingCode(3, extended=True), "Simplex": lambda: komm.SimplexCode(3), "Golay": lambda: komm.GolayCode(),
        "Repetition": lambda: komm.RepetitionCode(4), "SPC": lambda: komm.SingleParityCheckCode(4), "CW": lambda: komm.CordaroWagnerCode(7),
        "Cyclic": lambda: komm.CyclicCode(7, generator_polynomial=0b1011), "CyclicN": lambda: komm.CyclicCode(7, check_polynomial=0b10111, systematic=False), "BCH": lambda: komm.BCHCode(4, 5), "RM": lambda: komm.ReedMullerCode(1, 3),
        "Polar": lambda: komm.PolarCode(3, [0, 1, 2, 4]), "Lexi": lambda: komm.Lexicode(6, 3), "Systematic": lambda: komm.SystematicBlockCode([[1, 1], [0, 1], [1, 0]], [0, 2, 4]),
        "TermZ": lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[7, 5]]), 3, "zero-termination"),
        "TermB": lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[7, 5]]), 5, "tail-biting"),
        "TermD": lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[3, 2, 1], [2, 1, 1]]), 2, "direct-truncation"),
    }.items():
        c = f()
        ops = block_ops(c.length, c.dimension, c)
        if isinstance(c, komm.CyclicCode):
            ops = [o for o in ops if o[0] != "generator_matrix_right_inverse"]
        if c.length - c.dimension > 10 or c.dimension > 11:
            ops = [o for o in ops if o[0] not in ("coset_leaders", "coset_leader_weight_distribution", "covering_radius", "codewords", "codeword_weight_distribution")]
        add(name, f, ops)
    ham, rm, spc = komm.HammingCode(3), komm.ReedMullerCode(1, 3), komm.SingleParityCheckCode(4)
    bch, pol = komm.BCHCode(4, 5), komm.PolarCode(3, [0, 1, 2, 4])
    add("ExhaustiveHard", lambda: komm.ExhaustiveSearchDecoder(ham, "hard"), decoder_ops(7))
    add("ExhaustiveSoft", lambda: komm.ExhaustiveSearchDecoder(ham, "soft"), decoder_ops(7, True))
    add("Syndrome", lambda: komm.SyndromeTableDecoder(ham), decoder_ops(7))
    add("ReedHard", lambda: komm.ReedDecoder(rm, "hard"), decoder_ops(8))
    add("ReedSoft", lambda: komm.ReedDecoder(rm, "soft"), decoder_ops(8, True))
    add("Wagner", lambda: komm.WagnerDecoder(spc), decoder_ops(4, True))
    add("SCsoft", lambda: komm.SCDecoder(pol, "soft"), decoder_ops(8, True))
    add("SChard", lambda: komm.SCDecoder(pol, "hard"), decoder_ops(8, True))

    def near_bch(ctx):
        u = ctx.np.integers(0, 2, (ctx.rng.randint(1, 2), 7))
        v = np.asarray(bch.encode(u)).astype(int)
        for w in v:
            for j in ctx.rng.sample(range(15), ctx.rng.randint(0, 2)):
                w[j] ^= 1
        return v
    add("Berlekamp", lambda: komm.BerlekampDecoder(bch), [M("decode", near_bch)] * 4)
    add("Slepian", lambda: komm.SlepianArray(komm.BlockCode(generator_matrix=G53)), [M("row", const(0, 1, 3)), M("col", const(0, 2)), M("entry", const(0, 2), const(1, 5))])
    cc = komm.ConvolutionalCode([[7, 5]])
    c2 = komm.ConvolutionalCode([[3, 2, 1], [2, 1, 1]])
    for m in ("zero-termination", "direct-truncation"):
        tc = komm.TerminatedConvolutionalCode(cc, 4, m)
        add("ViterbiH" + m, lambda tc=tc: komm.ViterbiDecoder(tc, "hard"), decoder_ops(tc.length))
        add("ViterbiS" + m, lambda tc=tc: komm.ViterbiDecoder(tc, "soft"), decoder_ops(tc.length, True))
        add("BCJR" + m, lambda tc=tc: komm.BCJRDecoder(tc), decoder_ops(tc.length, True))

    def space(o):
        return list(o.state_space_representation())
    add("Conv1", lambda: komm.ConvolutionalCode([[7, 5]]), [M("encode", bits(1, shapes=((),), blocks=9))] * 3 + [
        M("encode_with_state", bits(1, shapes=((),), blocks=9), lambda ctx: ctx.np.integers(0, 2, 2)),
        Q0("free_distance"), Q0("is_catastrophic"), Q0("memory_order"), Q0("constraint_lengths"), ("space", space, None), Q0("generator_matrix")])
    add("Conv2", lambda: komm.ConvolutionalCode([[3, 2, 1], [2, 1, 1]]), [M("encode", bits(2, shapes=((),), blocks=6))] * 3 + [
        Q0("free_distance"), Q0("is_catastrophic"), Q0("memory_order"), ("space", space, None)])
    add("construct", lambda: None, [
        built("BlockCode-G", lambda g: komm.BlockCode(generator_matrix=g), (full_rank,), [lambda o: o.generator_matrix, lambda o: o.check_matrix, lambda o: o.minimum_distance(), lambda o: o.inverse_encode(o.encode(np.ones(o.dimension, int))), lambda o: o.generator_matrix_right_inverse]),
        built("BlockCode-H", lambda g: komm.BlockCode(check_matrix=g), (lambda ctx: full_rank(ctx)[:, :] if True else 0,), [lambda o: o.dimension, lambda o: o.check_matrix]),
        built("Systematic", komm.SystematicBlockCode, (ints(0, 2, 3, 2), const("left", "right", [0, 2, 3], (1, 2, 4), np.array([0, 1, 4]), np.array([4, 3, 0])[::-1])), [lambda o: o.generator_matrix, lambda o: o.check_matrix, lambda o: o.parity_set if hasattr(o, "parity_set") else 0]),
        built("Labeling", komm.Labeling, (distinct_labels,), [lambda o: o.matrix, lambda o: o.inverse_mapping, lambda o: o.bits_to_indices(o.matrix.reshape(-1))]),
        built("Constellation", komm.Constellation, (points,), [lambda o: o.matrix, lambda o: o.mean(), lambda o: o.mean_energy(), lambda o: o.minimum_distance(), lambda o: o.closest_indices(np.asarray(o.matrix) .ravel())]),
        built("Quantizer", komm.ScalarQuantizer, (const(np.array([-2.0, 0.0, 1.0, 3.0])), const(np.array([-1.0, 0.5, 2.0]))), [lambda o: o.levels, lambda o: o.thresholds, lambda o: o.quantize([-9, -.5, 1.5, 9])]),
        built("Polar", komm.PolarCode, (const(3), const(np.array([0, 1, 2, 4]), np.array([0, 1]))), [lambda o: o.generator_matrix, lambda o: o.frozen if hasattr(o, "frozen") else 0]),
        built("Conv", komm.ConvolutionalCode, (const(np.array([[7, 5]]), np.array([[3, 2, 1], [2, 1, 1]])),), [lambda o: o.encode([1, 0, 1, 1, 0, 0]), lambda o: o.free_distance()]),
        built("ConvFb", komm.ConvolutionalCode, (const(np.array([[7, 5]])), const(np.array([7]))), [lambda o: o.encode([1, 0, 1, 1, 0, 0])]),
        built("LowRate", komm.LowRateConvolutionalCode, (const(np.array([7, 5]), np.array([7, 5, 3])),), [lambda o: o.encode([1, 0, 1, 1, 0, 0])]),
        built("HighRate", komm.HighRateConvolutionalCode, (const(np.array([7, 5]), np.array([7, 5, 3])),), [lambda o: o.encode([1, 0, 1, 1, 0, 0])]),
        built("Huffman", komm.HuffmanCode, (pmf_of(4), const(1, 2)), [lambda o: o.codewords, lambda o: o.lengths]),
        built("Shannon", komm.ShannonCode, (pmf_of(3), const(1, 2)), [lambda o: o.codewords]),
        built("Fano", komm.FanoCode, (pmf_of(4),), [lambda o: o.codewords]),
        built("Tunstall", komm.TunstallCode, (pmf_of(3), const(2, 3)), [lambda o: o.sourcewords]),
        built("DMC", komm.DiscreteMemorylessChannel, (const(np.array([[.5, .5], [0., 1.]]), np.array([[1., 0.], [0., 1.]])),), [lambda o: o.capacity(), lambda o: o.transition_matrix]),
        built("DMS", komm.DiscreteMemorylessSource, (pmf_of(3),), [lambda o: o.pmf, lambda o: o.entropy_rate()]),
        built("Markov", komm.MarkovChain, (const(np.array([[.5, .5], [0., 1.]]), np.array([[0., 1.], [1., 0.]])),), [lambda o: o.transition_matrix, lambda o: o.communicating_classes(), lambda o: o.is_absorbing()]),
        built("BinSeq", lambda b: komm.BinarySequence(bit_sequence=b), (ints(0, 2, 7),), [lambda o: o.bit_sequence, lambda o: o.polar_sequence, lambda o: o.autocorrelation(), lambda o: o.cyclic_autocorrelation()]),
        built("PolSeq", lambda b: komm.BinarySequence(polar_sequence=b), (lambda ctx: 2 * ctx.np.integers(0, 2, 7) - 1,), [lambda o: o.bit_sequence, lambda o: o.polar_sequence, lambda o: o.autocorrelation()]),
        built("CplxSeq", komm.ComplexSequence, (ints(-3, 4, 5),), [lambda o: o.sequence, lambda o: o.autocorrelation(), lambda o: o.cyclic_autocorrelation(normalized=True) if np.any(o.sequence) else 0]),
        built("Poly", komm.BinaryPolynomial.from_coefficients, (ints(0, 2, 6),), [lambda o: o, lambda o: o.degree, lambda o: o.coefficients()]),
        built("PolyE", komm.BinaryPolynomial.from_exponents, (const(np.array([0, 2, 5]), np.array([1])),), [lambda o: o, lambda o: o.exponents()]),
        built("FVcodewords", komm.FixedToVariableCode.from_codewords, (const([(0,), (1, 0), (1, 1)], [(0, 0), (0, 1), (1,)]),), [lambda o: o.enc_mapping, lambda o: o.is_prefix_free()]),
        built("FVmap", komm.FixedToVariableCode.from_enc_mapping, (const({(0,): (0,), (1,): (1, 0), (2,): (1, 1)}, {(0, 0): (0,), (0, 1): (1, 0), (1, 0): (1, 1, 0), (1, 1): (1, 1, 1)}),), [lambda o: o.codewords, lambda o: o.lengths]),
        built("VFmap", komm.VariableToFixedCode.from_dec_mapping, (const({(0, 0): (0, 0), (0, 1): (0, 1), (1, 0): (1,)}),), [lambda o: o.sourcewords, lambda o: o.is_prefix_free()]),
        built("Product", lambda a, b: komm.ProductLabeling.from_matrices(a, b), (const(np.array([[0], [1]])), const(np.array([[0, 0], [1, 0], [1, 1], [0, 1]]))), [lambda o: o.matrix]),
    ])
    for name, o in (("Labeling", lambda: komm.Labeling([[0, 1], [1, 1], [1, 0], [0, 0]])), ("Natural", lambda: komm.NaturalLabeling(2)), ("Reflected", lambda: komm.ReflectedLabeling(2))):
        add(name, o, [M("indices_to_bits", indices(4)), M("bits_to_indices", bits(2, blocks=4)),
                      M("marginalize", lambda ctx: ctx.np.integers(1, 20, (*ctx.rng.choice([(), (2,)]), 4 * ctx.rng.randint(1, 3))) / 4), Q0("matrix"), Q0("inverse_mapping"), Q0("num_bits"), Q0("cardinality")])
    cons = {"PAM": lambda: komm.PAMConstellation(4), "PSK": lambda: komm.PSKConstellation(8, 2.0, .3), "QAM": lambda: komm.QAMConstellation((4, 2)), "ASK": lambda: komm.ASKConstellation(4), "Orthogonal": lambda: komm.OrthogonalConstellation(3), "APSK": lambda: komm.APSKConstellation((2, 4), (1., 2.)),
            "Generic": lambda: komm.Constellation([[0, 1], [1, 0], [2, 2]]), "Simplex": lambda: komm.SimplexConstellation(3), "Bi": lambda: komm.BiorthogonalConstellation(4), "CrossQAM": lambda: komm.CrossQAMConstellation(32)}
    for name, f in cons.items():
        o = f()
        Mo, d, cp = o.order, o.dimension, np.iscomplexobj(o.matrix)

        def rx(ctx, d=d, cp=cp):
            sh = (*ctx.rng.choice([(), (2,)]), d * ctx.rng.randint(1, 4))
            x = (ctx.np.integers(-60, 61, sh) + .37) / 16
            return x + 1j * (ctx.np.integers(-60, 61, sh) + .41) / 16 if cp else x
        ops = [M("indices_to_symbols", indices(Mo)), M("closest_indices", rx), M("closest_symbols", rx), M("mean"), M("mean_energy"), M("minimum_distance"), Q0("matrix"), Q0("order"),
               M("mean", pmf_of(Mo, 3 * Mo)), M("mean_energy", pmf_of(Mo, 3 * Mo)), M("posteriors", rx, const(.5, 2.0)), M("posteriors", rx, const(1.0), pmf_of(Mo, 3 * Mo))]
        add("Const" + name, f, [o if o[2] != () else (o[0], lambda x, n=o[0]: getattr(x, n)(), None) for o in ops])
    pdf = lambda x: np.where(np.abs(x) < 1, .5, 0.)   # noqa: E731
    for name, f in {"Scalar": lambda: komm.ScalarQuantizer([-2, 0, 1, 3], [-1, .5, 2]), "Uniform": lambda: komm.UniformQuantizer(5, .5), "Lloyd": lambda: komm.LloydMaxQuantizer(pdf, (-1, 1), 3)}.items():
        add("Quant" + name, f, [M("quantize", floats(3)), M("digitize", floats(3)), M("quantize", floats(3)), Q0("levels"), Q0("thresholds"), ("mse", lambda o: o.mean_squared_error(pdf, (-1, 1), 200), None)])
    for name, f in {"LZ78": lambda: komm.LempelZiv78Code(2), "LZW": lambda: komm.LempelZivWelchCode(2), "LZ77": lambda: komm.LempelZiv77Code(search_size=4, lookahead_size=3, source_cardinality=2),
                    "LZSS": lambda: komm.LempelZivSSCode(search_size=8, lookahead_size=4, source_cardinality=2)}.items():
        c = f()
        src = bits(1, shapes=((),), blocks=25)
        add(name, f, [M("encode", src)] * 3 + [M("decode", lambda ctx, c=c, src=src: np.asarray(c.encode(src(ctx))).astype(int))] * 3
            + ([M("source_to_tokens", src)] if hasattr(c, "source_to_tokens") else []))
    huf, tun = komm.HuffmanCode([.5, .25, .25]), komm.TunstallCode([.6, .3, .1], 3)
    add("Huffman", lambda: komm.HuffmanCode([.5, .25, .25]), [M("encode", ints(0, 3, 6)), M("decode", lambda ctx: np.asarray(huf.encode(ctx.np.integers(0, 3, 5))).astype(int)), Q0("codewords"), Q0("kraft_parameter"), M("rate", pmf_of(3)), Q0("is_prefix_free"), Q0("is_uniquely_decodable")])
    add("Tunstall", lambda: komm.TunstallCode([.6, .3, .1], 3), [M("encode", ints(0, 3, 8)), M("decode", lambda ctx: np.asarray(tun.encode(ctx.np.integers(0, 3, 6))).astype(int)), Q0("sourcewords"), M("rate", pmf_of(3)), Q0("is_prefix_free"), Q0("is_fully_covering")])
    for name, f in {"Unary": komm.UnaryCode, "Fibonacci": komm.FibonacciCode}.items():
        c = f()
        add(name, f, [M("encode", ints(1, 9, 4)), M("decode", lambda ctx, c=c: np.asarray(c.encode(ctx.np.integers(1, 9, 3))).astype(int))])
    tr, ou = np.array([[0, 1], [2, 3], [0, 1], [2, 3]]), np.array([[0, 3], [1, 2], [3, 0], [2, 1]])
    add("Mealy", lambda: komm.MealyMachine(tr, ou), [
        ("process", lambda o, x, s: list(o.process(x, s)), (ints(0, 2, 6), const(0, 3)), "all"),
        ("viterbi", lambda o, y, m: list(o.viterbi(y, metric, m)), (ints(0, 4, 5), const([0., np.inf, np.inf, np.inf], np.array([0., 0., 0., 0.]))), "all"),
        ("fb", lambda o, y, p: o.forward_backward(y, lambda y, z: float(1 + (int(y) == int(z))), input_priors=p), (ints(0, 4, 4), const(None, np.array([[.5, .5]] * 4), np.array([[.25, .75]] * 4))), "all"),
        ("input_edges", lambda o: o.input_edges, None), ("output_edges", lambda o: o.output_edges, None)])
    add("Moore", lambda: komm.MooreMachine([[0, 1], [2, 0], [1, 2]], [0, 1, 2]), [("process", lambda o, x, s: list(o.process(x, s)), (ints(0, 2, 6), const(0, 2)), "all")])
    add("construct2", lambda: None, [
        ("new Mealy", lambda _, t, u: [canon(x) for x in komm.MealyMachine(t, u).process([0, 1, 1, 0], 0)], (const(tr), const(ou)), "all"),
        ("new Moore", lambda _, t, u: [canon(x) for x in komm.MooreMachine(t, u).process([0, 1, 1, 0], 0)], (const(tr), const(np.array([0, 1, 1, 0]))), "all")])
    SP = komm
    add("functions", lambda: None, [
        ("bits_to_int", lambda _, x: SP.bits_to_int(x), (bits(5),), "all"), ("bits_to_intM", lambda _, x: SP.bits_to_int(x, "MSB-first"), (bits(5),), "all"),
        ("int_to_bits", lambda _, x: SP.int_to_bits(x, 6), (lambda ctx: ctx.np.integers(0, 64, ctx.rng.choice([(), (1,), (4,), (2, 2)])),), "all"),
        ("compress", lambda _, x: SP.sampling_rate_compress(x, 2, 1), (ints(-4, 5, 2, 5),), "all"), ("expand", lambda _, x: SP.sampling_rate_expand(x, 3, 1), (ints(-4, 5, 2, 3),), "all"),
        ("convolve", lambda _, x, h: SP.convolve(x, h), (ints(0, 4, 2, 5), ints(0, 4, 3)), "all"), ("ft", lambda _, x: list(SP.fourier_transform(x, .5, 8)), (ints(-4, 5, 2, 5),), "all"),
        ("autocorrelation", lambda _, x: SP.autocorrelation(x), (ints(-4, 5, 6),), "all"), ("cyclic", lambda _, x, s: SP.cyclic_autocorrelation(x, s), (ints(-4, 5, 6), const(np.array([0, 2, 5]), np.array([1]))), "all"),
        ("acs", lambda _, x, s: SP.autocorrelation(x, s), (ints(-4, 5, 6), const(np.array([0, 2, 5]), np.array([-1, 1, -4]))), "all"),
        ("entropy", lambda _, p: SP.entropy(p), (pmf_of(4),), "all"), ("relative", lambda _, p, q: SP.relative_entropy(p, q), (pmf_of(3), pmf_of(3)), "all"),
        ("q", lambda _, x: SP.gaussian_q(x), (floats(3),), "all"), ("qinv", lambda _, y: SP.gaussian_q_inv(y), (const(np.array([.1, .5, .9]), np.array([[.25], [.75]])),), "all"),
        ("boxplus", lambda _, a, b: SP.boxplus(a, b), (floats(3, shapes=((),)), floats(3, shapes=((),))), "all"),
        ("marcum", lambda _, a, x: SP.marcum_q(2, a, x), (const(np.array([.5, 1.0])), const(np.array([1.0, 2.5]), np.array([0.0, 4.0]))), "all"),
        ("gcd", lambda _, l: SP.BinaryPolynomial.gcd(*[SP.BinaryPolynomial(int(x)) for x in l]), (const([6, 10, 12], [7, 21]),), "all"),
        ("eval", lambda _, x: repr(SP.BinaryPolynomial(0b1011).evaluate(SP.Integer(x))), (const(3, -2, 7),), "all"),
    ])
    def channel(name, make, gen, n, base=True):
        add(name, make, [("transmit", lambda _, x: transmit(make, x), (gen,), "all")] * 2 + ([M("mutual_information", pmf_of(n)), M("mutual_information", pmf_of(n), const(2.0, 3.0, "e")), Q0("capacity"), Q0("transition_matrix"), Q0("input_cardinality")] if base else []))

    def transmit(make, x):
        ch = make()
        ch.rng = rng()
        return ch.transmit(x)
    sym = lambda k: lambda ctx: ctx.np.integers(0, k, ctx.rng.choice([(1,), (6,), (2, 3)]))   # noqa: E731
    channel("BSC", lambda: komm.BinarySymmetricChannel(.25), sym(2), 2)
    channel("BEC", lambda: komm.BinaryErasureChannel(.25), sym(2), 2)
    channel("ZChannel", lambda: komm.ZChannel(.25), sym(2), 2)
    channel("DMC", lambda: komm.DiscreteMemorylessChannel([[.5, .5, 0], [0, .25, .75]]), sym(2), 2)
    channel("AWGN", lambda: komm.GaussianChannel(.5), floats(3), 2, base=False)
    for name, f in {"Chain": lambda: komm.MarkovChain([[.5, .5, 0], [.25, .5, .25], [0, .5, .5]]), "AbsChain": lambda: komm.MarkovChain([[1, 0, 0, 0], [.5, 0, .5, 0], [0, .5, 0, .5], [0, 0, 0, 1]]), "Periodic": lambda: komm.MarkovChain([[0, 1], [1, 0]])}.items():
        qs = ["transition_matrix", "communicating_classes", "is_irreducible", "is_aperiodic", "is_regular", "is_absorbing", "absorbing_states", "recurrent_states", "transient_states"] + (["stationary_distribution"] if name != "AbsChain" else []) + (["index_of_primitivity"] if name == "Chain" else [])
        if name == "AbsChain":
            qs += ["mean_number_of_visits", "mean_time_to_absorption", "absorption_probabilities"]
        add(name, f, [Q0(q) for q in qs] + [M("accessible_states_from", const(0, 1)), M("period", const(0, 1))])
    for name, f in {"Barker": lambda: komm.BarkerSequence(13), "LFSR": lambda: komm.LFSRSequence(0b11001, 0b11), "Walsh": lambda: komm.WalshHadamardSequence(8, index=3), "ZadoffChu": lambda: komm.ZadoffChuSequence(7, 3)}.items():
        add("Seq" + name, f, [Q0(q) for q in (["bit_sequence", "polar_sequence"] if name != "ZadoffChu" else ["sequence"]) + ["length", "autocorrelation", "cyclic_autocorrelation"]]
            + [M("autocorrelation", const(np.array([0, 2, 3]), np.array([1, -2]))), M("cyclic_autocorrelation", const(np.array([0, 2, 5]), np.array([8, 1]))), ("normalized", lambda o: o.cyclic_autocorrelation(normalized=True), None)])
    P = komm.BinaryPolynomial
    add("Polynomials", lambda: P(0b10011), [("arith", lambda o, x: [repr(y) for y in (P(x[0]) + P(x[1]), P(x[0]) * P(x[1]), o - P(x[1]), P(x[0]) ** 2)], (const((5, 3), (7, 0)),), "all"),
                                            ("divmod", lambda o, x: [repr(y) for y in divmod(P(x[0]), o)], (const((77, 3), (7, 0)),), "all"), ("xgcd", lambda o, x: [repr(y) for y in P.xgcd(o, P(x[1]))], (const((77, 3), (7, 9)),), "all"),
                                            ("coefficients", lambda o: o.coefficients(), None), ("coefficients8", lambda o: o.coefficients(8), None), ("exponents", lambda o: o.exponents(), None), ("reciprocal", lambda o: repr(o.reciprocal()), None),
                                            ("irreducible", lambda o: o.is_irreducible(), None), ("primitive", lambda o: o.is_primitive(), None)])
    add("Fractions", lambda: komm.BinaryPolynomialFraction(0b110, 0b11), [("arith", lambda o, x: [repr(y) for y in (o + komm.BinaryPolynomialFraction(*x), o * komm.BinaryPolynomialFraction(*x), o.inverse())], (const((5, 3), (7, 2)),), "all"), ("repr", lambda o: repr(o), None)])
    add("Field", lambda: komm.FiniteBifield(4), [("arith", lambda o, x: [int(y.value) if hasattr(y, "value") else repr(y) for y in (o(x[0]) + o(x[1]), o(x[0]) * o(x[1]), o(x[0]) / o(x[1]), o(x[1]).inverse(), o(x[1]) ** 3)], (const((5, 3), (7, 12)),), "all"),
                                                ("conjugates", lambda o, x: [repr(y) for y in o(x).conjugates()], (const(3, 7, 6),), "all"), ("minimal", lambda o, x: repr(o(x).minimal_polynomial()), (const(3, 7, 6),), "all"), ("log", lambda o, x: o(x).logarithm(o(2)), (const(3, 7, 6),), "all")])
    add("Streams", lambda: cc, [("viterbi-stream", lambda o, x: komm.ViterbiStreamDecoder(o, 6).decode(x), (bits(2, shapes=((),), blocks=9),), "all"),
                                ("viterbi-stream-soft", lambda o, x: komm.ViterbiStreamDecoder(o, 6, input_type="soft").decode(x), (floats(2, shapes=((),), mul=9),), "all"),
                                ("terminated", lambda o, x: komm.TerminatedConvolutionalCode(o, 4).encode(x), (bits(4),), "all")])
    add("information", lambda: None, [("binary_entropy", lambda _, p: komm.binary_entropy(p), (const(.25, .5, 1.0),), "all"), ("inverse", lambda _, p: komm.binary_entropy_inv(p), (const(.25, .5, 1.0),), "all"), ("entropy-e", lambda _, p: komm.entropy(p, "e"), (pmf_of(4),), "all")])
    add("ReflRect", lambda: komm.ReflectedRectangularLabeling((2, 1)), [M("indices_to_bits", indices(8)), M("bits_to_indices", bits(3, blocks=4)), Q0("matrix")])
    for name, f in {"Rect": lambda: komm.RectangularPulse(), "Rect2": lambda: komm.RectangularPulse(0.25), "Manchester": komm.ManchesterPulse, "Sinc": komm.SincPulse, "RC": lambda: komm.RaisedCosinePulse(.5), "RRC": lambda: komm.RaisedCosinePulse(.25).root(), "Gauss": lambda: komm.GaussianPulse(.5),
                    "Beaulieu": lambda: komm.BeaulieuPulse(.4), "RBeaulieu": lambda: komm.BeaulieuPulse(.4).root()}.items():
        t = lambda ctx: ctx.np.integers(-12, 13, ctx.rng.choice([(), (1,), (5,), (2, 3)])) / ctx.rng.choice([1, 4])   # noqa: E731
        add("Pulse" + name, f, [M("waveform", t), M("spectrum", t), M("autocorrelation", t), M("energy_spectral_density", t), Q0("energy"), Q0("support"), M("taps", const(2, 4), const((-3, 3), (0, 2)))])
    return T


class Actor:
    """one definition: its objects (built alike), its operations, and for each the argument values in play"""

    def __init__(self, ctx, s, name, T):
        self.ctx, self.s, self.name = ctx, s, name
        self.factory, self.ops = T[name]
        self.objs, self.pool = {}, {}

    def obj(self, k):
        if k not in self.objs:
            self.objs[k] = self.ctx.call(self.factory, lambda v: 0)[1]
        return self.objs[k]

    def nargs(self, j):
        return sum(k[0] == j for k in self.pool)

    def call(self, j, k, o, held):
        op = self.ops[j]
        gens = op[2] if len(op) > 2 else None
        if (j, k) not in self.pool:
            self.pool[j, k] = [] if gens is None else [g(self.ctx) for g in gens]
        args = [variant(self.ctx, copy.deepcopy(a), op[3]) for a in self.pool[j, k]] if gens else []
        before = [digest(a) for a in args]
        x = self.obj(o)
        ok, raw = self.s.call("call", lambda: op[1](x, *args), digest, f=f"{self.name}.{op[0]}#{j}", k=k)
        e = self.s.d["ev"][-1]
        e["unmod"] = [digest(a) for a in args] == before
        e["how"] = [type(a).__name__ + (":" + a.dtype.str if isinstance(a, np.ndarray) else "") for a in args]
        if ok:
            held.append((len(self.s.d["ev"]), raw))
            # a result of a computation from given arrays is the caller's, to write to
            if gens and isinstance(raw, np.ndarray) and raw.size and raw.ndim and raw.flags.writeable and self.ctx.rng.random() < .3 and not any(np.shares_memory(a, raw) for a in args if isinstance(a, np.ndarray)):
                held[:] = [h for h in held if not (isinstance(h[1], np.ndarray) and np.shares_memory(h[1], raw))]
                raw[...] = raw.ravel()[::-1].reshape(raw.shape) if self.ctx.rng.random() < .3 else np.ones(1, raw.dtype)
                self.call(j, k, o, held)

    def random(self, held):
        r = self.ctx.rng
        j = r.choice([k[0] for k in self.pool]) if self.pool and r.random() < .5 else r.randrange(len(self.ops))
        n = self.nargs(j)
        k = r.randrange(n) if n and (len(self.ops[j]) < 3 or self.ops[j][2] is None or r.random() < .65) else n
        self.call(j, k, r.choice([0, 0, 0, 1, 2]), held)


def inspect(s, held, most):
    for at, old in held[:most]:
        s.call("held", lambda: old, digest, at=at)


def run(ctx, groups, calls, T):
    r = ctx.rng
    for names in groups:
        s = ctx.session("+".join(names))
        actors = [Actor(ctx, s, n, T) for n in names]
        held = []
        for _ in range(calls * (4 if names[0].startswith("construct") or names[0] == "functions" else 1) * len(names)):
            r.choice(actors).random(held)
            if held and r.random() < .3:
                inspect(s, [r.choice(held)], 1)
        inspect(s, held, 12)
        s.end()


def everything(ctx):
    T = table()
    run(ctx, [[n] for n in T] * ctx.n(8, 40), ctx.n(14, 24), T)


def constructions(ctx):
    T = table()
    run(ctx, [["construct"], ["functions"], ["construct2"]] * ctx.n(25, 150), 12, T)


def mixed(ctx):
    """objects of different definitions used in turns"""
    T, r = table(), ctx.rng
    names = list(T)
    groups = []
    for _ in range(ctx.n(120, 900)):
        at = r.randrange(len(names))
        near = names[max(0, at - 6):at + 7]
        groups.append(r.sample(near if r.random() < .7 else names, 3))
    run(ctx, groups, 10, T)


def large_table():
    """operations that act symbol by symbol, on thousands of symbols"""
    N = 6000
    T = {}

    def add(name, factory, *ops):
        T[name] = (factory, list(ops))
    fl = lambda ctx: (ctx.np.integers(-60, 61, (*ctx.rng.choice([(), (2,)]), N)) + .37) / 16   # noqa: E731
    cx = lambda ctx: fl(ctx)[..., :N] + 1j * (ctx.np.integers(-60, 61, N) + .41) / 16   # noqa: E731
    for name, f in {"Scalar": lambda: komm.ScalarQuantizer([-2, 0, 1, 3], [-1, .5, 2]), "Uniform": lambda: komm.UniformQuantizer(5, .5)}.items():
        add("Quant" + name, f, M("quantize", fl), M("digitize", fl))
    for name, f in {"Labeling": lambda: komm.Labeling([[0, 1], [1, 1], [1, 0], [0, 0]]), "Natural": lambda: komm.NaturalLabeling(2), "ReflRect": lambda: komm.ReflectedRectangularLabeling((1, 1))}.items():
        add("L" + name, f, M("indices_to_bits", ints(0, 4, N)), M("bits_to_indices", ints(0, 2, N)), M("marginalize", lambda ctx: ctx.np.integers(1, 20, N) / 4))
    for name, f in {"PAM": lambda: komm.PAMConstellation(4), "PSK": lambda: komm.PSKConstellation(8), "QAM": lambda: komm.QAMConstellation(16), "Ort": lambda: komm.OrthogonalConstellation(3)}.items():
        o = f()
        rx = cx if np.iscomplexobj(o.matrix) else fl
        add("C" + name, f, M("indices_to_symbols", ints(0, o.order, N)), M("closest_indices", rx), M("closest_symbols", rx), M("posteriors", rx, const(.5)))
    add("functions", lambda: None,
        ("bits_to_int", lambda _, x: komm.bits_to_int(x), (ints(0, 2, N // 5, 5),), "all"), ("int_to_bits", lambda _, x: komm.int_to_bits(x, 6), (ints(0, 64, N),), "all"),
        ("compress", lambda _, x: komm.sampling_rate_compress(x, 2, 1), (fl,), "float"), ("expand", lambda _, x: komm.sampling_rate_expand(x, 3, 1), (fl,), "float"),
        ("convolve", lambda _, x, h: komm.convolve(x, h), (ints(-4, 5, N), ints(-4, 5, 12)), "all"), ("ft", lambda _, x: np.abs(komm.fourier_transform(x, .5)[0]) > 1e9, (ints(-4, 5, N),), "all"),
        ("autocorrelation", lambda _, x: komm.autocorrelation(x, [0, 1, 5, -7, 5990]), (ints(-4, 5, N),), "all"), ("cyclic", lambda _, x: komm.cyclic_autocorrelation(x, [0, 1, 5, -7]), (ints(-4, 5, N),), "all"),
        ("entropy", lambda _, p: komm.entropy(p), (lambda ctx: (ctx.np.permutation(N) + 1) / (N * (N + 1) // 2),), "float"), ("q", lambda _, x: komm.gaussian_q(x), (fl,), "float"),
        ("boxplus", lambda _, a, b: komm.boxplus(a, b), (fl, lambda ctx: fl(ctx).ravel()[:N]), "float"))
    for name, f in {"Hamming": lambda: komm.HammingCode(3), "Rep": lambda: komm.RepetitionCode(3), "Golay": lambda: komm.GolayCode()}.items():
        c = f()
        add("B" + name, f, M("encode", ints(0, 2, c.dimension * 500)), M("check", ints(0, 2, c.length * 400)), M("inverse_encode", lambda ctx, c=c: np.asarray(c.encode(ctx.np.integers(0, 2, c.dimension * 500))).astype(int)))
    add("Conv", lambda: komm.ConvolutionalCode([[7, 5]]), M("encode", ints(0, 2, 3000)))
    add("Huffman", lambda: komm.HuffmanCode([.5, .25, .25]), M("encode", ints(0, 3, N)))
    add("Tunstall", lambda: komm.TunstallCode([.6, .3, .1], 3), M("encode", ints(0, 3, N)))
    add("LZW", lambda: komm.LempelZivWelchCode(2), M("encode", ints(0, 2, N)))
    add("LZ78", lambda: komm.LempelZiv78Code(2), M("encode", ints(0, 2, N)))
    add("BinSeq", lambda: None, built("BinSeq", lambda b: komm.BinarySequence(bit_sequence=b), (ints(0, 2, N),), [lambda o: o.bit_sequence, lambda o: o.polar_sequence]),
        built("PolSeq", lambda b: komm.BinarySequence(polar_sequence=b), (lambda ctx: 2 * ctx.np.integers(0, 2, N) - 1,), [lambda o: o.bit_sequence, lambda o: o.polar_sequence]))
    for name, f in {"BSC": lambda: komm.BinarySymmetricChannel(.25, rng=np.random.default_rng(7)), "BEC": lambda: komm.BinaryErasureChannel(.25, rng=np.random.default_rng(7)), "Z": lambda: komm.ZChannel(.25, rng=np.random.default_rng(7)),
                    "DMC": lambda: komm.DiscreteMemorylessChannel([[.5, .5, 0], [0, .25, .75]], rng=np.random.default_rng(7))}.items():
        add("Ch" + name, lambda: None, ("transmit", lambda _, x, f=f: f().transmit(x), (ints(0, 2, N),), "all"))
    add("ChAWGN", lambda: None, ("transmit", lambda _, x: komm.GaussianChannel(.5, rng=np.random.default_rng(7)).transmit(x), (fl,), "float"))
    return T


def large(ctx):
    T = large_table()
    for name in T:
        for j in range(len(T[name][1])):
            for _ in range(ctx.n(1, 6)):
                s = ctx.session(name)
                a, held = Actor(ctx, s, name, T), []
                for k in (0, 1, 0, 0, 1):
                    a.call(j, k, 0, held)
                inspect(s, held, 12)
                s.end()


def histories(ctx):
    """the histories of the design model, each on some operations of every class"""
    T, r = table(), ctx.rng
    H = sorted({str(h): h for h in ctx.gen("MC_Purity@GEN_Purity")}.items())
    for name in T:
        ops = T[name][1]
        free = [j for j, op in enumerate(ops) if len(op) < 3 or op[2] is None]
        bound = [j for j in range(len(ops)) if j not in free]
        for _ in range(ctx.n(5, 40)):
            s = ctx.session(name)
            a = Actor(ctx, s, name, T)
            held = []
            slot = {"id": r.choice(bound or free), "next": r.choice(bound or free), "table": r.choice(free or bound)}
            for step in r.choice(H)[1]:
                j = slot[step["op"]]
                a.call(j, 0 if j in free else step["k"], step["o"], held)
            inspect(s, held, 12)
            s.end()
