"""C33: requests inside and outside the documented domain of every construction."""
import math

import numpy as np

import komm

NAN = float("nan")
POLICY = ["high", "low", "middle", "", "High"]
ASSIGN = ["tree", "canonical", "linear", "", "Tree"]
ORDER = ["natural", "sequency", "dyadic", "walsh", ""]
MODES = ["direct-truncation", "zero-termination", "tail-biting", "truncation", "zero_termination", "", "tail-Biting"]
TYPES = ["hard", "soft", "medium", "", "Hard"]
SIDES = ["left", "right", "center", "", "Left"]
BITORD = ["LSB-first", "MSB-first", "lsb-first", "", "MSB"]
CONV = komm.ConvolutionalCode([[0b111, 0b101]])


def real(q):
    return q[0] / q[1] if q[1] else NAN


def ii(*v):
    return [int(x) for x in v]


def law(w, D):
    return [x / D for x in w]


def code(o):
    return ii(o.length, o.dimension)


def lab(o):
    return ii(o.num_bits, o.cardinality)


def const(o):
    return ii(o.order, o.dimension)


def fv(o):
    return ii(o.source_cardinality, o.target_cardinality, o.source_block_size)


def vf(o):
    return ii(o.source_cardinality, o.target_cardinality, o.target_block_size)


def tup(ws):
    return [tuple(w) for w in ws]


def shaped(ndim, *dims):
    """an array of ones with that many axes"""
    dims = list(dims) + [1] * 4
    return np.ones(dims[:ndim], dtype=int).tolist()


def nothing(o):
    return []


def lz(cls):
    def go(S, L, X, Y, b):
        kw = {} if b < 0 else {"search_buffer": [0] * b}
        return cls(search_size=S, lookahead_size=L, source_cardinality=X, target_cardinality=Y, **kw)
    return go, lambda o: ii(o.search_size, o.lookahead_size, o.source_cardinality, o.target_cardinality)


def cyclic(n, k, g):
    return komm.CyclicCode(n, **({} if k == 3 else {"generator_polynomial": g} if k == 0 else {"check_polynomial": g} if k == 1 else {"generator_polynomial": g, "check_polynomial": g}))


def block(k, a, b):
    M = np.eye(a, b, dtype=int).tolist()
    return komm.BlockCode(**({} if k == 3 else {"generator_matrix": M} if k == 0 else {"check_matrix": M} if k == 1 else {"generator_matrix": M, "check_matrix": M}))


def binseq(k, n):
    b, p = [0] * n, [1] * n
    return komm.BinarySequence(**({} if k == 3 else {"bit_sequence": b} if k == 0 else {"polar_sequence": p} if k == 1 else {"bit_sequence": b, "polar_sequence": p}))


def conv(d, a, b, e, n):
    ff = shaped(d, a, b)
    return komm.ConvolutionalCode(ff) if e < 0 else komm.ConvolutionalCode(ff, shaped(e, n) if e else 1)


def points(d, a, b):
    m = np.arange(1.0, 1 + np.prod(([a, b] + [2, 2])[:d])).reshape(([a, b] + [2, 2])[:d])
    return komm.Constellation(m)


def decoder(cls, kw):
    return lambda m, t: cls(komm.TerminatedConvolutionalCode(CONV, 3, mode=MODES[m]), **{kw: TYPES[t]})


def bymatrix(m):
    """a labeling that looks its labels up in a table"""
    if m == 1:
        return komm.Labeling([[1], [0]])
    return komm.ProductLabeling(komm.NaturalLabeling(m - 1), komm.Labeling([[1], [0]])) if m % 2 else komm.Labeling(komm.ReflectedLabeling(m).matrix)


KINDS = {
    "hamming": (lambda m, e: komm.HammingCode(m, extended=bool(e)), code),
    "simplexcode": (lambda m, e: komm.SimplexCode(m, extended=bool(e)), code),
    "repetition": (komm.RepetitionCode, code),
    "parity": (komm.SingleParityCheckCode, code),
    "cordaro": (komm.CordaroWagnerCode, code),
    "reedmuller": (komm.ReedMullerCode, code),
    "bch": (komm.BCHCode, code),
    "polar": (komm.PolarCode, code),
    "lexicode": (komm.Lexicode, lambda o: ii(o.length)),
    "cyclic": (cyclic, code),
    "block": (block, code),
    "systematic": (lambda k, m, s: komm.SystematicBlockCode(np.ones((k, m), dtype=int), information_set=s), code),
    "systematicnamed": (lambda k, m, s: komm.SystematicBlockCode(np.ones((k, m), dtype=int), information_set=SIDES[s]), code),
    "natural": (komm.NaturalLabeling, lab),
    "reflected": (komm.ReflectedLabeling, lab),
    "rectangular": (komm.ReflectedRectangularLabeling, lab),
    "rectangularpair": (lambda a, b: komm.ReflectedRectangularLabeling((a, b)), lab),
    "product": (lambda s, n: komm.ProductLabeling(*[komm.NaturalLabeling(m) for m in s], repeat=n), lab),
    "labeling": (komm.Labeling, lab),
    "indices": (lambda m, s: bymatrix(m).indices_to_bits(s), lambda v: ii(np.asarray(v).size)),
    "labels": (lambda m, s: bymatrix(m).bits_to_indices(s), lambda v: ii(np.asarray(v).size)),
    "metrics": (lambda m, n: komm.NaturalLabeling(m).marginalize(np.full(n, 0.5)), lambda v: ii(np.asarray(v).size)),
    "biorthogonal": (komm.BiorthogonalConstellation, const),
    "crossqam": (komm.CrossQAMConstellation, const),
    "qam": (komm.QAMConstellation, const),
    "constellation": (points, const),
    "uniform": (lambda n, r: komm.UniformQuantizer(n, step=real(r)), lambda o: ii(len(o.levels))),
    "scalar": (komm.ScalarQuantizer, lambda o: ii(len(o.levels))),
    "lz77": lz(komm.LempelZiv77Code),
    "lzss": lz(komm.LempelZivSSCode),
    "lz78": (komm.LempelZiv78Code, lambda o: ii(o.source_cardinality, o.target_cardinality)),
    "lzw": (komm.LempelZivWelchCode, lambda o: ii(o.source_cardinality, o.target_cardinality)),
    "huffman": (lambda w, D, k, a, b: komm.HuffmanCode(law(w, D), source_block_size=k, policy=POLICY[a], assignment=ASSIGN[b]), fv),
    "shannon": (lambda w, D, k: komm.ShannonCode(law(w, D), source_block_size=k), fv),
    "fano": (lambda w, D, k: komm.FanoCode(law(w, D), source_block_size=k), fv),
    "tunstall": (lambda w, D, k: komm.TunstallCode(law(w, D)) if k < 0 else komm.TunstallCode(law(w, D), target_block_size=k), vf),
    "fixedtovariable": (lambda x, y, k, ks, ws: komm.FixedToVariableCode(x, y, k, dict(zip(tup(ks), tup(ws)))), fv),
    "codewords": (lambda ws, x: komm.FixedToVariableCode.from_codewords(tup(ws), source_cardinality=x), fv),
    "lengths": (lambda ls, x, y: komm.FixedToVariableCode.from_lengths(ls, source_cardinality=x, target_cardinality=y), fv),
    "variabletofixed": (lambda y, x, n, ks, ws: komm.VariableToFixedCode(y, x, n, dict(zip(tup(ks), tup(ws)))), vf),
    "sourcewords": (lambda ws, y: komm.VariableToFixedCode.from_sourcewords(tup(ws), target_cardinality=y), vf),
    "bsc": (lambda *q: komm.BinarySymmetricChannel(real(q)), lambda o: ii(*np.asarray(o.transition_matrix).shape)),
    "bec": (lambda *q: komm.BinaryErasureChannel(real(q)), lambda o: ii(*np.asarray(o.transition_matrix).shape)),
    "zchannel": (lambda *q: komm.ZChannel(real(q)), lambda o: ii(*np.asarray(o.transition_matrix).shape)),
    "binaryentropy": (lambda *q: komm.binary_entropy(real(q)), nothing),
    "binaryentropyinverse": (lambda *q: komm.binary_entropy_inv(real(q)), nothing),
    "dmc": (lambda rows, D: komm.DiscreteMemorylessChannel([law(w, D) for w in rows]), lambda o: ii(o.input_cardinality, o.output_cardinality)),
    "markov": (lambda rows, D: komm.MarkovChain([law(w, D) for w in rows]), lambda o: ii(o.num_states)),
    "dms": (lambda w, D: komm.DiscreteMemorylessSource(law(w, D)), lambda o: ii(o.cardinality)),
    "dmsuniform": (komm.DiscreteMemorylessSource, lambda o: ii(o.cardinality)),
    "gaussianchannel": (lambda *q: komm.GaussianChannel(noise_power=real(q)), nothing),
    "logbase": (lambda *q: komm.entropy([.5, .5], base=real(q)), nothing),
    "logname": (lambda k: komm.entropy([.5, .5], base=["e", "E", "", "2", "nats"][k]), nothing),
    "walsh": (lambda n, i, o: komm.WalshHadamardSequence(length=n, ordering=ORDER[o], index=i), lambda o: ii(o.length)),
    "barker": (komm.BarkerSequence, lambda o: ii(o.length)),
    "zadoffchu": (lambda n, k: komm.ZadoffChuSequence(n, root_index=k), lambda o: ii(o.length)),
    "binarysequence": (binseq, lambda o: ii(o.length)),
    "field": (lambda k, m: komm.FiniteBifield(k, m), lambda o: ii(o.degree, 2 ** o.degree)),
    "defaultfield": (komm.FiniteBifield, lambda o: ii(o.degree)),
    "fraction": (lambda a, b: komm.BinaryPolynomialFraction(a, b), nothing),
    "convolutional": (conv, lambda o: ii(o.num_input_bits, o.num_output_bits)),
    "highrate": (lambda d, n: komm.HighRateConvolutionalCode(shaped(d, n)), lambda o: ii(o.num_input_bits, o.num_output_bits)),
    "lowrate": (lambda d, n: komm.LowRateConvolutionalCode(shaped(d, n)), lambda o: ii(o.num_input_bits, o.num_output_bits)),
    "terminated": (lambda m: komm.TerminatedConvolutionalCode(CONV, 3, mode=MODES[m]), nothing),
    "viterbi": (decoder(komm.ViterbiDecoder, "input_type"), nothing),
    "bcjr": (decoder(komm.BCJRDecoder, "output_type"), nothing),
    "down": (lambda n, f, o: komm.sampling_rate_compress(np.arange(n), factor=f, offset=o), lambda v: ii(np.asarray(v).size)),
    "up": (lambda n, f, o: komm.sampling_rate_expand(np.arange(n), factor=f, offset=o), lambda v: ii(np.asarray(v).size)),
    "bitorder": (lambda k, d: komm.int_to_bits(5, 4, bit_order=BITORD[k]) if d else komm.bits_to_int([1, 0, 1], bit_order=BITORD[k]), nothing),
    "pmfshape": (lambda d: komm.entropy(np.ones([1] * d)), nothing),
    "matrixshape": (lambda d: komm.DiscreteMemorylessChannel(np.full([2] * d, 0.5)), nothing),
    "labelingshape": (lambda d: komm.Labeling(np.arange(2).reshape([2] + [1] * (d - 1)) if d else 1), nothing),
    "lengthsshape": (lambda d: komm.FixedToVariableCode.from_lengths(np.full([2] + [1] * (d - 1) if d else [], 2), source_cardinality=2), nothing),
    "priors": (lambda a, b: komm.PSKConstellation(a).mean_energy(priors=np.full(b, 1 / b)), nothing),
    "samelength": (lambda a, b: komm.relative_entropy(np.full(a, 1 / a), np.full(b, 1 / b)), nothing),
    "boxplus": (lambda a, b: komm.boxplus(np.ones(a), np.ones(b)), nothing),
    "received": (lambda a, b: komm.OrthogonalConstellation(a).closest_indices(np.arange(b) * 1.0), lambda v: ii(np.asarray(v).size)),
    "initialstate": (lambda a, d, n: komm.ConvolutionalCode([[1 | 1 << a, 1]]).encode_with_state([1, 0, 1], np.zeros([n] + [1] * (d - 1) if d else [], dtype=int)), nothing),
    "marcum": (lambda m, a, x: komm.marcum_q(m, a, x), nothing),
    "lzinput": (lambda w, x, s: [lz(komm.LempelZiv77Code)[0](3, 3, x, 2, -1), lz(komm.LempelZivSSCode)[0](3, 3, x, 2, -1), komm.LempelZiv78Code(x), komm.LempelZivWelchCode(x)][w].encode(s), nothing),
    "unary": (lambda s: komm.UnaryCode().encode(s), lambda v: ii(np.asarray(v).size)),
    "fibonacci": (lambda s: komm.FibonacciCode().encode(s), nothing),
    "unarybits": (lambda s: komm.UnaryCode().decode(s), lambda v: ii(np.asarray(v).size)),
    "fibonaccibits": (lambda s: komm.FibonacciCode().decode(s), lambda v: ii(np.asarray(v).size)),
    "raisedcosine": (lambda *q: komm.RaisedCosinePulse(rolloff=real(q)), nothing),
    "rectangularpulse": (lambda *q: komm.RectangularPulse(width=real(q)), nothing),
    "beaulieu": (lambda *q: komm.BeaulieuPulse(rolloff=real(q)), nothing),
    "gaussianpulse": (lambda *q: komm.GaussianPulse(half_power_bandwidth=real(q)), nothing),
}


def container(r, v):
    """a sequence argument as a list, a tuple or an array"""
    if not isinstance(v, list) or not v:
        return v
    k = r.randrange(3)
    if k == 0:
        return v
    if k == 1:
        return tuple(tuple(x) if isinstance(x, list) else x for x in v)
    try:
        return np.array(v)
    except ValueError:
        return v


ARRAYS = {"polar", "systematic", "labeling", "indices", "labels", "scalar", "lengths", "lzinput", "unary", "fibonacci", "unarybits", "fibonaccibits"}


def ask(ctx, s, kind, p):
    fn, shape = KINDS[kind]
    args = [container(ctx.rng, v) for v in p] if kind in ARRAYS else p
    s.call("ask", lambda: fn(*args), shape, kind=kind, p=p)


def put(ctx, name, reqs, per=40):
    for k in range(0, len(reqs), per):
        s = ctx.session(name)
        for kind, p in reqs[k:k + per]:
            ask(ctx, s, kind, p)
        s.end()


def grid(ctx):
    """every request the specification enumerates"""
    reqs = [(g["c"], g["p"]) for g in ctx.gen("MC_Domains")]
    put(ctx, "grid", reqs)


def flip(r, seq, f):
    """one entry replaced"""
    t = list(seq)
    if t:
        j = r.randrange(len(t))
        t[j] = f(t[j])
    return t


def lawof(r, n, D):
    cuts = sorted(r.randint(0, D) for _ in range(n - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [D])]


def irr(r, k):
    p = (1 << k) | r.randrange(1 << k) | 1
    return p


def wide(ctx):
    """larger requests, on and just across the border"""
    r = ctx.rng
    reqs = []

    def add(kind, *p):
        reqs.append((kind, list(p)))
    for _ in range(ctx.n(150, 1200)):
        for kind in ("bsc", "bec", "zchannel", "binaryentropy", "binaryentropyinverse", "raisedcosine", "beaulieu", "rectangularpulse", "gaussianpulse", "gaussianchannel", "logbase"):
            den = r.choice([3, 10, 100, 10**4, 10**6])
            num = r.choice([0, 1, -1, den, den + 1, den - 1, r.randint(-den, 2 * den)])
            if kind == "logbase" and num == den and r.random() < .5:
                num += 1
            add(kind, num, den)
        # block codes
        mu = r.randint(2, 10)
        add("hamming", mu, r.randrange(2))
        add("simplexcode", r.randint(0, 9), r.randrange(2))
        add("repetition", r.choice([0, -1, 1, r.randint(1, 60)]))
        add("parity", r.choice([0, -1, 1, r.randint(1, 60)]))
        add("cordaro", r.choice([0, 1, 2, r.randint(2, 60)]))
        mu = r.randint(1, 8)
        add("reedmuller", r.choice([-1, 0, mu - 1, mu, mu + 1, r.randint(0, mu)]), mu)
        mu = r.randint(2, 7)
        add("bch", mu, r.choice([0, 1, 2, 3, 2**mu - 1, 2**mu, r.randint(2, 2**mu)]))
        mu = r.randint(1, 6)
        f = r.sample(range(2**mu), r.randint(0, 2**mu - 1))
        r.shuffle(f)
        k = r.randrange(5)
        f = flip(r, f, lambda x: 2**mu) if k == 0 else flip(r, f, lambda x: -1) if k == 1 else f + f[:1] if k == 2 and len(f) < 2**mu else f
        add("polar", mu, f)
        n = r.choice([7, 9, 15, 21, 23, 30, 12, 14, 10])
        fac = komm.BinaryPolynomial((1 << n) | 1)
        gs = r.choice([[0b11], [0b111], [0b1011], [0b10011], [0b11111], [0b100101], [0b1, 1 << r.randint(1, 5)], [fac.value], [r.randrange(1, 1 << min(n, 10))]])
        add("cyclic", n, r.choice([0, 1, 0, 1, 2, 3]), r.choice(gs))
        k, m = r.randint(1, 8), r.randint(1, 8)
        info = r.sample(range(k + m), k)
        c = r.randrange(6)
        info = flip(r, info, lambda x: k + m) if c == 0 else flip(r, info, lambda x: -1) if c == 1 else info[:-1] if c == 2 else info + [next(x for x in range(k + m) if x not in info)] if c == 3 and m else flip(r, info, lambda x: info[0])
        add("systematic", k, m, info)
        # labelings
        m = r.randint(1, 5)
        perm = list(range(1 << m))
        r.shuffle(perm)
        rows = [[x >> j & 1 for j in range(m)] for x in perm]
        c = r.randrange(5)
        if c == 0:
            rows[r.randrange(len(rows))] = rows[0]
        elif c == 1:
            j = r.randrange(len(rows))
            rows[j] = flip(r, rows[j], lambda x: r.choice([2, -1]))
        elif c == 2:
            rows = rows[:-1] or rows
        elif c == 3:
            rows = rows + [rows[0]]
        add("labeling", rows)
        m = r.randint(1, 8)
        s = [r.randrange(1 << m) for _ in range(r.randint(1, 12))]
        add("indices", m, flip(r, s, lambda x: r.choice([x, x, 1 << m, -1])))
        s = [r.randrange(2) for _ in range(m * r.randint(1, 5) + r.choice([0, 0, 0, 1]))]
        add("labels", m, flip(r, s, lambda x: r.choice([x, x, 2, -1])))
        add("qam", r.choice([k * k for k in range(1, 33)] + [k * k + r.choice([1, -1]) for k in range(2, 33)]))
        add("biorthogonal", r.randint(1, 64))
        add("crossqam", r.choice([1 << r.randint(3, 12), (1 << r.randint(5, 11)) + r.choice([1, -1]), 3 << r.randint(3, 8)]))
        # quantizers
        n = r.randint(2, 9)
        v = sorted(r.sample(range(-40, 40), 2 * n - 1))
        y, t = v[0::2], v[1::2]
        c = r.randrange(6)
        if c == 0:
            j = r.randrange(n - 1)
            t[j] = y[j + r.randrange(2)]
        elif c == 1:
            j = r.randrange(n - 1)
            y[j], y[j + 1] = y[j + 1], y[j]
        elif c == 2:
            t = t + [99]
        elif c == 3:
            t = t[:-1]
        add("scalar", y, t)
        add("uniform", r.choice([0, 1, 2, r.randint(2, 40)]), [r.choice([0, -1, 1, r.randint(1, 99)]), r.choice([1, 7, 100])])
        # source codes
        n, D = r.randint(2, 6), r.choice([8, 12, 100, 1000])
        w = lawof(r, n, D)
        if r.random() < .3:
            w = flip(r, w, lambda x: x + r.choice([1, -1, 2]) * max(1, D // 50))
        elif r.random() < .3:
            j, k = r.sample(range(n), 2)
            w[j], w[k] = w[j] + w[k] + 1, -1
        kb = r.choice([1, 1, 2, 0])
        add("huffman", w, D, kb, r.choice([0, 1, 0, 1, 2]), r.choice([0, 1, 0, 1, 3]))
        add("shannon", w, D, kb)
        add("fano", w, D, kb)
        add("tunstall", w, D, r.choice([-1, 0, 1, 2, 3, 4]))
        add("dms", w, D)
        rows = [lawof(r, n, D) for _ in range(r.choice([n, n, n - 1, n + 1]))]
        if r.random() < .4:
            j = r.randrange(len(rows))
            rows[j] = flip(r, rows[j], lambda x: x + r.choice([1, -1]) * max(1, D // 50))
        elif r.random() < .2:
            j = r.randrange(len(rows))
            rows[j] = flip(r, flip(r, lawof(r, n, D), lambda x: x), lambda x: -1)
        add("dmc", rows, D)
        add("markov", rows, D)
        x, y, k = r.randint(2, 4), r.randint(2, 4), r.randint(1, 2)
        keys = [[a] for a in range(x)] if k == 1 else [[a, b] for a in range(x) for b in range(x)]
        r.shuffle(keys)
        words = [[r.randrange(y) for _ in range(r.randint(1, 4))] for _ in keys]
        c = r.randrange(7)
        if c == 0:
            words[r.randrange(len(words))] = []
        elif c == 1:
            j = r.randrange(len(words))
            words[j] = flip(r, words[j], lambda v: r.choice([y, -1]))
        elif c == 2:
            keys, words = keys[:-1], words[:-1]
        elif c == 3:
            keys = keys[:-1] + [flip(r, keys[-1], lambda v: r.choice([x, -1]))]
        elif c == 4:
            keys, words = keys + [keys[0] + [0]], words + [[0]]
        add("fixedtovariable", x, y, k, keys, words)
        add("variabletofixed", x, y, k, keys, words)
        ws = [w_ for w_ in words]
        add("codewords", ws, r.choice([len(ws), x, x + 1]))
        add("sourcewords", ws, r.choice([2, 3, 1, x]))
        y, x, k = r.randint(2, 4), r.randint(2, 4), r.randint(1, 2)
        ls = [r.randint(1, 6) for _ in range(x**k)]
        while sum(y**-l for l in ls) > 1 and r.random() < .97:
            ls[r.randrange(len(ls))] += 1
        if max(ls) <= 12:
            add("lengths", flip(r, ls, lambda l: r.choice([l, l, l, l, l - 1, 0, -1])), r.choice([x, x, x + 1]), y)
        for kind in ("lz77", "lzss"):
            S, L = r.randint(1, 12), r.randint(1, 9)
            add(kind, r.choice([S, S, 0]), r.choice([L, L, 0]), r.choice([2, 5, 1]), r.choice([2, 3, 10, 1]), r.choice([-1, S, S + 1, S - 1]))
        # sequences and fields
        n = r.choice([1 << r.randint(0, 9), r.randint(2, 300)])
        add("walsh", n, r.choice([0, -1, n, n - 1, r.randrange(n)]), r.choice([0, 1, 0, 1, 3]))
        n = r.randint(2, 200)
        add("zadoffchu", n, r.choice([0, 1, n - 1, n, -1, r.randrange(n)]))
        add("barker", r.randint(1, 40))
        k = r.randint(1, 10)
        add("field", r.choice([k, k, k, k + 1, k - 1]), irr(r, k))
        add("dmsuniform", r.choice([0, -1, 1, r.randint(1, 50)]))
        x = r.choice([2, 3, 5, 10, 256])
        s = [r.randrange(x) for _ in range(r.randint(1, 40))]
        add("lzinput", r.randrange(4), x, flip(r, s, lambda v: r.choice([v, x, -1])))
        s = [r.randint(1, 30) for _ in range(r.randint(1, 12))]
        add("unary", flip(r, s, lambda v: r.choice([v, 0, -1])))
        add("fibonacci", flip(r, s, lambda v: r.choice([v, 1, 0, -1])))
        add("unarybits", flip(r, komm.UnaryCode().encode(s).tolist(), lambda v: r.choice([v, v, 1, 2, -1])))
        add("fibonaccibits", flip(r, komm.FibonacciCode().encode(s).tolist(), lambda v: r.choice([v, v, 0, 2, -1])))
        add("marcum", r.choice([0, 1, 2, 30, -1]), r.choice([0, 3, 9, -1]), r.choice([0, 4, 8, -1]))
        m = r.randint(1, 5)
        add("metrics", m, r.choice([r.randint(1, 4) << m, r.randint(1, 99)]))
        f = r.randint(1, 9)
        for kind in ("down", "up"):
            add(kind, r.randint(1, 30), r.choice([f, f, f, 0, -f]), r.choice([0, f - 1, f, -1, r.randrange(f)]))
        add("convolutional", 2, k := r.randint(1, 4), r.randint(k, 6), r.choice([-1, 1, 1, 2, 0]), r.choice([k, k, k, k + 1, max(1, k - 1)]))
    r.shuffle(reqs)
    put(ctx, "wide", reqs)
