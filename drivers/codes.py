"""C03-C06: fixed-to-variable, variable-to-fixed, designed and integer codes."""
import itertools

import numpy as np

import komm
from harness.drive import S_bool, S_int, S_ints, S_none, S_words, fx
from .lz import container

FX = fx(10000)


def digits(x, b, w):
    out = []
    for _ in range(w):
        out.append(x % b)
        x //= b
    return out[::-1]


def rand_word(r, q, lmax):
    return tuple(r.randrange(q) for _ in range(r.randint(1, lmax)))


def prefix_free_set(r, q, n, full=False):
    """random prefix-free set of n words by splitting leaves (a complete tree when full)"""
    leaves = [(s,) for s in range(q)]
    while len(leaves) < n or (not full and r.random() < 0.3):
        w = leaves.pop(r.randrange(len(leaves)))
        leaves += [w + (s,) for s in range(q)]
        if len(leaves) > 40:
            break
    r.shuffle(leaves)
    return leaves[:] if full else leaves[:n]


def some_words(r, q, n):
    """list of n words of one of several structures"""
    t = r.randrange(6)
    if t == 0:
        return [rand_word(r, q, 4) for _ in range(n)]
    if t == 1:
        return prefix_free_set(r, q, n)
    if t == 2:   # suffix free: reversed prefix free (uniquely decodable, not prefix free)
        return [w[::-1] for w in prefix_free_set(r, q, n)]
    if t == 3:   # comma-like: 0, 01, 011, ...
        return [(0,) + (1,) * j for j in range(n)]
    if t == 4:   # products of a base set: often ambiguous only after several words
        base = [rand_word(r, q, 2) for _ in range(3)]
        return [r.choice(base) + (r.choice(base) if r.random() < 0.6 else ()) + (r.choice(base) if r.random() < 0.3 else ()) for _ in range(n)]
    ws = prefix_free_set(r, q, n)
    j = r.randrange(n)
    ws[j] = ws[r.randrange(n)] + ws[j] if r.random() < 0.5 else ws[j][:-1] or ws[j]
    return ws


# uniquely decodable / ambiguous only through long dangling-suffix chains
CHAINS = [
    [(0,), (0, 1), (1, 1)], [(0, 1), (0, 1, 1, 1), (1, 1, 1, 1, 0), (1, 1, 0)],
    [(1, 0), (0, 0), (1, 1), (1, 1, 0)], [(1,), (0, 1, 1), (0, 1, 1, 1, 0), (1, 1, 1, 0), (1, 0, 0, 1, 1)],
    [(0, 1), (0, 1, 0, 1, 1, 0), (1, 0, 1, 1), (1, 0, 0, 1)], [(0, 0, 0), (0, 0, 0, 0, 0)], [(0, 0), (0, 0, 0)],
    [(0,), (0, 0, 1), (1, 0, 1), (1, 1)], [(0, 0, 1), (0, 1, 1), (1, 0, 0), (0, 0, 1, 0, 1, 1, 1, 0, 0)],
    [(0, 1, 0), (0, 0, 0, 1), (0, 1, 1, 0), (1, 1, 0, 0), (0, 0, 0, 1, 1), (0, 0, 1, 1, 0), (1, 1, 1, 1, 0), (1, 0, 1, 0, 1, 1)],
    [(0,), (1, 0), (1, 0, 1, 1, 1)], [(0,), (0, 1, 0), (1, 0, 1)], [(1, 1, 1, 0), (1, 1), (0, 1, 1), (0, 0, 1, 1)],
    [(0, 1, 2), (0, 1), (2, 0, 1)], [(0,), (2, 0), (0, 2, 0, 0, 2)], [(1, 2), (2, 1), (1, 2, 2), (2, 1, 1)],
    [(0, 1, 0, 1, 0), (0, 1), (1, 0, 1, 0, 1, 0)], [(1, 0, 1), (0, 1, 0), (1, 0), (1, 0, 1, 0, 1, 1)],
]


def check_fv(ctx, code, s, words, X, Y, k, basic=True):
    r = ctx.rng
    if basic:
        s.call("X", lambda: code.source_cardinality, S_int)
        s.call("Y", lambda: code.target_cardinality, S_int)
        s.call("k", lambda: code.source_block_size, S_int)
        s.call("size", lambda: code.size, S_int)
        s.call("words", lambda: code.codewords, S_words)
        s.call("lengths", lambda: code.lengths, S_ints)
        s.call("fvmap", lambda: code.enc_mapping, lambda m: [[S_ints(list(a)), S_ints(list(b))] for a, b in m.items()])
    s.call("kraft", lambda: code.kraft_parameter(), FX)
    ops = [lambda: s.call("ud", lambda: code.is_uniquely_decodable(), S_bool),
           lambda: s.call("pf", lambda: code.is_prefix_free(), S_bool)]
    r.shuffle(ops)
    for o in ops:
        o()
    w, T = weights(r, X, k, zeros=True)
    s.call("fvrate", lambda: code.rate(pmf_of(w, T)), FX, w=w, T=T)
    for _ in range(3):
        nb = r.choice([0, 1, 2, 3, 5, 9, 20])
        m = [r.randrange(X) for _ in range(k * nb)]
        bad = r.random()
        if bad < 0.08 and k > 1:
            m = m + [0]
        elif bad < 0.14 and m:
            m[r.randrange(len(m))] = X
        ok, e = s.call("fvenc", lambda: code.encode(container(ctx, m, X)), S_ints, x=m)
        if ok:
            bits = [int(b) for b in e]
            s.call("fvdec", lambda: code.decode(container(ctx, bits, Y)), S_ints, x=bits)
            if bits and r.random() < 0.5:
                b2 = bits[:-1] if r.random() < 0.5 else bits[: r.randrange(len(bits))] + [r.randrange(Y)]
                s.call("fvdec", lambda: code.decode(b2), S_ints, x=b2)
    bits = [r.randrange(Y) for _ in range(r.randint(0, 14))]
    s.call("fvdec", lambda: code.decode(container(ctx, bits, Y)), S_ints, x=bits)


def weights(r, X, k, zeros=False, T=None):
    """integer weights w of sum T (a power of two, so the floats are exact)"""
    T = T or r.choice({1: [8, 16, 64, 256], 2: [8, 16, 64], 3: [8, 16]}.get(k, [8]))
    while T < X:
        T *= 2
    w = [0 if zeros else 1] * X
    style = r.randrange(3)
    hot = r.randrange(X)
    for _ in range(T - sum(w)):
        j = r.randrange(X) if style == 0 or r.random() < 0.3 else hot if style == 1 else min(X - 1, int(r.expovariate(0.7)))
        w[j] += 1
    return w, T


def pmf_of(w, T):
    return [x / T for x in w]


def fv_random(ctx, what=None):
    r = ctx.rng
    for _ in range(ctx.n(260, 1500)):
        X, k = r.choice([(2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (2, 2), (3, 2), (2, 3), (8, 1)])
        Y = r.choice([2, 2, 2, 3, 4])
        words = some_words(r, Y, X**k)
        fv_session(ctx, words, X, k, "rand")
    for words in CHAINS:
        fv_session(ctx, list(words), len(words), 1, "chain")
        q = 1 + max(max(w) for w in words)
        for _ in range(ctx.n(2, 8)):
            perm = list(range(q))
            r.shuffle(perm)
            ws = [tuple(perm[x] for x in w) for w in words]
            r.shuffle(ws)
            if r.random() < 0.5:
                ws = [w[::-1] for w in ws]
            fv_session(ctx, ws, len(ws), 1, "chain")


def overlaid(r, q, L, cuts):
    """pieces of one random string under two disjoint sets of cuts: ambiguous only through the whole string"""
    s = tuple(r.randrange(q) for _ in range(L))
    marks = r.sample(range(1, L), min(L - 1, cuts))
    h = max(1, len(marks) // 2)
    out = []
    for cut in (sorted(marks[:h]), sorted(marks[h:])):
        b = [0] + cut + [L]
        out += [s[x:y] for x, y in zip(b, b[1:])]
    return list(dict.fromkeys(out))


def fv_chains(ctx):
    """few words, long words: ambiguities (or their absence) that show only after many dangling suffixes; codewords of tens to hundreds of symbols"""
    r = ctx.rng
    for j in range(ctx.n(260, 2500)):
        t = j % 5
        q = r.choice([2, 2, 3])
        if t == 0:
            words = list({rand_word(r, 2, r.choice([6, 12, 14])) for _ in range(r.choice([2, 2, 3, 4]))})
        elif t == 1:
            words = overlaid(r, q, r.randint(6, 40), r.choice([2, 3, 4, 6, 8]))
            if r.random() < 0.5:    # spoil it
                x = list(words.pop(r.randrange(len(words))))
                x[r.randrange(len(x))] ^= 1
                words.append(tuple(x))
        elif t == 2:                # runs: arithmetic of the run lengths decides
            a, b = r.randint(2, 15), r.randint(1, 15)
            words = [(0,) * a, (0,) * b + (1,), r.choice([(1,), (1,) + (0,) * r.randint(1, 9), (0, 1), (1, 1)])]
            if r.random() < 0.4:
                words.append((1,) + (0,) * r.randint(0, 9) + (1,))
        elif t == 3:                # powers of one word with a border
            u = rand_word(r, 2, 3)
            words = [u * r.randint(1, 4), u * r.randint(1, 5) + rand_word(r, 2, 2), rand_word(r, 2, 2) + u * r.randint(1, 4), rand_word(r, 2, 3)]
        else:                       # very long codewords of a prefix-free code
            m = r.choice([20, 40, 65, 100, 140, 260])
            words = [(1,) * a + (0,) for a in sorted(r.sample(range(m), r.randint(1, 5)))] + [(1,) * m + tuple(r.randrange(2) for _ in range(r.randint(0, 9)))]
        words = list(dict.fromkeys(words))
        r.shuffle(words)
        if len(words) < 2 or max(max(w) for w in words) < 1:
            continue
        s = ctx.session(f"chains{t}", words=[list(w) for w in words], X=len(words), Y=1 + max(max(w) for w in words), k=1)
        ok, code = s.call("new", lambda: komm.FixedToVariableCode.from_codewords(words), S_none)
        if ok:
            s.call("ud", lambda: code.is_uniquely_decodable(), S_bool)
            s.call("pf", lambda: code.is_prefix_free(), S_bool)
            m = [r.randrange(len(words)) for _ in range(r.randint(1, 7))]
            ok, e = s.call("fvenc", lambda: code.encode(m), S_ints, x=m)
            if ok:
                b = [int(x) for x in e]
                s.call("fvdec", lambda: code.decode(b), S_ints, x=b)
                b = b[:-1]
                s.call("fvdec", lambda: code.decode(b), S_ints, x=b)
        s.end()


def fv_session(ctx, words, X, k, kind):
    r = ctx.rng
    if 1 + max(max(w) for w in words) < 2:
        words = words[:-1] + [words[-1][:-1] + (1,)]
    Yinf = 1 + max(max(w) for w in words)
    how = r.randrange(4)
    Y = Yinf if how < 2 else max(2, Yinf) + r.choice([0, 0, 1])
    s = ctx.session(f"{kind}-X{X}-k{k}-Y{Y}-how{how}", words=[list(w) for w in words], X=X, Y=Y, k=k)
    blocks = [tuple(digits(a, X, k)) for a in range(X**k)]
    pairs = list(zip(blocks, words))

    def build():
        if how == 0:
            return komm.FixedToVariableCode.from_codewords(words, source_cardinality=X)
        r.shuffle(pairs)
        if how == 1:
            return komm.FixedToVariableCode.from_enc_mapping(dict(pairs))
        return komm.FixedToVariableCode(X, Y, k, dict(pairs))
    ok, code = s.call("new", build, S_none)
    if ok:
        check_fv(ctx, code, s, words, X, Y, k)
    s.end()


def fv_small(ctx):
    """every list of up to 3 short binary words (up to order)"""
    r = ctx.rng
    ws = [w for n in (1, 2, 3) for w in itertools.product((0, 1), repeat=n)]
    for a in itertools.combinations_with_replacement(range(len(ws)), 3):
        if r.random() < ctx.n(0.5, 0.0):
            continue
        words = [ws[j] for j in a]
        if 1 + max(max(w) for w in words) < 2:
            continue
        s = ctx.session("small", words=[list(w) for w in words], X=3, Y=2, k=1)
        ok, code = s.call("new", lambda: komm.FixedToVariableCode.from_codewords(words), S_none)
        if ok:
            s.call("ud", lambda: code.is_uniquely_decodable(), S_bool)
            s.call("pf", lambda: code.is_prefix_free(), S_bool)
            m = [r.randrange(3) for _ in range(6)]
            s.call("fvenc", lambda: code.encode(m), S_ints, x=m)
            b = [r.randrange(2) for _ in range(6)]
            s.call("fvdec", lambda: code.decode(b), S_ints, x=b)
        s.end()
    for n in (4, 5):
        for _ in range(ctx.n(150, 900)):
            words = [r.choice(ws[:10]) if r.random() < 0.7 else rand_word(r, 2, 5) for _ in range(n)]
            if max(max(w) for w in words) < 1:
                continue
            s = ctx.session("small", words=[list(w) for w in words], X=n, Y=2, k=1)
            ok, code = s.call("new", lambda: komm.FixedToVariableCode.from_codewords(words), S_none)
            if ok:
                s.call("ud", lambda: code.is_uniquely_decodable(), S_bool)
                s.call("pf", lambda: code.is_prefix_free(), S_bool)
            s.end()


def fv_lengths(ctx):
    """canonical codes from lengths, and refused definitions"""
    r = ctx.rng
    for _ in range(ctx.n(150, 900)):
        X, k = r.choice([(2, 1), (3, 1), (4, 1), (5, 1), (7, 1), (2, 2), (2, 3), (3, 2)])
        Y = r.choice([2, 2, 3, 4])
        lens = [r.randint(1, r.choice([3, 5, 6])) for _ in range(X**k)]
        m = max(lens)
        fits = sum(Y ** (m - l) for l in lens) <= Y**m
        try_ok = fits
        if not fits and r.random() < 0.6:
            while sum(Y ** (max(lens) - l) for l in lens) > Y ** max(lens):
                j = r.randrange(len(lens))
                lens[j] += 1
            try_ok = True
        if not try_ok:
            s = ctx.session("kraft-violated", words=[], X=X, Y=Y, k=k)
            s.call("badnew", lambda: komm.FixedToVariableCode.from_lengths(lens, source_cardinality=X, target_cardinality=Y), S_none, l=lens)
            s.end()
            continue
        ok, code, words = False, None, []
        s = ctx.session(f"lengths-X{X}-k{k}-Y{Y}", words=[], X=X, Y=Y, k=k)
        ok, code = s.call("new", lambda: komm.FixedToVariableCode.from_lengths(container(ctx, lens, 100), source_cardinality=X, target_cardinality=Y), S_none)
        if ok:
            okw, w = s.call("canonical", lambda: code.codewords, S_words, l=lens)
            if okw:
                s.d["words"] = [[int(x) for x in a] for a in w]
                check_fv(ctx, code, s, s.d["words"], X, Y, k)
        s.end()
    F = komm.FixedToVariableCode
    bad = [
        lambda: F(2, 2, 1, {(0,): (0,)}), lambda: F(2, 2, 1, {(0,): (0,), (1,): (2,)}),
        lambda: F(2, 2, 1, {(0,): (0,), (1,): (1,), (2,): (1, 1)}), lambda: F(1, 2, 1, {(0,): (0,)}),
        lambda: F(2, 1, 1, {(0,): (0,), (1,): (0, 0)}), lambda: F(2, 2, 2, {(0,): (0,), (1,): (1,)}),
        lambda: F(2, 2, 1, {(0,): (), (1,): (1,)}), lambda: F(2, 2, 1, {(0,): (-1,), (1,): (1,)}),
        lambda: F(2, 2, 0, {(): (0,)}), lambda: F.from_codewords([(0,), (1, 0), (1, 1)], source_cardinality=2),
        lambda: F.from_codewords([(), (1,)]), lambda: F.from_codewords([(0,), (1,), (0, 1), (1, 0), (0, 0, 1)], source_cardinality=2),
        lambda: F.from_lengths([1, 2, 0]), lambda: F.from_lengths([1, 1, 1]), lambda: F.from_lengths([1, 2, 3], source_cardinality=2),
        lambda: F.from_lengths([2, 2, 2, 2, 2]), lambda: F.from_lengths([1, 2, 3, 3, 5]), lambda: F.from_lengths([1, 1, 2], target_cardinality=2),
        lambda: F.from_lengths([1, 1, 1, 2], target_cardinality=3),
    ]
    for j, f in enumerate(bad):
        s = ctx.session(f"bad{j}", words=[], X=2, Y=2, k=1)
        s.call("badnew", f, S_none)
        s.end()


# ---------------------------------------------------------------------------- C04
def vf_session(ctx, words, q, Y, n, kind, code_fn, w=None, T=None, design=None, twords=None):
    r = ctx.rng
    tw = twords or [digits(a, Y, n) for a in range(len(words))]
    s = ctx.session(kind, words=[list(x) for x in words], twords=[list(x) for x in tw], X=q, Y=Y, n=n)
    ok, code = s.call("new", code_fn, S_none)
    if ok:
        s.call("X", lambda: code.source_cardinality, S_int)
        s.call("Y", lambda: code.target_cardinality, S_int)
        s.call("n", lambda: code.target_block_size, S_int)
        s.call("size", lambda: code.size, S_int)
        s.call("words", lambda: code.sourcewords, S_words)
        s.call("lengths", lambda: code.lengths, S_ints)
        s.call("vfmap", lambda: code.dec_mapping, lambda m: [[S_ints(list(a)), S_ints(list(b))] for a, b in m.items()])
        ops = [lambda: s.call("fc", lambda: code.is_fully_covering(), S_bool),
               lambda: s.call("ue", lambda: code.is_uniquely_encodable(), S_bool),
               lambda: s.call("pf", lambda: code.is_prefix_free(), S_bool)]
        r.shuffle(ops)
        for o in ops:
            o()
        D = max(len(x) for x in words)
        TT = 2 if D > 5 else 4 if D > 3 else 8
        if q <= TT and D <= 9 and n * TT**D * 10000 < 2**30 * 1.5 and len(words) * D * TT**D < 2**17:
            ww, _ = weights(r, q, 1, T=TT)
            s.call("vfrate", lambda: code.rate(pmf_of(ww, TT)), FX, w=ww, T=TT)
        for _ in range(4):
            m = [r.randrange(q) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 14, 30]))]
            if r.random() < 0.4:   # a message that ends exactly at a word boundary
                m = [x for _ in range(r.randint(0, 6)) for x in r.choice(words)]
            ok, e = s.call("vfenc", lambda: code.encode(container(ctx, m, q)), S_ints, x=m)
            if ok:
                t = [int(b) for b in e]
                s.call("vfdec", lambda: code.decode(container(ctx, t, Y)), S_ints, x=t)
                if t and r.random() < 0.3:
                    t2 = t[:-1]
                    s.call("vfdec", lambda: code.decode(t2), S_ints, x=t2)
        t = [r.randrange(Y) for _ in range(n * r.randint(0, 5))]
        s.call("vfdec", lambda: code.decode(t), S_ints, x=t)
    s.end()


def vf_random(ctx):
    r = ctx.rng
    for _ in range(ctx.n(300, 1800)):
        q = r.choice([2, 2, 2, 3, 4])
        Y = r.choice([2, 2, 3, 4])
        t = r.randrange(5)
        if t <= 1:
            words = prefix_free_set(r, q, r.randint(q, 10), full=True)
        elif t == 2:
            words = prefix_free_set(r, q, r.randint(q, 10), full=True)
            if r.random() < 0.5 and len(words) > 2:
                words.pop(r.randrange(len(words)))
            else:
                words.append(r.choice(words) + (r.randrange(q),))
        elif t == 3:
            words = list({rand_word(r, q, 3) for _ in range(r.randint(2, 9))})
            words.sort()
            r.shuffle(words)
        else:
            words = [w[::-1] for w in prefix_free_set(r, q, r.randint(q, 8), full=True)]
        if max(max(w) for w in words) < 1:
            continue
        qq = 1 + max(max(w) for w in words)
        n = next(n for n in range(1, 20) if Y**n >= len(words))
        how = r.randrange(3)
        if how == 0:
            vf_session(ctx, words, qq, Y, n, f"src-q{qq}-Y{Y}", lambda: komm.VariableToFixedCode.from_sourcewords(words, target_cardinality=Y))
        else:
            n2 = n + r.choice([0, 0, 1])
            tw = r.sample(list(itertools.product(range(Y), repeat=n2)), len(words))
            qd = qq + r.choice([0, 0, 0, 1])
            if how == 1 and any(Y - 1 in t for t in tw):
                vf_session(ctx, words, qq, Y, n2, f"map-q{qq}-Y{Y}", lambda: komm.VariableToFixedCode.from_dec_mapping(dict(zip(tw, words))), twords=tw)
            else:
                vf_session(ctx, words, qd, Y, n2, f"new-q{qd}-Y{Y}", lambda: komm.VariableToFixedCode(Y, qd, n2, dict(zip(tw, words))), twords=tw)
    V = komm.VariableToFixedCode
    bad = [lambda: V(2, 2, 1, {(2,): (0,)}), lambda: V(2, 2, 1, {(0,): (2,)}), lambda: V(2, 2, 1, {(0, 1): (0,)}), lambda: V(2, 2, 1, {(0,): (), (1,): (1,)}),
           lambda: V(1, 2, 1, {(0,): (0,)}), lambda: V(2, 1, 1, {(0,): (0,)}), lambda: V(2, 2, 0, {(): (0,)}), lambda: V.from_sourcewords([(), (1,)]),
           lambda: V.from_sourcewords([(0,), (1,)], target_cardinality=1), lambda: V(2, 2, 1, {(0,): (-1,), (1,): (1,)}),
           lambda: komm.TunstallCode([0.5, 0.25, 0.25], 1), lambda: komm.TunstallCode([0.5, 0.5, 0.25], 3)]
    for j, f in enumerate(bad):
        s = ctx.session(f"bad{j}", words=[], twords=[], X=2, Y=2, n=1)
        s.call("badnew", f, S_none)
        s.end()


def vf_long(ctx):
    """complete dictionaries with long source words (combs and other skewed trees): messages that stop anywhere inside a word"""
    r = ctx.rng
    for _ in range(ctx.n(60, 600)):
        q, Y = r.choice([2, 2, 2, 3, 4]), r.choice([2, 2, 3])
        depth = r.choice([8, 12, 15, 16, 17, 18, 24, 31, 33, 40, 63, 65, 90])
        leaves, spine, side = [], (), r.choice([None, 0, q - 1])
        for _ in range(depth):
            c = r.randrange(q) if side is None else side
            rest = [spine + (x,) for x in range(q) if x != c]
            if r.random() < 0.1:    # a small tree hanging off the spine
                w = rest.pop(r.randrange(len(rest)))
                rest += [w + (x,) for x in range(q)]
            leaves += rest
            spine += (c,)
        leaves.append(spine)
        words = leaves[:]
        r.shuffle(words)
        n = next(n for n in range(1, 20) if Y**n >= len(words))
        if r.random() < 0.5:
            tw = None
            make = lambda: komm.VariableToFixedCode.from_sourcewords(words, target_cardinality=Y)
        else:
            tw = r.sample(list(itertools.product(range(Y), repeat=n)), len(words))
            make = lambda: komm.VariableToFixedCode(Y, q, n, dict(zip(tw, words)))
        s = ctx.session(f"long-q{q}-d{depth}", words=[list(x) for x in words], twords=[list(x) for x in (tw or [digits(a, Y, n) for a in range(len(words))])], X=q, Y=Y, n=n)
        ok, code = s.call("new", make, S_none)
        if ok:
            s.call("vfmap", lambda: code.dec_mapping, lambda m: [[S_ints(list(a)), S_ints(list(b))] for a, b in m.items()])
            s.call("fc", lambda: code.is_fully_covering(), S_bool)
            s.call("ue", lambda: code.is_uniquely_encodable(), S_bool)
            s.call("pf", lambda: code.is_prefix_free(), S_bool)
            for _ in range(8):
                m = [x for _ in range(r.randint(0, 4)) for x in r.choice(words)] + list(r.choice([spine, r.choice(words)]))
                if r.random() < 0.9:   # stop inside the last word, often near its end
                    m = m[:len(m) - r.choice([1, 1, 2, 3, r.randrange(0, depth)])] if len(m) > depth else m[:-1]
                ok, e = s.call("vfenc", lambda: code.encode(container(ctx, m, q)), S_ints, x=m)
                if ok:
                    t = [int(b) for b in e]
                    s.call("vfdec", lambda: code.decode(container(ctx, t, Y)), S_ints, x=t)
        s.end()


def tunstall(ctx):
    r = ctx.rng
    for _ in range(ctx.n(160, 900)):
        q = r.choice([2, 2, 3, 3, 4, 5, 6, 8])
        nmin = next(n for n in range(1, 9) if 2**n >= q)
        n = r.randint(nmin, nmin + 2) if q > 2 else r.randint(1, 4)
        depth = max(1, (2**n - 1) // (q - 1))
        T = r.choice([8, 16, 64])
        D = 0
        for b in (6, 5, 4, 3, 2, 1):
            if depth * b <= 27 and 2**b >= q:
                T, D = 2**b, depth
                break
        else:
            T = 16
        while T < q:
            T *= 2
        w, T = weights(r, q, 1, zeros=r.random() < 0.2, T=T)
        pmf = pmf_of(w, T)
        default = n == nmin and r.random() < 0.5
        s = ctx.session(f"tunstall-q{q}-n{n}", words=[], twords=[], X=q, Y=2, n=n, w=w, T=T, D=D)
        ok, code = s.call("new", lambda: komm.TunstallCode(pmf) if default else komm.TunstallCode(pmf, n), S_none)
        if ok:
            ok, mp = ctx.call(lambda: [(list(map(int, a)), list(map(int, b))) for a, b in code.dec_mapping.items()], S_none)[:2]
            if ok:
                s.d["twords"] = [a for a, _ in mp]
                s.d["words"] = [b for _, b in mp]
                s.note("tunstall")
                s.call("X", lambda: code.source_cardinality, S_int)
                s.call("Y", lambda: code.target_cardinality, S_int)
                s.call("n", lambda: code.target_block_size, S_int)
                s.call("size", lambda: code.size, S_int)
                s.call("fc", lambda: code.is_fully_covering(), S_bool)
                s.call("ue", lambda: code.is_uniquely_encodable(), S_bool)
                s.call("pf", lambda: code.is_prefix_free(), S_bool)
                for _ in range(3):
                    m = [r.choices(range(q), weights=[x + 0.2 for x in w])[0] for _ in range(r.choice([0, 1, 2, 3, 7, 15, 40]))]
                    ok, e = s.call("vfenc", lambda: code.encode(container(ctx, m, q)), S_ints, x=m)
                    if ok:
                        t = [int(b) for b in e]
                        s.call("vfdec", lambda: code.decode(container(ctx, t, 2)), S_ints, x=t)
        s.end()


def tunstall_deep(ctx):
    """large dictionaries, judged by completeness and the exchange condition on exact word probabilities"""
    r = ctx.rng
    for j in range(ctx.n(14, 60)):
        q = r.choice([2, 2, 3, 3, 4, 7])
        n = (10 if q > 2 else 11) if j == 0 else r.choice([5, 6, 7, 8, 9] if j % 4 else [9, 10])
        if q == 7 and n < 4:
            n = 4
        T = r.choice([10, 64, 100, 1000])
        w, T = weights(r, q, 1, T=T)
        if j % 3 == 0:      # skewed: long words
            w = [1] * (q - 1)
            w.append(T - sum(w))
            n = min(n, 7)
        r.shuffle(w)
        s = ctx.session(f"deep-q{q}-n{n}", words=[], twords=[], X=q, Y=2, n=n, w=w, T=T)
        ok, code = s.call("new", lambda: komm.TunstallCode(np.array(w) / T, n), S_none)
        if ok:
            ok, mp = ctx.call(lambda: [list(map(int, b)) for b in code.sourcewords], S_none)[:2]
            if ok:
                s.d["words"] = mp
                s.note("tundeep")
        s.end()


# ---------------------------------------------------------------------------- C05
def wide(ctx):
    """designs with tens to hundreds of source blocks"""
    r = ctx.rng
    for j in range(ctx.n(10, 60)):
        X, k = r.choice([(40, 1), (70, 1), (130, 1), (200, 1), (2, 7), (3, 4), (9, 2), (2, 6)])
        if k == 1:
            T = 2**20
            w = [r.randint(1, 2 * T // X) for _ in range(X)] if j % 2 else [1 + int(T / X * r.expovariate(1)) for _ in range(X)]
            w[w.index(max(w))] += T - sum(w)
            if min(w) < 1:
                continue
        else:
            w, T = weights(r, X, 1, T={7: 8, 6: 16, 4: 64, 2: 4096}[k])
        p = pmf_of(w, T)
        pol, asg = r.choice(["high", "low"]), r.choice(["tree", "canonical"])
        design_session(ctx, f"hwide-{pol}-X{X}-k{k}", w, T, X, k, lambda: komm.HuffmanCode(p, k, pol, asg), ["huffman"])
        design_session(ctx, f"swide-X{X}-k{k}", w, T, X, k, lambda: komm.ShannonCode(p, k), ["shannon"])
        if k == 1 and X <= 70:
            design_session(ctx, f"fwide-X{X}", w, T, X, k, lambda: komm.FanoCode(p, k), ["fano"])


def design_session(ctx, name, w, T, X, k, make, extra=()):
    r = ctx.rng
    s = ctx.session(name, words=[], X=X, Y=2, k=k, w=w, T=T)
    ok, code = s.call("new", make, S_none)
    if ok:
        ok, cw = ctx.call(lambda: [list(map(int, x)) for x in code.codewords], S_none)[:2]
        if ok:
            s.d["words"] = cw
            s.note("design-basic")
            for op in extra:
                s.note(op)
            s.call("fvmap", lambda: code.enc_mapping, lambda m: [[S_ints(list(a)), S_ints(list(b))] for a, b in m.items()])
            s.call("X", lambda: code.source_cardinality, S_int)
            s.call("k", lambda: code.source_block_size, S_int)
            s.call("ud", lambda: code.is_uniquely_decodable(), S_bool)
            s.call("pf", lambda: code.is_prefix_free(), S_bool)
            if T**k <= 4096 and max(map(len, cw), default=0) * T**k * k < 10**5:
                s.call("fvrate", lambda: code.rate(pmf_of(w, T)), FX, w=w, T=T)
            for _ in range(2):
                m = [r.randrange(X) for _ in range(k * r.choice([0, 1, 3, 8]))]
                ok, e = s.call("fvenc", lambda: code.encode(container(ctx, m, X)), S_ints, x=m)
                if ok:
                    b = [int(t) for t in e]
                    s.call("fvdec", lambda: code.decode(container(ctx, b, 2)), S_ints, x=b)
        else:
            s.call("new", lambda: code.codewords, S_words)
    s.end()


def designed(ctx, which):
    r = ctx.rng
    for _ in range(ctx.n(170, 1000)):
        X, k = r.choice([(2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (8, 1), (11, 1), (16, 1), (2, 2), (2, 3), (3, 2), (4, 2), (2, 4), (2, 5)])
        T = 8 if k >= 4 else None
        if which == "huffman":
            w, T = weights(r, X, k, zeros=r.random() < 0.3, T=T)
            p = pmf_of(w, T)
            pol, asg = r.choice(["high", "low"]), r.choice(["tree", "canonical"])
            design_session(ctx, f"huffman-{pol}-{asg}-X{X}-k{k}", w, T, X, k,
                           lambda: komm.HuffmanCode(p, k, policy=pol, assignment=asg) if r.random() < 0.9 else komm.HuffmanCode(np.array(p), source_block_size=k, policy=pol, assignment=asg),
                           ["huffman"] + (["iscanonical"] if asg == "canonical" else []))
        elif which == "shannon":
            w, T = weights(r, X, k, T=T)
            p = pmf_of(w, T)
            design_session(ctx, f"shannon-X{X}-k{k}", w, T, X, k, lambda: komm.ShannonCode(p, k), ["shannon"])
        else:
            if X**k > 16:
                X, k = 3, 2
            w, T = weights(r, X, k, zeros=r.random() < 0.2, T=T)
            if sum(1 for x in w if x == 0) > 2:   # many zero-weight ties: too many equivalent splits
                w, T = weights(r, X, k, T=T)
            if X > 8 and len(set(w)) < 4:
                X, k = 5, 1
                w, T = weights(r, X, k)
            p = pmf_of(w, T)
            design_session(ctx, f"fano-X{X}-k{k}", w, T, X, k, lambda: komm.FanoCode(p, k), ["fano"])


def fine(ctx):
    """fine-grained probabilities: near ties, near powers of two, geometric tails (all exact in double precision)"""
    r = ctx.rng
    for j in range(ctx.n(150, 900)):
        n, kind = r.choice([2, 3, 4, 4, 5, 6, 8]), j % 5
        T = 2**r.choice([24, 28])
        if kind == 0:      # near ties
            w = [T // n + r.randint(-9, 9) for _ in range(n)]
        elif kind == 1:    # near powers of two
            w, rest = [], T
            for _ in range(n - 1):
                rest //= 2
                w.append(max(1, rest + r.choice([-3, -1, 0, 1, 2])))
            w.append(1)
        elif kind == 2:    # geometric and Fibonacci tails, deep trees
            n = r.choice([6, 10, 14])
            w = [1, 1]
            while len(w) < n:
                w.append(w[-1] + w[-2] + r.choice([-1, 0, 0, 1]) if j % 2 else 2 * w[-1] + r.choice([0, 0, 1]))
        elif kind == 3:    # a few large and many tiny ones
            w = [r.randint(1, 30) for _ in range(n)] + [T // 4 + r.randint(-5, 5) for _ in range(2)]
        else:
            w = [r.randint(1, T // n) for _ in range(n)]
        w[r.randrange(len(w))] += T - sum(w) if sum(w) <= T else 0
        if sum(w) != T or min(w) < 1:
            k = max(range(len(w)), key=lambda a: w[a])
            w[k] += T - sum(w)
            if w[k] < 1:
                continue
        r.shuffle(w)
        k = 1
        if r.random() < .2:      # block extension of a skewed binary or ternary source
            T, k = 2**12, 2
            a = r.randint(1, 500)
            w = r.choice([[a, T - a], [a, r.randint(1, 900), 0]])
            if len(w) == 3:
                w[2] = T - w[0] - w[1]
        p, X = pmf_of(w, T), len(w)
        pol, asg = r.choice(["high", "low"]), r.choice(["tree", "canonical"])
        design_session(ctx, f"hfine-{pol}-{asg}", w, T, X, k, lambda: komm.HuffmanCode(p, k, pol, asg), ["huffman"])
        design_session(ctx, "sfine", w, T, X, k, lambda: komm.ShannonCode(p, k), ["shannon"])
        if X**k <= 8:
            design_session(ctx, "ffine", w, T, X, k, lambda: komm.FanoCode(p, k), ["fano"])


def huffman(ctx):
    designed(ctx, "huffman")


def huffman_small(ctx):
    """all weight vectors over small totals, both policies, both assignments"""
    for n, T in ((2, 8), (3, 8), (4, 8), (5, 8)):
        for w in itertools.product(range(T + 1), repeat=n):
            if sum(w) != T or (n >= 4 and ctx.rng.random() < ctx.n(0.8, 0.2)):
                continue
            pol, asg = ctx.rng.choice(["high", "low"]), ctx.rng.choice(["tree", "canonical"])
            design_session(ctx, f"hsmall-{pol}-{asg}", list(w), T, n, 1, lambda: komm.HuffmanCode(pmf_of(w, T), 1, pol, asg),
                           ["huffman"] + (["iscanonical"] if asg == "canonical" else []))
            if n <= 4:
                design_session(ctx, "fsmall", list(w), T, n, 1, lambda: komm.FanoCode(pmf_of(w, T)), ["fano"])
                if min(w) > 0:
                    design_session(ctx, "ssmall", list(w), T, n, 1, lambda: komm.ShannonCode(pmf_of(w, T)), ["shannon"])
    for j, f in enumerate([lambda: komm.HuffmanCode([0.5, 0.25]), lambda: komm.HuffmanCode([0.5, 0.5], 0), lambda: komm.HuffmanCode([0.5, 0.5], policy="x"),
                           lambda: komm.HuffmanCode([0.5, 0.5], assignment="x"), lambda: komm.HuffmanCode([1.5, -0.5]), lambda: komm.ShannonCode([0.5, 0.5, 0.0]),
                           lambda: komm.ShannonCode([0.5, 0.5], 0), lambda: komm.FanoCode([0.75, 0.5]), lambda: komm.FanoCode([0.5, 0.5], 0)]):
        s = ctx.session(f"bad{j}", words=[], X=2, Y=2, k=1)
        s.call("badnew", f, S_none)
        s.end()


def shannon(ctx):
    designed(ctx, "shannon")


def fano(ctx):
    designed(ctx, "fano")


# ---------------------------------------------------------------------------- C06
def limbs(x):
    return [x // 10**9, x % 10**9]


def S_limbs(v):
    v = np.asarray(v)
    if v.ndim != 1:
        raise ValueError("shape")
    return [limbs(int(x)) for x in v.tolist()]


def int_session(ctx, kind, xs, seqs):
    code = komm.FibonacciCode() if kind == "fib" else komm.UnaryCode()
    s = ctx.session(kind, kind=kind)
    low = 1 if kind == "fib" else 0
    big = any(x >= 2**31 for x in xs)
    c = container(ctx, xs, 2**20) if not big else (list(xs) if ctx.rng.random() < 0.5 else np.array(xs, dtype=np.int64))
    rej = any(x < low for x in xs)
    ok, e = s.call("encode", lambda: code.encode(c), S_ints, x=[limbs(max(x, 0)) for x in xs], reject=rej)
    if ok and not rej:
        b = [int(t) for t in e]
        s.call("decode", lambda: code.decode(container(ctx, b, 2)), S_limbs, x=b)
    for b in seqs:
        s.call("decode", lambda: code.decode(container(ctx, b, 2)), S_limbs, x=b)
    s.end()


def integers(ctx):
    r = ctx.rng
    for kind in ("fib", "unary"):
        for n in range(0, ctx.n(9, 12)):   # every short bit string through the decoder
            for chunk in [list(itertools.product((0, 1), repeat=n))]:
                for g in range(0, len(chunk), 16):
                    int_session(ctx, kind, [r.randint(1, 30)], [list(b) for b in chunk[g:g + 16]])
        for lo in range(0, ctx.n(300, 3000), 10):   # every small integer
            int_session(ctx, kind, [x for x in range(lo, lo + 10) if x >= (1 if kind == "fib" else 0)], [])
        for _ in range(ctx.n(120, 800)):
            top = r.choice([1, 2, 5, 20, 100]) if kind == "unary" else r.choice([1, 3, 10, 1000, 2**31, 2**40, 10**15, 2**62 // 10])
            xs = [r.randint(1 if kind == "fib" else 0, top) for _ in range(r.choice([0, 1, 2, 5, 12]))]
            if kind == "fib" and xs and r.random() < 0.3:
                f = [1, 2]
                while f[-1] < 10**17:
                    f.append(f[-1] + f[-2])
                xs = [max(1, r.choice(f) + r.choice([-1, 0, 0, 1])) for _ in range(4)]
            if r.random() < 0.05 and xs:
                xs[0] = 0 if kind == "fib" else -1
            int_session(ctx, kind, xs, [[r.randrange(2) for _ in range(r.randint(0, 25))] for _ in range(2)])
