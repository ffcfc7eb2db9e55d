"""Drivers for block decoders (C18)."""
import itertools
import math

import komm
import numpy as np

from drivers.block import CYC, container, general_code, nd, shape_for
from harness.drive import Malformed, S_nd, S_none


def soft_container(r, a):
    """integer-valued soft inputs as lists, tuples and arrays of several types and layouts"""
    a = np.asarray(a)
    kind = r.randrange(7)
    if kind == 0:
        return a.tolist()
    if kind == 1:
        return a.astype(float)
    if kind == 2:
        return a.astype(np.float32) if np.abs(a).max(initial=0) < 2**24 else a.astype(float)
    if kind == 3:
        return np.asfortranarray(a.astype(float))
    if kind == 4:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],))
        b[..., ::2] = a
        return b[..., ::2]
    if kind == 5:
        return np.flip(np.flip(a.astype(float), -1).copy(), -1)
    return a.copy()


def soft_values(r, shape, lim=2**26):
    """integers and what the decoder is given: the same numbers in some unit (a power of two)"""
    kind = r.randrange(6)
    if kind < 3:
        x = ints(r, shape, [[-1, 1], [-3, -2, -1, 0, 1, 2, 3], list(range(-100, 101))][kind])
    elif kind == 3:   # nearly equal reliabilities
        big = r.choice([2**12, 2**20, lim])
        x = ints(r, shape, [s * (big - d) for s in (-1, 1) for d in range(4)])
    elif kind == 4:   # very different reliabilities
        x = ints(r, shape, [s * b for s in (-1, 1) for b in (1, 2, 3, 1000, 2**20 + 1, lim, lim - 1)])
    else:
        x = np.array([r.randrange(-lim, lim + 1) for _ in range(int(np.prod(shape)))], dtype=int).reshape(shape)
    arg = soft_container(r, x)
    if r.random() < 0.5:
        arg = np.asarray(arg, dtype=float) * 2.0 ** r.choice([-26, -20, -40, -7, -1, 3, 30])
    return x, arg


def open_session(ctx, kind, code, **extra):
    return ctx.session(kind, n=int(code.length), k=int(code.dimension), G=np.asarray(code.generator_matrix, dtype=int).tolist(), **extra)


def all_words(n):
    return np.array(list(itertools.product((0, 1), repeat=n)), dtype=int)


def bits(r, shape):
    return np.array([r.randrange(2) for _ in range(int(np.prod(shape)))], dtype=int).reshape(shape)


def ints(r, shape, vals):
    return np.array([r.choice(vals) for _ in range(int(np.prod(shape)))], dtype=int).reshape(shape)


def badshapes(ctx, s, code, dec):
    n = code.length
    if n > 1:
        for bad in (np.zeros(n + 1, dtype=int), np.zeros((2, n - 1), dtype=int)):
            s.call("badshape", lambda: dec.decode(bad), S_none, x=nd(bad))


def named(r):
    return r.choice([lambda: komm.HammingCode(3), lambda: komm.HammingCode(3, extended=True), lambda: komm.SimplexCode(3), lambda: komm.SimplexCode(4),
                     lambda: komm.RepetitionCode(r.randrange(1, 8)), lambda: komm.SingleParityCheckCode(r.randrange(2, 9)), lambda: komm.ReedMullerCode(1, 3),
                     lambda: komm.ReedMullerCode(1, 4), lambda: komm.BCHCode(4, 7), lambda: komm.BCHCode(4, 5), lambda: komm.CordaroWagnerCode(r.randrange(3, 9)),
                     lambda: komm.Lexicode(r.choice([7, 8]), 3), lambda: komm.PolarCode(3, [0, 1, 2, 4]),
                     lambda: komm.CyclicCode(7, 0b10111), lambda: komm.CyclicCode(7, 0b1011, systematic=False), lambda: komm.CyclicCode(9, 0b1001, systematic=False)])()


def small_code(ctx):
    r = ctx.rng
    while True:
        if r.random() < 0.35:
            code = named(r)
        elif r.random() < 0.2:
            n, g = r.choice(CYC)
            if not 1 < g.bit_length() <= n:
                continue
            code = komm.CyclicCode(n, g, systematic=r.random() < 0.5)
        else:
            code = general_code(ctx)[0]
        if code.length <= 16 and code.dimension <= 8 and code.redundancy <= 11:
            return code


def nearest(ctx):
    """exhaustive search (hard) and syndrome table: minimum distance for every word"""
    r = ctx.rng
    for _ in range(ctx.n(70, 500)):
        code = small_code(ctx)
        n = code.length
        decs = [komm.ExhaustiveSearchDecoder(code), komm.ExhaustiveSearchDecoder(code, input_type="hard"), komm.SyndromeTableDecoder(code)]
        r.shuffle(decs)
        s = open_session(ctx, "near", code)
        s.call("facts", lambda: 0, S_none)
        for dec in decs[:2] if r.random() < 0.6 else decs:
            xs = [bits(r, shape_for(r, n)) for _ in range(3)]
            if n <= 6:
                xs.append(all_words(n))
            # words at and beyond the packing radius of codewords
            w = code.encode(bits(r, (6, code.dimension)))
            for row in w:
                for p in r.sample(range(n), min(n, r.randrange(0, 4))):
                    row[p] ^= 1
            xs.append(w)
            for x in xs:
                arg = container(r, x)
                s.call("nearest", lambda: dec.decode(arg), S_nd, x=nd(x))
            badshapes(ctx, s, code, dec)
        s.end()


def soft_ml(ctx):
    """exhaustive search with soft inputs; Wagner"""
    r = ctx.rng
    for _ in range(ctx.n(40, 300)):
        code = small_code(ctx)
        n = code.length
        dec = komm.ExhaustiveSearchDecoder(code, input_type="soft")
        s = open_session(ctx, "soft", code)
        s.call("facts", lambda: 0, S_none)
        for _ in range(3):
            x, arg = soft_values(r, shape_for(r, n))
            s.call("soft-ml", lambda: dec.decode(arg), S_nd, x=nd(x))
        badshapes(ctx, s, code, dec)
        s.end()
    for n in list(range(2, 12)) * ctx.n(3, 12):
        code = komm.SingleParityCheckCode(n)
        dec = komm.WagnerDecoder(code)
        s = open_session(ctx, "wagner", code)
        for _ in range(5):
            x, arg = soft_values(r, shape_for(r, n))
            s.call("wagner-ml", lambda: dec.decode(arg), S_nd, x=nd(x))
        if n <= 4:
            x = np.array(list(itertools.product((-2, -1, 1, 3), repeat=n)))
            s.call("wagner-ml", lambda: dec.decode(x), S_nd, x=nd(x))
        badshapes(ctx, s, code, dec)
        s.end()


def bounded_session(ctx, kind, code, dec, t, patterns, shapes=3, **extra):
    """codeword plus error patterns; patterns : list of position lists"""
    r = ctx.rng
    n, k = code.length, code.dimension
    s = open_session(ctx, kind, code, t=t, **extra)
    chunk = 24
    for a in range(0, len(patterns), chunk):
        ps = patterns[a:a + chunk]
        w = bits(r, (len(ps), k))
        x = np.array(code.encode(w))
        for row, p in zip(x, ps):
            row[list(p)] ^= 1
        arg = container(r, x)
        s.call("bounded", lambda: dec.decode(arg), S_nd, x=nd(x), w=w.ravel().tolist(), timeout=60)
    for _ in range(shapes):
        sh = shape_for(r, n)
        q = int(np.prod(sh)) // n
        w = bits(r, (q, k))
        x = np.array(code.encode(w)).reshape(q, n)
        for row in x:
            row[r.sample(range(n), r.randrange(0, t + 1))] ^= 1
        x = x.reshape(sh)
        arg = container(r, x)
        s.call("bounded", lambda: dec.decode(arg), S_nd, x=nd(x), w=w.ravel().tolist())
    badshapes(ctx, s, code, dec)
    s.end()


def subsets(n, t):
    return [p for w in range(t + 1) for p in itertools.combinations(range(n), w)]


def some_patterns(r, n, t, count):
    allp = math.comb(n, t)
    if sum(math.comb(n, w) for w in range(t + 1)) <= count:
        return subsets(n, t)
    return [tuple(r.sample(range(n), t if r.random() < 0.6 else r.randrange(0, t + 1))) for _ in range(count)]


def regular_patterns(r, n, t):
    """equally spaced positions (error locators with few terms), runs and the two ends"""
    out = []
    for e in range(2, t + 1):
        if n % e == 0:
            out += [tuple((a + j * (n // e)) % n for j in range(e)) for a in r.sample(range(n // e), min(4, n // e))]
            if e < t:
                p = out[-1]
                out.append(p + (r.choice([x for x in range(n) if x not in p]),))
    for w in {t, max(1, t - 1)}:
        a = r.randrange(n)
        d = r.choice([1, 1, 2, 3])
        out += [tuple((a + j * d) % n for j in range(w)), tuple(range(w)), tuple(range(n - w, n))]
    return [p for p in out if len(set(p)) == len(p)]


def berlekamp(ctx):
    r = ctx.rng
    todo = [(2, 3), (3, 3), (3, 7), (4, 3), (4, 5), (4, 7), (4, 15), (5, 3), (5, 5), (5, 7), (5, 11), (5, 15), (6, 5), (6, 11), (6, 21), (6, 31)]
    if ctx.thorough:
        todo += [(6, 7), (6, 9), (6, 13), (6, 27), (7, 9), (7, 31), (7, 63), (8, 11), (8, 43)]
    for mu, delta in todo:
        code = komm.BCHCode(mu, delta)
        t = (delta - 1) // 2
        for _ in range(1 if not ctx.thorough else 2):
            bounded_session(ctx, f"bch{mu}-{delta}", code, komm.BerlekampDecoder(code), t,
                            some_patterns(r, code.length, t, ctx.n(160 if mu <= 4 else 40, 5000 if mu <= 4 else 200)) + regular_patterns(r, code.length, t), shapes=2)


def bounded_large(ctx):
    """minimum-distance decoders on codes too long to enumerate words: error patterns within the radius"""
    r = ctx.rng
    table = [(komm.GolayCode(), 3), (komm.GolayCode(extended=True), 3), (komm.HammingCode(6), 1), (komm.HammingCode(7, extended=True), 1), (komm.BCHCode(5, 5), 2), (komm.RepetitionCode(13), 6),
             (komm.CordaroWagnerCode(14), 4), (komm.CyclicCode(23, 0b101011100011), 3)]
    full = [(komm.GolayCode(), 3), (komm.ReedMullerCode(1, 6), 15), (komm.SimplexCode(7), 31), (komm.RepetitionCode(300), 149), (komm.RepetitionCode(257), 128), (komm.BCHCode(5, 11), 5),
            (komm.ReedMullerCode(1, 8), 63), (komm.CordaroWagnerCode(390), 129)]
    if ctx.thorough:
        table += [(komm.HammingCode(9), 1), (komm.BCHCode(4, 7), 2), (komm.RepetitionCode(15), 7), (komm.BCHCode(6, 5), 2)]
        full += [(komm.PolarCode(6, [j for j in range(64) if bin(j).count("1") < 5]), 15), (komm.RepetitionCode(1000), 499), (komm.SimplexCode(9, extended=True), 127)]
    for code, t in table:
        bounded_session(ctx, "table", code, komm.SyndromeTableDecoder(code), t, some_patterns(r, code.length, t, ctx.n(12, 100)), shapes=2)
    for code, t in full:
        bounded_session(ctx, "full", code, komm.ExhaustiveSearchDecoder(code), t, [()] * 2 + some_patterns(r, code.length, t, ctx.n(8, 60)), shapes=1)


def reed(ctx):
    r = ctx.rng
    for mu, rho in [(mu, rho) for mu in range(1, ctx.n(6, 7)) for rho in range(mu)] + [(6, 1), (6, 2), (6, 4), (7, 1), (8, 1), (9, 1), (9, 0)]:
        code = komm.ReedMullerCode(rho, mu)
        t = (2 ** (mu - rho) - 1) // 2
        dec = komm.ReedDecoder(code) if r.random() < 0.5 else komm.ReedDecoder(code, input_type="hard")
        bounded_session(ctx, f"rm{rho}-{mu}", code, dec, t, some_patterns(r, code.length, t, ctx.n(100, 1500) if mu < 5 else ctx.n(20, 300) if mu == 5 else 8), shapes=3 if mu < 6 else 1, mu=mu)
        soft = komm.ReedDecoder(code, input_type="soft")
        if mu <= 5 or rho <= 1 and mu <= 9:
            s = open_session(ctx, f"rmsoft{rho}-{mu}", code, mu=mu)
            for _ in range(ctx.n(5, 20) if mu <= 5 else 2):
                x, arg = soft_values(r, shape_for(r, code.length) if mu <= 5 else (code.length,), 2**25 if mu <= 5 else 2**20)
                s.call("reed-soft", lambda: soft.decode(arg), S_nd, x=nd(x))
            badshapes(ctx, s, code, soft)
            s.end()


def S_prob(v):
    v = np.asarray(v, dtype=float)
    if np.isnan(v).any():
        raise ValueError("nan")
    q = np.round(20000 / (1 + np.exp(np.clip(v, -60, 60)))).astype(int)
    return {"shape": list(v.shape), "d": q.ravel().tolist()}


def sc(ctx):
    r = ctx.rng
    for _ in range(ctx.n(60, 400)):
        mu = r.choice([1, 2, 3, 3, 3, 4])
        n = 2**mu
        frozen = r.sample(range(n), r.randrange(0, n))
        code = komm.PolarCode(mu, r.choice([list, tuple, np.array])(frozen) if frozen else frozen)
        s = open_session(ctx, f"sc{mu}", code, frozen=sorted(frozen))
        soft = komm.SCDecoder(code) if r.random() < 0.5 else komm.SCDecoder(code, output_type="soft")
        hard = komm.SCDecoder(code, output_type="hard")
        for _ in range(2):
            sh = shape_for(r, n) if mu <= 2 else r.choice([(n,), (2, n), (2 * n,), (1, 1, n)])
            q = int(np.prod(sh))
            pairs = [r.choice([(1, 2), (2, 1), (1, 1), (2, 1)] if mu == 4 else [(1, 2), (2, 1), (1, 1), (3, 1), (1, 3), (3, 2)]) for _ in range(q)]
            if r.random() < 0.5:   # a codeword seen through noise
                w = np.array(code.encode(bits(r, (q // n, code.dimension)))).ravel()
                pairs = [(2, 1) if b == 0 else (1, 2) for b in w]
                for p in r.sample(range(q), q // 4):
                    pairs[p] = r.choice([(1, 2), (2, 1), (1, 1)])
            li = np.log(np.array([a / b for a, b in pairs])).reshape(sh)
            arg = r.choice([li.copy(), li.tolist(), np.asfortranarray(li)])
            ok, v = ctx.call(lambda: soft.decode(arg), S_none)[:2]
            dec = (np.asarray(v) < 0).astype(int).ravel().tolist() if ok else []
            s.call("sc-soft", lambda: soft.decode(arg), S_prob, l=[list(p) for p in pairs], sh=list(sh), dec=dec)
            arg2 = li.copy()
            s.call("sc-hard", lambda: hard.decode(arg2), S_nd, x={"shape": list(sh), "d": [0] * q}, dec=dec)
        badshapes(ctx, s, code, hard)
        s.end()
    for _ in range(ctx.n(30, 200)):
        mu = r.choice([1, 2, 3, 3])
        n = 2**mu
        frozen = sorted(r.sample(range(n), r.randrange(0, n)))
        code = komm.PolarCode(mu, frozen)
        s = open_session(ctx, f"scwide{mu}", code, frozen=frozen)
        soft, hard = komm.SCDecoder(code), komm.SCDecoder(code, output_type="hard")
        for _ in range(3):
            sh = shape_for(r, n)
            l = ints(r, sh, r.choice([[-1, 1], [-3, -2, -1, 0, 1, 2, 3], [-100, -7, -1, 1, 7, 100], [-1000, -999, 0, 999, 1000]]))
            M = r.choice([60, 300, 800, 1000, 1e5, 1e12, 1e200])
            ok, v = ctx.call(lambda: hard.decode(l * M), S_none)[:2]
            dec = np.asarray(v).ravel().tolist() if ok else []
            tol = int(n * 0.7 * 1000 / M) + 2

            def shape(v):
                v = np.asarray(v, dtype=float)
                if not np.isfinite(v).all():
                    raise Malformed("not finite")
                return {"shape": list(v.shape), "d": np.round(np.clip(v / M * 1000, -2e9, 2e9)).astype(int).ravel().tolist()}
            s.call("sc-wide", lambda: soft.decode(l * M), shape, l=l.ravel().tolist(), sh=list(sh), dec=dec, tol=tol)
        s.end()
    for mu in list(range(1, ctx.n(7, 9))) * 3:
        n = 2**mu
        frozen = sorted(r.sample(range(n), r.choice([n // 2, r.randrange(0, n)])))
        code = komm.PolarCode(mu, frozen)
        dec = komm.SCDecoder(code, output_type="hard")
        s = open_session(ctx, f"scnl{mu}", code)
        sh = shape_for(r, n)
        q = int(np.prod(sh)) // n
        w = bits(r, (q, code.dimension))
        x = np.array(code.encode(w)).reshape(sh)
        li = (1 - 2 * x) * r.choice([np.where(bits(r, x.shape), np.inf, 6.0), 4, 20, 7.5, 100, 750, 1e4, 1e300 / n, np.inf] + ([1, 2.5] if mu <= 3 else []))
        s.call("noiseless", lambda: dec.decode(li), S_nd, x=nd(x), w=w.ravel().tolist())
        s.end()
