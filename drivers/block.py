"""Drivers for block codes: C14 (mappings), C15 (queries), C16 (families), C17 (cyclic)."""
import itertools

import komm
import numpy as np

from harness.drive import S_int, S_ints, S_ints2, S_nd, S_none, fx

fx6 = fx(1_000_000)


# ---------------------------------------------------------------- construction helpers
def gf2_rank(M):
    M = [int("".join(map(str, r)), 2) if len(r) else 0 for r in M]
    rank = 0
    M = list(M)
    while M:
        p = M.pop()
        if p:
            rank += 1
            low = p & -p
            M = [x ^ p if x & low else x for x in M]
    return rank


def full_rank(r, k, n, dens=None):
    while True:
        p = dens if dens is not None else r.choice([0.2, 0.5, 0.5, 0.8])
        M = [[int(r.random() < p) for _ in range(n)] for _ in range(k)]
        if gf2_rank(M) == k:
            return M


def container(r, a, strided=True):
    """the same values as list / tuple / arrays of several types and layouts"""
    a = np.asarray(a, dtype=int)
    kind = r.randrange(9)
    if kind == 0:
        return a.tolist()
    if kind == 1:
        return tuple(map(tuple, a)) if a.ndim == 2 else (tuple(a.tolist()) if a.ndim == 1 else a.tolist())
    if kind == 2:
        return a.astype(np.uint8)
    if kind == 3:
        return a.astype(bool)
    if kind == 4:
        return a.astype(np.int8)
    if kind == 5:
        return np.asfortranarray(a)
    if kind == 6 and a.size:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=int)
        b[..., ::2] = a
        return b[..., ::2]
    if kind == 7:
        return np.flip(np.flip(a, -1).copy(), -1)
    return a


def index_container(r, a):
    return r.choice([list(a), tuple(a), np.array(a, dtype=int), np.array(a, dtype=np.uint8), np.array(a, dtype=np.int32)])


def shape_for(r, b):
    return r.choice([(b,), (b,), (2 * b,), (3 * b,), (2, b), (3, 2 * b), (1, b), (2, 1, 2 * b), (2, 3, b), (1, 1, b)])


def nd(a):
    a = np.asarray(a, dtype=int)
    return {"shape": list(a.shape), "d": a.ravel().tolist()}


def header(ctx, kind, code, df):
    """open a session on a code object: matrices as reported"""
    n, k, m = int(code.length), int(code.dimension), int(code.redundancy)
    s = ctx.session(kind, n=n, k=k, m=m, G=np.asarray(code.generator_matrix, dtype=int).tolist(),
                    H=np.asarray(code.check_matrix, dtype=int).reshape(m, n).tolist(), **{"def": df})
    s.call("new", lambda: 0, S_none)
    return s


def sizes(s, code):
    s.call("length", lambda: code.length, S_int)
    s.call("dimension", lambda: code.dimension, S_int)
    s.call("redundancy", lambda: code.redundancy, S_int)
    s.call("rate", lambda: code.rate, fx6)


def mappings(ctx, s, code, rounds=4):
    """encode / check / project / inverse on arrays of many shapes, with mutations"""
    r = ctx.rng
    n, k, m = code.length, code.dimension, code.redundancy
    G = np.asarray(s.d["G"]).reshape(k, n)
    for j in range(rounds):
        sh = shape_for(r, k)
        u = np.array([r.randrange(2) for _ in range(int(np.prod(sh)))], dtype=int).reshape(sh)
        if j == 0 and k <= 6:
            u = np.array(list(itertools.product((0, 1), repeat=k)), dtype=int).reshape(-1, k)
        u_in = container(r, u)
        ok, v = s.call("encode", lambda: code.encode(u_in), S_nd, x=nd(u))
        if not ok:
            continue
        v = np.asarray(v)
        v_in = container(r, v)
        s.call("check", lambda: code.check(v_in), S_nd, x=nd(v))
        s.call("inverse", lambda: code.inverse_encode(v_in), S_nd, y=nd(v))
        s.call("project", lambda: code.project_word(v_in), S_nd, y=nd(v))
        w = v.copy()
        flat = w.reshape(-1)
        for _ in range(r.choice([1, 1, 2, 3])):
            flat[r.randrange(flat.size)] ^= 1
        w_in = container(r, w)
        s.call("check", lambda: code.check(w_in), S_nd, x=nd(w))
        s.call("inverse", lambda: code.inverse_encode(w_in), S_nd, y=nd(w))
    if n <= 6:
        w = np.array(list(itertools.product((0, 1), repeat=n)), dtype=int)
        s.call("check", lambda: code.check(w), S_nd, x=nd(w))
        for row in w.tolist()[:: max(1, 2**n // 16)]:
            s.call("inverse", lambda: code.inverse_encode(row), S_nd, y=nd(row))
    # sizes that are not a multiple of the block size
    for f, b in ((code.encode, k), (code.check, n), (code.project_word, n), (code.inverse_encode, n)):
        if b > 1:
            extra = r.randrange(1, b)
            bad = np.zeros(r.choice([(b + extra,), (extra,), (2, b + extra), (2 * b, extra)]), dtype=int)
            s.call("badshape", lambda: f(bad), S_none, x=nd(bad))


def matrices(s, code, ginv=True):
    if ginv:
        s.call("ginv", lambda: code.generator_matrix_right_inverse, S_ints2)
    s.call("gmatrix", lambda: code.generator_matrix, S_ints2)
    s.call("hmatrix", lambda: np.asarray(code.check_matrix).reshape(code.redundancy, code.length), S_ints2)


def general_code(ctx):
    r = ctx.rng
    k = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
    m = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7])
    n = k + m
    t = r.choice(["G", "H", "P", "P", "P"])
    if t == "G":
        M = full_rank(r, k, n)
        return komm.BlockCode(generator_matrix=container(r, M)), {"t": "G", "M": M}
    if t == "H" and m:
        M = full_rank(r, m, n)
        return komm.BlockCode(check_matrix=container(r, M)), {"t": "H", "M": M}
    P = [[r.randrange(2) for _ in range(m)] for _ in range(k)]
    mode = r.choice(["left", "right", "list", "list"])
    info = {"left": list(range(k)), "right": list(range(m, n)), "list": r.sample(range(n), k)}[mode]
    arg = mode if mode != "list" else index_container(r, info)
    Pc = container(r, np.array(P, dtype=int).reshape(k, m))
    return komm.SystematicBlockCode(Pc, arg), {"t": "P", "P": P, "info": info}


def mapping_general(ctx):
    for _ in range(ctx.n(110, 900)):
        code, df = general_code(ctx)
        s = header(ctx, "gen-" + df["t"], code, df)
        sizes(s, code)
        if df["t"] == "P":
            s.call("infoset", lambda: code.information_set, S_ints)
            s.call("parset", lambda: code.parity_set, S_ints)
        order = [lambda: matrices(s, code), lambda: mappings(ctx, s, code, 3)]
        ctx.rng.shuffle(order)
        for f in order:
            f()
        s.end()
    bad(ctx)


def mapping_large(ctx):
    r = ctx.rng
    for _ in range(ctx.n(10, 60)):
        k, m = r.choice([(12, 20), (20, 12), (30, 30), (33, 31), (8, 40), (40, 6), (24, 41)])
        n = k + m
        t = r.choice("GHP")
        if t == "G":
            M = full_rank(r, k, n)
            code, df = komm.BlockCode(generator_matrix=container(r, M)), {"t": "G", "M": M}
        elif t == "H":
            M = full_rank(r, m, n)
            code, df = komm.BlockCode(check_matrix=container(r, M)), {"t": "H", "M": M}
        else:
            P = [[r.randrange(2) for _ in range(m)] for _ in range(k)]
            info = r.sample(range(n), k)
            code, df = komm.SystematicBlockCode(P, info), {"t": "P", "P": P, "info": info}
        s = header(ctx, "large-" + t, code, df)
        sizes(s, code)
        matrices(s, code)
        mappings(ctx, s, code, 2)
        s.end()


def bad(ctx):
    P = [[1, 0], [0, 1], [1, 1]]
    G = [[1, 0, 1], [0, 1, 1]]
    s = ctx.session("bad", n=1, k=1, m=0, G=[[1]], H=[], **{"def": {"t": "none"}})
    for f in (lambda: komm.BlockCode(), lambda: komm.BlockCode(G, [[1, 1, 1]]),
              lambda: komm.SystematicBlockCode(P, [0, 1]), lambda: komm.SystematicBlockCode(P, [0, 1, 5]),
              lambda: komm.SystematicBlockCode(P, [0, 1, 1]), lambda: komm.SystematicBlockCode(P, [-1, 0, 1]),
              lambda: komm.SystematicBlockCode(P, [0, 1, 2, 3]), lambda: komm.SystematicBlockCode(P, "middle"),
              lambda: komm.CyclicCode(7), lambda: komm.CyclicCode(7, 0b1011, 0b10111), lambda: komm.CyclicCode(7, 0b111),
              lambda: komm.CyclicCode(7, check_polynomial=0b11111), lambda: komm.CyclicCode(8, 0b111)):
        s.call("badnew", f, S_none)
    s.end()


# ---------------------------------------------------------------------------- C15
QUERY = {
    "codewords": (lambda c: c.codewords(), S_ints2), "cwd": (lambda c: c.codeword_weight_distribution(), S_ints),
    "dmin": (lambda c: c.minimum_distance(), S_int), "packing": (lambda c: c.packing_radius(), S_int),
    "leaders": (lambda c: c.coset_leaders(), S_ints2), "cld": (lambda c: c.coset_leader_weight_distribution(), S_ints),
    "covering": (lambda c: c.covering_radius(), S_int),
}


def query(s, code, q):
    f, sh = QUERY[q]
    s.call(q, lambda: f(code), sh, timeout=60)


def facts(s, words, cosets):
    """words: False, True (all codewords) or "syn" (weights only, by syndromes)"""
    if words is True:
        words = "span" if s.d["n"] <= 30 else "chunk"
    s.call("facts", lambda: 0, S_none, words=words or "none", cosets=cosets)


def slepian(ctx, s, code):
    r = ctx.rng
    k, m = code.dimension, code.redundancy
    ok, sa = True, komm.SlepianArray(code)
    for _ in range(3):
        i, j = r.randrange(2**m), r.randrange(2**k)
        s.call("saentry", lambda: sa.entry(i, j), S_ints, i=i, j=j)
    if m + k <= 9:
        i, j = r.randrange(2**m), r.randrange(2**k)
        s.call("sarow", lambda: sa.row(i), S_ints2, i=i)
        s.call("sacol", lambda: sa.col(j), S_ints2, j=j)


def query_session(ctx, kind, code, df, hist, words=True, cosets=True, sl=True):
    s = header(ctx, kind, code, df)
    facts(s, words, cosets)
    cut = ctx.rng.randrange(len(hist) + 1) if sl else -1
    for j, q in enumerate(hist):
        if j == cut:
            slepian(ctx, s, code)
        query(s, code, q)
    if cut == len(hist):
        slepian(ctx, s, code)
    s.end()


def query_histories(ctx):
    """every query history the design specification generates, on fresh code objects"""
    for h in ctx.gen("MC_BlockCodeObject@GEN_BlockCodeObject"):
        code, df = general_code(ctx)
        while code.length > 9:
            code, df = general_code(ctx)
        query_session(ctx, "hist", code, df, h, sl=ctx.rng.random() < 0.5)


ALLQ = list(QUERY)


def query_sizes(ctx):
    """sizes around the batch boundary of the enumeration and larger cosets"""
    r = ctx.rng
    for k, m in ((10, 2), (11, 1), (11, 3), (12, 2), (9, 4), (1, 11), (2, 10), (3, 9), (5, 5), (0, 0)) + (((13, 3), (4, 12), (12, 11)) if ctx.thorough else ()):
        if k == 0:
            continue
        n = k + m
        M = full_rank(r, k, n)
        h = [r.choice(ALLQ) for _ in range(4)] + r.sample(ALLQ, len(ALLQ))
        query_session(ctx, f"size{k}-{m}", komm.BlockCode(M), {"t": "G", "M": M}, h)
    for _ in range(ctx.n(40, 300)):
        code, df = general_code(ctx)
        h = [r.choice(ALLQ) for _ in range(r.randrange(1, 9))]
        query_session(ctx, "mix", code, df, h)
    for nn, g in CYC[: ctx.n(14, 100)]:
        code = komm.CyclicCode(nn, g, systematic=r.random() < 0.5)
        if code.dimension == 0 or code.redundancy > 11 or code.dimension > 11:
            continue
        query_session(ctx, "cyc", code, {"t": "none"}, r.sample(ALLQ, len(ALLQ)))


def query_wide(ctx):
    """long codewords (weights beyond a byte), many codewords, many check symbols"""
    r = ctx.rng
    todo = []
    for mu in (8,) + ((9,) if ctx.thorough else ()):
        ext = r.random() < 0.5
        todo.append((lambda mu=mu: komm.ReedMullerCode(1, mu), {"t": "none"}))
        todo.append((lambda mu=mu, ext=ext: komm.SimplexCode(mu, ext), {"t": "none"}))
    n = r.choice([256, 257, 300])
    todo.append((lambda n=n: komm.RepetitionCode(n), {"t": "rep", "n": n}))
    for k, n in [(2, r.choice([260, 310]))] + r.sample([(5, 290), (7, 260), (4, 270), (1, 256), (3, 129), (8, 90), (6, 128)], ctx.n(3, 7)):
        while True:   # half the codes hold a word of weight beyond one byte
            M = full_rank(r, k, n, r.choice([0.5, 0.9]))
            if n > 256:
                M[0] = [1] * n
            if gf2_rank(M) == k:
                break
        todo.append((lambda M=M: komm.BlockCode(M), {"t": "G", "M": M}))
    for make, df in todo:
        for first in ("codewords", "cwd"):
            h = [first] + r.sample(["cwd", "dmin", "packing", "codewords"], 3)
            query_session(ctx, "wide", make(), df, h, cosets=False, sl=False)


def query_many(ctx):
    """many codewords or many cosets, judged by syndromes"""
    r = ctx.rng
    for k, m in ((13, 3), (14, 2), (15, 4), (16, 1), (15, 1)) + (((17, 5), (18, 2), (16, 7)) if ctx.thorough else ()):
        n = k + m
        M = full_rank(r, k, n, r.choice([0.5, 0.5, 0.9]))
        h = r.sample(["cwd", "dmin", "packing", "cld", "covering"], r.choice([3, 5]))
        if k < 15 and r.random() < 0.5:
            h = ["dmin", "cwd"] + h
        query_session(ctx, f"many{k}-{m}", komm.BlockCode(M), {"t": "G", "M": M}, h, words="syn", sl=False)
    for m, n in ((9, 300), (8, 255), (10, 130), (11, 60), (5, 290)) + (((12, 200), (13, 80)) if ctx.thorough else ()):
        H = full_rank(r, m, n)
        code = komm.BlockCode(check_matrix=H)
        h = r.choice([["leaders"], []]) + r.sample(["cld", "covering"], 2) + r.choice([["leaders"], []]) * (m < 10)
        query_session(ctx, f"cosets{m}-{n}", code, {"t": "H", "M": H}, [q for q in h if q != "leaders" or n * 2**m < 160000], words=False, sl=False)


# ---------------------------------------------------------------------------- C17
def pmul(a, b):
    x = 0
    while b:
        if b & 1:
            x ^= a
        a <<= 1
        b >>= 1
    return x


def pdivmod(a, b):
    q = 0
    while a.bit_length() >= b.bit_length():
        d = a.bit_length() - b.bit_length()
        q ^= 1 << d
        a ^= b << d
    return q, a


def factors(n):
    """irreducible factors of X^n + 1 (with multiplicity)"""
    p, out, d = (1 << n) | 1, [], 2
    while p.bit_length() > 1:
        if d.bit_length() * 2 - 1 > p.bit_length() + 1 and d != p:
            out.append(p)
            break
        q, r = pdivmod(p, d)
        if r == 0:
            out.append(d)
            p = q
        else:
            d += 1
    return out


def divisors(n, cap=10**9):
    ds = {1}
    for f in factors(n):
        ds |= {pmul(x, f) for x in ds}
        if len(ds) > cap:
            break
    return sorted(ds)


CYC = [(n, g) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15) for g in divisors(n)]


def pbits(x):
    return [int(b) for b in bin(x)[:1:-1]] if x else []


def cyclic_session(ctx, kind, n, g, df=None, code=None, rounds=3, queries=()):
    r = ctx.rng
    h = pdivmod((1 << n) | 1, g)[0]
    sys = r.random() < 0.5
    if code is None:
        gp = r.choice([int, komm.BinaryPolynomial])
        code = komm.CyclicCode(n, generator_polynomial=gp(g), systematic=sys) if r.random() < 0.5 else komm.CyclicCode(n, check_polynomial=gp(h), systematic=sys)
        df = {"t": "cyclic", "g": pbits(g), "h": pbits(h), "sys": sys}
    s = header(ctx, kind, code, df)
    s.call("poly-g", lambda: pbits(int(code.generator_polynomial)), S_ints)
    s.call("poly-h", lambda: pbits(int(code.check_polynomial)), S_ints)
    sizes(s, code)
    mappings(ctx, s, code, rounds)
    matrices(s, code, ginv=False)
    if queries:
        facts(s, True, True)
        for q in queries:
            query(s, code, q)
    s.end()


def cyclic_small(ctx):
    r = ctx.rng
    todo = [(n, g) for n, g in CYC if g.bit_length() - 1 < n]
    for n, g in todo:
        if not ctx.thorough and n >= 12 and r.random() < 0.6:
            continue
        k, m = n - g.bit_length() + 1, g.bit_length() - 1
        qs = r.sample(ALLQ, 4) if k <= 9 and m <= 9 else ()
        cyclic_session(ctx, "small", n, g, rounds=2, queries=qs)
    bad(ctx)


def cyclic_large(ctx):
    r = ctx.rng
    for n in (17, 21, 23, 31, 45, 63, 64, 65) + ((127,) if ctx.thorough else ()):
        ds = [d for d in divisors(n, 4096) if 1 < d.bit_length() <= n]
        for g in r.sample(ds, min(len(ds), ctx.n(2, 8))):
            cyclic_session(ctx, "large", n, g, rounds=2)


# ---------------------------------------------------------------------------- C16
KNOWN_DISTANCE = {"hamming", "simplex", "golay", "rep", "spc", "rm", "cw"}   # families that state their minimum distance


def family_session(ctx, kind, code, df, events=True, maxk=12, maxm=11, extra=None, ginv=True, rounds=2):
    r = ctx.rng
    n, k, m = code.length, code.dimension, code.redundancy
    s = header(ctx, kind, code, df)
    sizes(s, code)
    mappings(ctx, s, code, rounds if n < 100 else 1)
    if ginv:
        matrices(s, code)
    # by enumeration of the codewords, or of the syndromes
    w = k <= (maxk if n <= 30 else 9)
    if not w and m <= 7 and k <= 15:
        w = "syn"
    cs = m <= (maxm if n <= 64 else 8)
    facts(s, w, cs)
    qs = (["cwd", "dmin", "packing"] if w else ["dmin", "packing"] if m <= 9 and df["t"] in KNOWN_DISTANCE else []) + (["cld", "covering"] if cs else [])
    if w is True and k <= 8:
        qs.append("codewords")
    if cs and m <= 8 and 2**m * n <= 20000:
        qs.append("leaders")
    r.shuffle(qs)
    for q in qs:
        query(s, code, q)
    if extra:
        extra(s)
    s.end()


def families_a(ctx):
    for mu in range(2, ctx.n(8, 9)):
        for ext in (False, True):
            family_session(ctx, f"hamming{mu}{ext}", komm.HammingCode(mu, ext), {"t": "hamming", "mu": mu, "ext": ext})
            family_session(ctx, f"simplex{mu}{ext}", komm.SimplexCode(mu, ext), {"t": "simplex", "mu": mu, "ext": ext})
    for ext in (False, True):
        family_session(ctx, f"golay{ext}", komm.GolayCode(ext), {"t": "golay", "ext": ext}, extra=lambda s: s.note("attr", name="golay-distance", v=int(komm.GolayCode(ext).minimum_distance()), x=8 if ext else 7), maxm=12)
    s = ctx.session("bad", n=1, k=1, m=0, G=[[1]], H=[], **{"def": {"t": "none"}})
    for f in (lambda: komm.HammingCode(1), lambda: komm.SimplexCode(1), lambda: komm.RepetitionCode(0), lambda: komm.SingleParityCheckCode(0),
              lambda: komm.CordaroWagnerCode(1), lambda: komm.ReedMullerCode(2, 2), lambda: komm.ReedMullerCode(-1, 2), lambda: komm.Lexicode(3, 0),
              lambda: komm.Lexicode(3, 4), lambda: komm.PolarCode(0, []), lambda: komm.PolarCode(2, [4]), lambda: komm.PolarCode(2, [-1]), lambda: komm.PolarCode(2, [1, 1]),
              lambda: komm.BCHCode(1, 2), lambda: komm.BCHCode(4, 1), lambda: komm.BCHCode(4, 16)):
        s.call("badnew", f, S_none)
    s.end()


def families_b(ctx):
    r = ctx.rng
    for n in range(1, ctx.n(13, 20)):
        family_session(ctx, f"rep{n}", komm.RepetitionCode(n), {"t": "rep", "n": n}, maxm=11)
        if n > 1:
            family_session(ctx, f"spc{n}", komm.SingleParityCheckCode(n), {"t": "spc", "n": n}, maxk=11)
            family_session(ctx, f"cw{n}", komm.CordaroWagnerCode(n), {"t": "cw", "n": n, "opt": True})
    for n in (40, 64, 65):
        for code, df in ((komm.RepetitionCode(n), {"t": "rep", "n": n}), (komm.SingleParityCheckCode(n), {"t": "spc", "n": n}),
                         (komm.CordaroWagnerCode(n), {"t": "cw", "n": n, "opt": False})):
            family_session(ctx, df["t"] + str(n), code, df)
    for n in (16, 20, 25) + ((18, 19, 23, 28, 29, 30) if ctx.thorough else ()):
        family_session(ctx, f"cw{n}", komm.CordaroWagnerCode(n), {"t": "cw", "n": n, "opt": True})
    # weight distributions given in closed form, beyond 32 bits: judged modulo primes
    s = ctx.session("closed", n=1, k=1, m=0, G=[[1]], H=[], **{"def": {"t": "none"}})
    for n in list(range(1, 14)) + [20, 31, 32, 33, 34, 47, 48, 60, 61, 62, 63, 64, 65, 66]:
        p = r.choice([32749, 32719, 32687, 32633])
        big = lambda v: [[int(x) % p, (int(x) >> 16) % p] if int(x) >= 0 else [-1, -1] for x in np.asarray(v).tolist()]
        s.call("spc-weights", lambda: komm.SingleParityCheckCode(n).codeword_weight_distribution(), lambda v: [x[0] for x in big(v)], len=n, p=p)
        s.call("rep-cosets", lambda: komm.RepetitionCode(n).coset_leader_weight_distribution(), lambda v: [x[0] for x in big(v)], len=n, p=p)
        s.call("rep-covering", lambda: komm.RepetitionCode(n).covering_radius(), S_int, len=n)
    s.end()


def families_rm(ctx):
    for mu, rho in [(mu, rho) for mu in range(1, 7) for rho in range(mu)] + [(7, 1), (7, 2), (8, 1)] + ([(7, 3), (7, 5), (9, 1)] if ctx.thorough else []):
        code = komm.ReedMullerCode(rho, mu)
        df = {"t": "rm", "rho": rho, "mu": mu}

        def reed(s):
            s.call("reed", lambda: code.reed_partitions(), lambda v: [S_ints2(p) for p in v])
            s.note("attr", name="rm-distance", v=int(code.minimum_distance()), x=2 ** (mu - rho))
        family_session(ctx, f"rm{rho}-{mu}", code, df, extra=reed)


def families_polar(ctx):
    r = ctx.rng
    for mu in (1, 2, 2, 3, 3, 4, 4, 5, 6, 7) + ((5, 6, 7, 8) if ctx.thorough else ()):
        for _ in range(ctx.n(4, 30) if mu < 6 else 2):
            n = 2**mu
            frozen = r.sample(range(n), r.randrange(0, n))
            code = komm.PolarCode(mu, index_container(r, frozen))
            df = {"t": "polar", "mu": mu, "frozen": sorted(frozen)}
            family_session(ctx, f"polar{mu}", code, df)


def families_lexi(ctx):
    for n in range(1, ctx.n(9, 11)):
        for d in range(1, n + 1):
            code = komm.Lexicode(n, d)
            family_session(ctx, f"lexi{n}-{d}", code, {"t": "lexi", "n": n, "d": d}, rounds=1)


def families_bch(ctx):
    r = ctx.rng
    s = ctx.session("bose", n=1, k=1, m=0, G=[[1]], H=[], **{"def": {"t": "none"}})
    for mu in range(2, ctx.n(6, 8)):
        for delta in range(2, 2**mu):
            ok, code = s.call("bose", lambda: komm.BCHCode(mu, delta), S_none, mu=mu, delta=delta)
            if not ok or (mu >= 6 and r.random() < 0.7):
                continue
            n = code.length
            g = int(code.generator_polynomial)
            h = int(code.check_polynomial)
            df = {"t": "bch", "mu": mu, "delta": delta, "modulus": int(code.field.modulus), "g": pbits(g), "h": pbits(h), "sys": True}
            family_session(ctx, f"bch{mu}-{delta}", code, df, ginv=False)
    s.end()


def packed_columns(M):
    M = np.asarray(M, dtype=int)
    return [sum(int(b) << a for a, b in enumerate(M[:, j])) for j in range(M.shape[1])]


def chunked(v, w=24):
    v = [int(x) for x in v]
    return [sum(b << a for a, b in enumerate(v[j:j + w])) for j in range(0, len(v), w)]


def families_wide(ctx):
    """members too large to write their matrices down"""
    r = ctx.rng
    rb = lambda n: [r.randrange(2) for _ in range(n)]
    for mu in (9, 10) + ((8, 11) if ctx.thorough else ()):
        for ext in (False, True):
            s = ctx.session(f"hamming-wide{mu}{ext}", n=1, k=1, m=0, G=[[1]], H=[], **{"def": {"t": "none"}})
            code = komm.HammingCode(mu, ext)
            us = [rb(code.dimension) for _ in range(3)] + [[int(j == a) for j in range(code.dimension)] for a in (0, code.dimension - 1, r.randrange(code.dimension))]
            s.call("hamming-cols", lambda: [packed_columns(code.check_matrix), [S_ints(code.encode(u)) for u in us]], lambda v: 0, mu=mu, ext=ext)
            e = s.d["ev"][-1]
            if e["ok"]:
                e["C"], e["words"] = packed_columns(code.check_matrix), [S_ints(code.encode(u)) for u in us]
            code2 = komm.SimplexCode(mu, ext)
            ms = [rb(code2.dimension) for _ in range(3)]
            s.call("simplex-cols", lambda: [packed_columns(code2.generator_matrix), [S_ints(code2.encode(u)) for u in ms]], lambda v: 0, mu=mu, ext=ext, msgs=[sum(b << a for a, b in enumerate(u)) for u in ms])
            e = s.d["ev"][-1]
            if e["ok"]:
                e["C"], e["words"] = packed_columns(code2.generator_matrix), [S_ints(code2.encode(u)) for u in ms]
            for c in (code, code2):
                s.note("attr", name="length", v=int(c.length), x=2**mu - (not ext))
            s.note("attr", name="dimension", v=int(code.dimension), x=2**mu - mu - 1)
            s.note("attr", name="dimension", v=int(code2.dimension), x=mu + ext)
            s.note("attr", name="minimum-distance", v=int(code.minimum_distance()), x=3 + ext)
            s.note("attr", name="minimum-distance", v=int(code2.minimum_distance()), x=2**(mu - 1))
            s.end()
    for mu in (8, 9) + ((10,) if ctx.thorough else ()):
        n = 2**mu
        frozen = sorted(r.sample(range(n), r.choice([n // 2, n - 9, n // 3])))
        code = komm.PolarCode(mu, frozen)
        s = ctx.session(f"polar-wide{mu}", n=1, k=1, m=0, G=[[1]], H=[], **{"def": {"t": "none"}})
        for _ in range(2):
            u = rb(code.dimension)
            s.call("polar-encode", lambda: code.encode(u), S_ints, x=u, mu=mu, frozen=frozen)
        a = r.randrange(code.dimension)
        s.call("polar-row", lambda: code.generator_matrix[a], S_ints, a=a + 1, mu=mu, frozen=frozen)
        s.end()
    for mu, rho in ((8, 2), (9, 1), (10, 1)) + (((9, 2), (10, 2)) if ctx.thorough else ()):
        code = komm.ReedMullerCode(rho, mu)
        G = np.asarray(code.generator_matrix, dtype=int)
        s = ctx.session(f"rm-wide{mu}-{rho}", n=int(code.length), k=int(code.dimension), m=int(code.redundancy), G=G.tolist(), H=[], **{"def": {"t": "rm", "rho": rho, "mu": mu}})
        s.note("rm-rows")
        u = rb(code.dimension)
        s.call("rm-encode", lambda: code.encode(u), S_ints, x=u)
        parts = code.reed_partitions()
        s.note("attr", name="reed-count", v=len(parts), x=int(code.dimension))
        for a in {0, len(parts) - 1, r.randrange(len(parts)), r.randrange(len(parts))}:
            s.call("reed-part", lambda: parts[a], lambda p: [S_ints(b) for b in p], a=a + 1)
        s.note("attr", name="rm-distance", v=int(code.minimum_distance()), x=2 ** (mu - rho))
        s.end()
    s = ctx.session("lexi-wide", n=1, k=1, m=0, G=[[1]], H=[], **{"def": {"t": "none"}})
    for n, d in ((12, 2), (12, 3), (12, 4), (13, 3), (13, 4), (14, 5), (14, 6)) + (((13, 2), (14, 3), (15, 5), (16, 6)) if ctx.thorough else ()):
        s.call("lexi-wide", lambda: komm.Lexicode(n, d).generator_matrix, lambda G: [int("".join(map(str, S_ints(g))), 2) for g in G], len=n, d=d)
    s.end()
    for mu, delta in ((6, r.choice([13, 15, 21, 23, 27, 31])), (7, r.choice([21, 27, 29, 31, 43, 47, 55])), (8, r.choice([37, 39, 59, 85, 87, 91, 95]))) + (((9, 73), (10, 33)) if ctx.thorough else ()):
        s = ctx.session(f"bch-wide{mu}-{delta}", n=1, k=1, m=0, G=[[1]], H=[], **{"def": {"t": "none"}})
        ok, code = s.call("bose", lambda: komm.BCHCode(mu, delta), S_none, mu=mu, delta=delta)
        if ok:
            g = int(code.generator_polynomial)
            s.note("bch-wide", mu=mu, delta=delta, modulus=int(code.field.modulus), g=pbits(g))
            wide_cyclic(ctx, s, code, g, int(code.check_polynomial), True, cols=False)
        s.end()


def wide_cyclic(ctx, s, code, g, h, sys, cols=True):
    r = ctx.rng
    n, k, m = int(code.length), int(code.dimension), int(code.redundancy)
    gb = pbits(g)
    s.note("cyc-def", len=n, k=k, m=m, g=gb, h=pbits(h))
    ys = []
    for j in range(3):
        u = [r.randrange(2) for _ in range(k)] if j else [0] * (k - 1) + [1]
        ok, v = s.call("cyc-encode", lambda: code.encode(u), S_ints, x=u, len=n, g=gb, sys=sys)
        if ok:
            v = S_ints(v)
            w = list(v)
            w[r.choice([0, n - 1, r.randrange(n)])] ^= 1
            for y in (v, w):
                s.call("cyc-inverse", lambda: code.inverse_encode(y), S_ints, y=y, len=n, k=k, g=gb, sys=sys)
            ys += [v, w]
    if cols and ys:
        s.call("cyc-cols", lambda: [chunked(code.check(y)) for y in ys], lambda v: 0, len=n, g=gb, words=ys, syn=[], C=[])
        e = s.d["ev"][-1]
        if e["ok"]:
            H = np.asarray(code.check_matrix, dtype=int)
            e["syn"], e["C"] = [chunked(code.check(y)) for y in ys], [chunked(H[:, j]) for j in range(n)]


def cyclic_wide(ctx):
    """lengths in the hundreds"""
    r = ctx.rng
    for n in (93, 127, 128, 217, 255) + (r.choice([315, 341, 511]),) + ((315, 341, 511, 1023) if ctx.thorough else ()):
        ds = [d for d in divisors(n, 4096) if 1 < d.bit_length() <= n]
        for g in r.sample(ds, min(len(ds), ctx.n(2, 4))):
            if r.random() < .3:
                g = pdivmod((1 << n) | 1, g)[0]
            if n > 400 and g.bit_length() > 29:
                continue
            h = pdivmod((1 << n) | 1, g)[0]
            sys = r.random() < .5
            gp = r.choice([int, komm.BinaryPolynomial])
            code = komm.CyclicCode(n, generator_polynomial=gp(g), systematic=sys) if r.random() < 0.5 else komm.CyclicCode(n, check_polynomial=gp(h), systematic=sys)
            s = ctx.session("wide", n=1, k=1, m=0, G=[[1]], H=[], **{"def": {"t": "none"}})
            wide_cyclic(ctx, s, code, g, h, sys)
            s.end()
