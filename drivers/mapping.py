"""C22, C23: labelings and constellations."""
import itertools
import math

import numpy as np

import komm
from harness.drive import INF, Malformed, S_int, S_ints2, S_nd, fx

SHAPES = [(1,), (2,), (3,), (5,), (1, 1), (2, 3), (3, 1), (2, 1, 2), (1, 3, 1), (2, 2, 2)]


def layout(ctx, a):
    """equal values in another container or memory layout"""
    r = ctx.rng
    k = r.randrange(9)
    if k == 0:
        return a.tolist()
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        return np.repeat(a, 2, axis=-1)[..., ::2]
    if k == 3:
        return np.flip(np.flip(a, 0).copy(), 0)
    if k == 4 and a.dtype.kind == "i" and a.size and a.max() < 128:
        lo = a.min()
        return a.astype(r.choice([t for t in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32) if np.iinfo(t).min <= lo]))
    if k == 5 and a.dtype.kind == "i" and a.size and a.max() <= 1 and a.min() >= 0:
        return a.astype(bool)
    if k == 6 and a.ndim == 1:
        return tuple(a.tolist())
    return a


def S_lratio(v):
    v = np.asarray(v, dtype=float)
    out = []
    for L in v.ravel().tolist():
        if L != L:
            raise Malformed("NaN L-value")
        e = math.exp(min(abs(L), 700))
        out.append([1 if L > 0 else (-1 if L < 0 else 0), INF if e * 1000 >= 1.9e9 else round(e * 1000)])
    return {"shape": list(v.shape), "d": out}


def random_rows(ctx, m):
    rows = [[v >> (m - 1 - j) & 1 for j in range(m)] for v in range(1 << m)]
    ctx.rng.shuffle(rows)
    return rows


def basic_def(ctx, top):
    r = ctx.rng
    k = r.randrange(4)
    m = r.randint(1, top)
    if k == 0:
        return {"kind": "natural", "m": m}, komm.NaturalLabeling(m), m
    if k == 1:
        return {"kind": "reflected", "m": m}, komm.ReflectedLabeling(m), m
    if k == 2 and m >= 2:
        mi = r.randint(1, m - 1)
        if m == 2 * mi and r.random() < .5:
            return {"kind": "rect", "mi": mi, "mq": mi}, komm.ReflectedRectangularLabeling(m), m
        return {"kind": "rect", "mi": mi, "mq": m - mi}, komm.ReflectedRectangularLabeling((mi, m - mi)), m
    rows = random_rows(ctx, m)
    k = r.randrange(4)
    mat = rows if k == 0 else np.array(rows) if k == 1 else np.array(rows, dtype=np.uint8) if k == 2 else np.asfortranarray(rows)
    return {"kind": "general", "mat": rows}, komm.Labeling(mat), m


def make_labeling(ctx):
    r = ctx.rng
    if r.random() < .65:
        return basic_def(ctx, r.choice([2, 3, 4, 5, 6]))
    parts, labs, m = [], [], 0
    repeat = r.choice([1, 1, 1, 2, 3])
    top = 6 // repeat
    for _ in range(r.randint(1, 3)):
        if m >= top:
            break
        d, l, k = basic_def(ctx, min(3, top - m))
        parts.append(d)
        labs.append(l)
        m += k
    if r.random() < .3 and all(p["kind"] == "general" for p in parts):
        lab = komm.ProductLabeling.from_matrices(*[p["mat"] for p in parts], repeat=repeat)
    elif repeat == 1 and r.random() < .5:
        lab = komm.ProductLabeling(*labs)
    else:
        lab = komm.ProductLabeling(*labs, repeat=repeat)
    return {"kind": "product", "parts": parts, "repeat": repeat}, lab, m * repeat


def lab_calls(ctx, s, lab, m, steps):
    r = ctx.rng
    M = 1 << m
    for _ in range(steps):
        op = r.choice(["matrix", "nbits", "card", "invmap", "i2b", "i2b", "i2b", "b2i", "b2i", "b2i", "rt", "marg", "marg", "bad"])
        shape = r.choice(SHAPES)
        if op == "matrix":
            s.call(op, lambda: lab.matrix, S_ints2)
        elif op == "nbits":
            s.call(op, lambda: lab.num_bits, S_int)
        elif op == "card":
            s.call(op, lambda: lab.cardinality, S_int)
        elif op == "invmap":
            s.call(op, lambda: lab.inverse_mapping, lambda d: [[[S_int(b) for b in k], S_int(v)] for k, v in d.items()])
        elif op in ("i2b", "rt"):
            a = ctx.np.integers(0, M, size=shape)
            if r.random() < .2:
                a[...] = M - 1
            inp = layout(ctx, a)
            keep = np.array(inp, copy=True)
            ok, raw = s.call("i2b", lambda: lab.indices_to_bits(inp), S_nd, x=S_nd(a))
            s.note("same", v=bool(np.array_equal(keep, np.array(inp))))
            if ok and op == "rt":
                s.call("b2i", lambda: lab.bits_to_indices(raw), S_nd, x=S_nd(raw))
        elif op == "b2i":
            bshape = shape[:-1] + (shape[-1] * m,)
            b = ctx.np.integers(0, 2, size=bshape)
            inp = layout(ctx, b)
            keep = np.array(inp, copy=True)
            s.call(op, lambda: lab.bits_to_indices(inp), S_nd, x=S_nd(b))
            s.note("same", v=bool(np.array_equal(keep, np.array(inp))))
        elif op == "marg":
            shape = r.choice(SHAPES + [(2, 2, 3), (3, 1, 2), (2, 1, 2, 2)])
            if M * int(np.prod(shape)) > 200:
                shape = r.choice([(1,), (2,), (1, 1), (1, 1, 2)]) if M <= 64 else (1,)
            w = ctx.np.integers(0, r.choice([2, 4, 10, 100]), size=shape[:-1] + (shape[-1] * M,))
            # keep every (bit value) sum defined: at least one nonzero metric per group
            g = w.reshape(-1, M)
            for row in g:
                if row.sum() == 0:
                    row[r.randrange(M)] = 1 + r.randrange(3)
            w = g.reshape(w.shape)
            k = r.randrange(7)
            inp = w if k == 0 else w.astype(float) if k == 1 else w / 1024.0 if k == 2 else w.tolist() if k == 3 else np.asfortranarray(w * 0.5) if k == 4 else w * 2.0 ** r.choice([-1000, -500, -140, -60, 60, 500, 1000])
            s.call(op, lambda: lab.marginalize(inp), S_lratio, x=S_nd(w))
        elif op == "bad":
            if m > 1:
                s.call("bad", lambda: lab.bits_to_indices([0] * (m + 1)), lambda v: 0)
            s.call("bad", lambda: lab.marginalize([1] * (M + 1)), lambda v: 0)


def labelings(ctx):
    for _ in range(ctx.n(900, 8000)):
        d, lab, m = make_labeling(ctx)
        s = ctx.session("lab", wide=False, **{"def": d})
        lab_calls(ctx, s, lab, m, ctx.rng.randint(3, 12))
        s.end()


def labelings_all(ctx):
    """every labeling of one and two bits, each index and each word; large labelings end to end"""
    for m in (1, 2):
        for p in itertools.permutations(range(1 << m)):
            rows = [[v >> (m - 1 - j) & 1 for j in range(m)] for v in p]
            lab = komm.Labeling(rows)
            s = ctx.session("all", wide=False, **{"def": {"kind": "general", "mat": rows}})
            for v in range(1 << m):
                s.call("i2b", lambda: lab.indices_to_bits([v]), S_nd, x={"shape": [1], "d": [v]})
                b = [v >> (m - 1 - j) & 1 for j in range(m)]
                s.call("b2i", lambda: lab.bits_to_indices(b), S_nd, x={"shape": [m], "d": b})
            s.call("matrix", lambda: lab.matrix, S_ints2)
            s.end()
    defs = [({"kind": "natural", "m": m}, lambda m=m: komm.NaturalLabeling(m), m) for m in range(1, ctx.n(9, 11))]
    defs += [({"kind": "reflected", "m": m}, lambda m=m: komm.ReflectedLabeling(m), m) for m in range(1, ctx.n(9, 11))]
    defs += [({"kind": "rect", "mi": a, "mq": b}, lambda a=a, b=b: komm.ReflectedRectangularLabeling((a, b)), a + b)
             for a in range(1, 5) for b in range(1, 5)]
    for d, f, m in defs:
        s = ctx.session("large", wide=False, **{"def": d})
        lab = f()
        idx = np.arange(1 << m)
        ok, raw = s.call("i2b", lambda: lab.indices_to_bits(idx), S_nd, x=S_nd(idx))
        if ok:
            s.call("b2i", lambda: lab.bits_to_indices(raw), S_nd, x=S_nd(raw))
        s.call("matrix", lambda: lab.matrix, S_ints2)
        s.call("card", lambda: lab.cardinality, S_int)
        s.call("nbits", lambda: lab.num_bits, S_int)
        s.end()
    # definitions that are not labelings are refused
    s = ctx.session("bad", wide=False, **{"def": {"kind": "natural", "m": 1}})
    for bad in ([[0, 0], [0, 1], [1, 1], [1, 1]], [[0], [0]], [[0], [2]], [[-1], [1]], [[0, 1], [1, 0]], [0, 1], [[0], [1], [1]],
                [[0, 0], [0, 1], [1, 0]], [[.5], [1]], [[0, 0, 1], [0, 1, 0]], [[[0], [1]]]):
        s.call("bad", lambda: komm.Labeling(bad), lambda v: 0)
    for f in (lambda: komm.NaturalLabeling(0), lambda: komm.ReflectedLabeling(0), lambda: komm.ReflectedRectangularLabeling(3),
              lambda: komm.ReflectedRectangularLabeling((0, 2)), lambda: komm.ProductLabeling(), lambda: komm.NaturalLabeling(-1),
              lambda: komm.ProductLabeling(komm.NaturalLabeling(1), repeat=0), lambda: komm.ReflectedRectangularLabeling(0)):
        s.call("bad", f, lambda v: 0)
    s.end()


def labelings_wide(ctx):
    """labelings of up to sixteen bits, a few indices and words at a time"""
    r = ctx.rng
    for it in range(ctx.n(40, 300)):
        k = r.randrange(4) if it > 7 else it % 2
        top = [17, 16, 15, 13][it // 2 % 4] if it <= 7 else r.choice([9, 10, 11, 12, 13, 14, 15, 16, 17])
        if k == 0:
            m = top
            d, f = {"kind": "natural", "m": m}, lambda: komm.NaturalLabeling(m)
        elif k == 1:
            m = top
            d, f = {"kind": "reflected", "m": m}, lambda: komm.ReflectedLabeling(m)
        elif k == 2:
            mi, mq = r.choice([(1, 8), (8, 1), (5, 5), (6, 6), (2, 9), (7, 4), (1, 12), (9, 3)])
            m, d, f = mi + mq, {"kind": "rect", "mi": mi, "mq": mq}, lambda: komm.ReflectedRectangularLabeling((mi, mq))
        else:
            parts, labs, m = [], [], 0
            while m < 9:
                a = r.choice([1, 1, 2, 3, 4])
                kind = r.choice(["natural", "reflected"])
                parts.append({"kind": kind, "m": a})
                labs.append(komm.NaturalLabeling(a) if kind == "natural" else komm.ReflectedLabeling(a))
                m += a
            d, f = {"kind": "product", "parts": parts}, lambda: komm.ProductLabeling(*labs)
        s = ctx.session("wide", wide=True, **{"def": d})
        lab = f()
        s.call("wcard", lambda: lab.cardinality, S_int)
        for _ in range(2):
            idx = [r.choice([0, (1 << m) - 1, 1 << r.randrange(m), (1 << m) - 1 - (1 << r.randrange(m)), r.randrange(1 << m), r.randrange(1 << m)]) for _ in range(r.randint(1, 40))]
            ok, raw = s.call("wi2b", lambda: lab.indices_to_bits(layout(ctx, np.array(idx))), lambda v: [S_int(x) for x in v], x=idx)
            b = [r.randrange(2) for _ in range(m * r.randint(1, 20))]
            for w in ([[int(x) for x in raw]] if ok else []) + [b]:
                s.call("wb2i", lambda: lab.bits_to_indices(layout(ctx, np.array(w))), lambda v: [S_int(x) for x in v], x=w)
        i = r.randrange(1 << m)
        s.call("wrow", lambda: lab.matrix[i], lambda v: [S_int(x) for x in v], x=i)
        s.end()


# ---------------------------------------------------------------- constellations
LN2 = math.log(2)


def make_const(ctx, family=None):
    """(definition in units, object, unit, complex?, N, exact?)"""
    r = ctx.rng
    u = r.choice([1.0, 1.0, 0.5, 0.25, 2.0, 0.1, 0.05, 3.0, 1e-9, 1e-14, 1e9])
    kind = family or r.choice(["general", "general", "pam", "pam", "ask", "psk", "psk", "qam", "qam", "cross", "apsk", "orth", "biorth", "simplex"])
    rot = r.random() < .5
    turn = r.choice([0, 240, 480, 720]) if not rot else r.randrange(960)
    tneg = r.choice([0, 0, 0, -960, 960])
    phi = (turn + tneg) / 960
    dflt = r.random() < .25
    if kind == "general":
        cplx = r.random() < .5
        N = r.choice([1, 1, 2, 3])
        M = r.randint(1, 9)
        co = [[r.randint(-8, 8) for _ in range(N * (2 if cplx else 1))] for _ in range(M)]
        a = np.array(co) * u
        if cplx:
            a = a[:, ::2] + 1j * a[:, 1::2]
        k = r.randrange(4)
        if N == 1 and k == 0:
            a = a.ravel()
        m = a.tolist() if k == 1 else np.asfortranarray(a) if k == 2 else a
        return {"kind": kind, "pts": co}, komm.Constellation(m), u, cplx, N, True
    if kind == "pam":
        M = r.choice([2, 2, 3, 4, 5, 8, 16, 1, 7, 32])
        d = r.choice([2, 4, 6, 10])
        if dflt:
            return {"kind": kind, "M": M, "delta": 2}, komm.PAMConstellation(M), 1.0, False, 1, True
        return {"kind": kind, "M": M, "delta": d}, komm.PAMConstellation(M, d * u), u, False, 1, True
    if kind == "ask":
        M = r.choice([2, 3, 4, 8, 5, 16])
        if dflt:
            return {"kind": kind, "M": M, "A": 1, "t": 0}, komm.ASKConstellation(M), 1.0, True, 1, True
        A = r.choice([1, 2, 3, 4, 8]) if not rot else r.choice([100, 150])
        v = u if not rot else u / 100
        return {"kind": kind, "M": M, "A": A, "t": turn}, komm.ASKConstellation(M, A * v, phi), v, True, 1, not rot
    if kind == "psk":
        if not rot and r.random() < .5:
            M, A = r.choice([1, 2, 4]), r.choice([1, 2, 5, 8])
            return {"kind": kind, "M": M, "A": A, "t": turn}, komm.PSKConstellation(M, A * u, phase_offset=phi), u, True, 1, True
        M = r.choice([3, 5, 6, 8, 12, 16, 32, 10, 4, 2])
        A = r.choice([600, 1000, 2000])
        if dflt:
            return {"kind": kind, "M": M, "A": 1000, "t": 0}, komm.PSKConstellation(M), .001, True, 1, False
        return {"kind": kind, "M": M, "A": A, "t": turn}, komm.PSKConstellation(M, A * u / 100, phi), u / 100, True, 1, False
    if kind == "qam":
        s = 1 if not rot else 50
        v = u if not rot else u / 50
        k = r.randrange(3)
        if k == 0:
            q = r.choice([2, 3, 4, 4, 8])
            if dflt:
                return {"kind": kind, "Mi": q, "Mq": q, "di": 2, "dq": 2, "t": 0}, komm.QAMConstellation(q * q), 1.0, True, 1, True
            return ({"kind": kind, "Mi": q, "Mq": q, "di": 4 * s, "dq": 4 * s, "t": turn},
                    komm.QAMConstellation(q * q, 4 * s * v, phi), v, True, 1, not rot)
        Mi, Mq = r.choice([1, 2, 2, 3, 4, 8]), r.choice([2, 2, 4, 5, 8])
        if k == 1:
            Mi, Mq = Mq, Mi
        di, dq = r.choice([2, 4, 6]) * s, r.choice([2, 4, 8]) * s
        return ({"kind": kind, "Mi": Mi, "Mq": Mq, "di": di, "dq": dq, "t": turn},
                komm.QAMConstellation((Mi, Mq), deltas=(di * v, dq * v), phase_offset=phi), v, True, 1, not rot)
    if kind == "cross":
        k = r.choice([5, 5, 7])
        s = 1 if not rot else 50
        v = u if not rot else u / 50
        if dflt:
            return {"kind": kind, "M": 1 << k, "k": k, "delta": 2, "t": 0}, komm.CrossQAMConstellation(1 << k), 1.0, True, 1, True
        d = r.choice([2, 4]) * s
        return {"kind": kind, "M": 1 << k, "k": k, "delta": d, "t": turn}, komm.CrossQAMConstellation(1 << k, d * v, phi), v, True, 1, not rot
    if kind == "apsk":
        K = r.randint(1, 3)
        if r.random() < .4:
            Ms = [r.choice([1, 2, 4]) for _ in range(K)]
            As = sorted(r.sample(range(1, 9), K))
            ts = [r.choice([0, 240, 480, 720]) for _ in range(K)]
            v, exact = u, True
        else:
            Ms = [r.choice([1, 3, 4, 6, 8, 12, 16]) for _ in range(K)]
            As = sorted(r.sample([300, 500, 800, 1200, 2000], K))
            ts = [r.randrange(960) for _ in range(K)]
            v, exact = u / 100, False
        if r.random() < .4:
            ts = [ts[0]] * K
            ph = ts[0] / 960
        else:
            ph = tuple(t / 960 for t in ts)
        return ({"kind": kind, "Ms": Ms, "As": As, "ts": ts},
                komm.APSKConstellation(orders=tuple(Ms), amplitudes=tuple(a * v for a in As), phase_offsets=ph), v, True, 1, exact)
    if kind == "orth":
        M = r.choice([1, 2, 3, 4, 8, 11, 16]) if not dflt else r.choice([2, 4])
        A = r.choice([2, 3, 7]) if not dflt else 1
        return {"kind": kind, "M": M, "A": A}, komm.OrthogonalConstellation(M, A * u) if not dflt else komm.OrthogonalConstellation(M), u if not dflt else 1.0, False, M, True
    if kind == "biorth":
        M = r.choice([2, 4, 6, 8, 12, 20, 32])
        A = r.choice([2, 3, 7]) if not dflt else 1
        return {"kind": kind, "M": M, "A": A}, komm.BiorthogonalConstellation(M, A * u) if not dflt else komm.BiorthogonalConstellation(M), u if not dflt else 1.0, False, M // 2, True
    M = r.choice([2, 3, 4, 5, 8, 9, 12, 16])
    A = M * r.choice([1, 2, 3])
    if dflt:
        return {"kind": kind, "M": M, "A": M}, komm.SimplexConstellation(M), 1.0 / M, False, M, True
    return {"kind": kind, "M": M, "A": A}, komm.SimplexConstellation(M, A * u), u, False, M, True


def co_of(z, u, cplx):
    """coordinates of a vector of N values, in units"""
    out = []
    for x in z:
        if cplx:
            x = complex(x)
            out += [fx(1 / u)(x.real), fx(1 / u)(x.imag)]
        else:
            if isinstance(x, complex):
                raise Malformed("complex value for a real constellation")
            out.append(fx(1 / u)(float(x)))
    return out


def S_points(u, cplx, N):
    def f(v):
        v = np.asarray(v)
        if v.ndim != 2 or v.shape[1] != N:
            raise Malformed(f"matrix of shape {v.shape}")
        if cplx != np.iscomplexobj(v):
            raise Malformed(f"dtype {v.dtype}")
        return [co_of(row, u, cplx) for row in v.tolist()]
    return f


def S_syms(u, cplx, N):
    def f(v):
        v = np.asarray(v)
        if v.size % N:
            raise Malformed(f"shape {v.shape}")
        return {"shape": list(v.shape), "d": [co_of(z, u, cplx) for z in v.reshape(-1, N).tolist()]}
    return f


def received(ctx, co, u, cplx, N, shape, reach, exact, far=0):
    """received points near constellation points, on decision borders and far away; now and then on the
    real axis (as a real array) or, for whole units, as an array of integers"""
    r = ctx.rng
    axis = cplx and r.random() < .15
    ints = u == 1.0 and r.random() < .15
    n = int(np.prod(shape))
    pts = []
    for _ in range(n):
        k = r.randrange(5)
        if k == 0:
            p = list(r.choice(co))
        elif k == 1:
            a, b = r.choice(co), r.choice(co)
            p = [(x + y) // 2 for x, y in zip(a, b)]
        elif k == 2:
            p = [x + r.randint(-3, 3) for x in r.choice(co)]
        elif k == 3:
            p = [r.randint(-reach, reach) for _ in co[0]]
        else:
            p = [r.choice([-1, 1]) * r.randint(0, 3 * reach) for _ in co[0]]
        if far and r.random() < .3:
            p[r.randrange(len(p))] += r.choice([-1, 1]) * far
        if axis:
            p[1::2] = [0] * len(p[1::2])
        pts.append(p)
    a = np.array(pts, dtype=float) * u
    if cplx:
        a = a[:, ::2] + 1j * a[:, 1::2]
    if axis:
        a = a.real
    if ints and not np.iscomplexobj(a):
        a = a.astype(int)
    a = a.reshape(shape[:-1] + (shape[-1] * N,))
    return pts, a


def const_calls(ctx, s, C, u, cplx, N, exact, steps):
    r = ctx.rng
    M = C.order
    co = [co_of(row, u, cplx) for row in np.asarray(C.matrix).tolist()]
    reach = max(4, max(abs(x) for p in co for x in p) * 3 // 2)
    small = exact and reach <= 60
    for _ in range(steps):
        op = r.choice(["points", "order", "dim", "i2s", "i2s", "ci", "ci", "ci", "ci", "cs", "mean", "energy", "mind", "post", "post", "bad"])
        shape = r.choice(SHAPES)
        if op == "points":
            s.call(op, lambda: C.matrix, S_points(u, cplx, N))
        elif op == "order":
            s.call(op, lambda: C.order, S_int)
        elif op == "dim":
            s.call(op, lambda: C.dimension, S_int)
        elif op == "i2s":
            a = ctx.np.integers(0, M, size=shape)
            inp = layout(ctx, a)
            ok, raw = s.call(op, lambda: C.indices_to_symbols(inp), S_syms(u, cplx, N), x=S_nd(a))
            if ok and len({tuple(p) for p in co}) == M:
                s.call("back", lambda: C.closest_indices(raw), S_nd, x=S_nd(a))
        elif op in ("ci", "cs"):
            pts, a = received(ctx, co, u, cplx, N, shape, reach, exact)
            X = {"shape": list(a.shape), "d": pts}
            inp = layout(ctx, a)
            keep = np.array(inp, copy=True)
            if op == "ci":
                s.call(op, lambda: C.closest_indices(inp), S_nd, x=X)
            else:
                s.call(op, lambda: C.closest_symbols(inp), S_syms(u, cplx, N), x=X)
            s.note("same", v=bool(np.array_equal(keep, np.array(inp))))
        elif op in ("mean", "energy", "post"):
            w = [] if r.random() < .5 else [r.choice([0, 1, 1, 2, 5]) for _ in range(M)]
            if w and sum(w) == 0:
                w[r.randrange(M)] = 1
            T = sum(w)
            pri = None if not w else [x / T for x in w]
            if pri and r.random() < .5:
                pri = np.array(pri)
            if op == "mean":
                f = (lambda: C.mean()) if pri is None and r.random() < .5 else (lambda: C.mean(priors=pri))
                s.call(op, f, lambda v: [fx(100)(x / u) for z in np.asarray(v).tolist() for x in ((z.real, z.imag) if cplx else (z,))], w=w)
            elif op == "energy":
                s.call(op, lambda: C.mean_energy(pri), lambda v: fx(1)(v / u**2), w=w)
            elif small:
                shape = r.choice(SHAPES[:6])
                if M * int(np.prod(shape)) > 150:
                    shape = (1,)
                pts, a = received(ctx, co, u, cplx, N, shape, min(reach, 20), exact, far=r.choice([0, 200, 1500]))
                X = {"shape": list(a.shape), "d": pts}
                noise = 16 / LN2 * u**2 if cplx else 8 / LN2 * u**2
                s.call(op, lambda: C.posteriors(a, noise, pri) if pri is not None else C.posteriors(a, noise_power=noise),
                       lambda v: {"shape": list(np.shape(v)), "d": [fx(20000)(x) for x in np.asarray(v).ravel().tolist()]}, x=X, w=w)
        elif op == "mind":
            if M >= 2:
                s.call(op, lambda: C.minimum_distance(), lambda v: fx(1)((v / u) ** 2))
        elif op == "bad":
            if N > 1:
                s.call(op, lambda: C.posteriors(np.zeros(N + 1), 1.0), lambda v: 0)
            s.call(op, lambda: C.mean([1.0 / (M + 1)] * (M + 1)), lambda v: 0)
            s.call(op, lambda: C.mean_energy([2.0] + [0.0] * (M - 1)), lambda v: 0)
            s.call(op, lambda: C.posteriors(np.zeros(N), 1.0, [1.0 / (M + 1)] * (M + 1)), lambda v: 0)


def constellations(ctx):
    for _ in range(ctx.n(1400, 9000)):
        d, C, u, cplx, N, exact = make_const(ctx)
        s = ctx.session(d["kind"], **{"def": d}, exact=exact, cplx=cplx, N=N)
        const_calls(ctx, s, C, u, cplx, N, exact, ctx.rng.randint(3, 10))
        s.end()


def const_offset(ctx):
    """points and received vectors a long way from the origin: decisions and distances do not depend on where the origin is"""
    r = ctx.rng
    for _ in range(ctx.n(120, 900)):
        cplx, N = r.random() < .5, r.choice([1, 1, 2, 3])
        M, D = r.randint(2, 7), N * (2 if cplx else 1)
        co = [list(p) for p in {tuple(r.randint(-8, 8) for _ in range(D)) for _ in range(M)}]
        r.shuffle(co)
        u = r.choice([1.0, 0.5, 0.25, 2.0])
        off = np.array([r.choice([0, 1, -1]) * r.choice([2**20, 2**24 + 3, 2**27 + 1, 2**29 - 5]) for _ in range(D)]) * u
        join = lambda a: a[..., ::2] + 1j * a[..., 1::2] if cplx else a
        C = komm.Constellation(join(np.array(co) * u + off))
        s = ctx.session("offset", **{"def": {"kind": "general", "pts": co}}, exact=True, cplx=cplx, N=N)
        o = join(off)
        back = lambda v: np.asarray(v) - np.tile(o, np.asarray(v).shape[-1] // N)
        s.call("points", lambda: back(C.matrix), S_points(u, cplx, N))
        if len(co) > 1:
            s.call("mind", lambda: C.minimum_distance(), lambda v: fx(1)((v / u) ** 2))
        s.call("mean", lambda: C.mean() - o, lambda v: [fx(100)(x / u) for z in np.asarray(v).tolist() for x in ((z.real, z.imag) if cplx else (z,))], w=[])
        for _ in range(4):
            shape = r.choice(SHAPES)
            pts, a = received(ctx, co, 1.0, False, D, shape, 16, True)
            a = join((a.reshape(-1, D) * u + off)).reshape(shape[:-1] + (shape[-1] * N,))
            X = {"shape": list(a.shape), "d": pts}
            inp = layout(ctx, a)
            k = r.randrange(4)
            if k < 2:
                s.call("ci", lambda: C.closest_indices(inp), S_nd, x=X)
            elif k == 2:
                s.call("cs", lambda: back(C.closest_symbols(inp)), S_syms(u, cplx, N), x=X)
            else:
                noise = 16 / LN2 * u**2 if cplx else 8 / LN2 * u**2
                s.call("post", lambda: C.posteriors(inp, noise), lambda v: {"shape": list(np.shape(v)), "d": [fx(20000)(x) for x in np.asarray(v).ravel().tolist()]}, x=X, w=[])
        idx = np.arange(len(co))
        s.call("back", lambda: C.closest_indices(C.indices_to_symbols(idx)), S_nd, x=S_nd(idx))
        s.end()


def const_rings(ctx):
    """phase-shift constellations of an order that does not divide the table's turn: equally spaced on their circle"""
    r = ctx.rng
    for _ in range(ctx.n(25, 150)):
        M = r.choice([7, 9, 11, 13, 14, 17, 18, 21, 27, 33, 37, 100, 128, 200, 256])
        u = r.choice([1.0, 0.5, 1e-9, 1e6])
        t = r.choice([0, 0, 120, 240, 480, r.randrange(-960, 1920)])
        A = 2000
        C = komm.PSKConstellation(M, A * u, t / 960)
        rows = S_points(u, True, 1)(C.matrix)
        s = ctx.session("ring", **{"def": {"kind": "general", "pts": rows}}, exact=False, cplx=True, N=1)
        s.call("ring", lambda: C.matrix, S_points(u, True, 1), M=M, A=A, t=t)
        s.call("order", lambda: C.order, S_int)
        s.call("dim", lambda: C.dimension, S_int)
        s.call("mean", lambda: C.mean(), lambda v: [fx(100)(x / u) for z in np.asarray(v).tolist() for x in (z.real, z.imag)], w=[])
        s.call("energy", lambda: C.mean_energy(), lambda v: fx(1)(v / u**2), w=[])
        s.call("mind", lambda: C.minimum_distance(), lambda v: fx(1)((v / u) ** 2))
        idx = ctx.np.integers(0, M, size=r.choice(SHAPES))
        ok, raw = s.call("i2s", lambda: C.indices_to_symbols(idx), S_syms(u, True, 1), x=S_nd(idx))
        if ok:
            s.call("back", lambda: C.closest_indices(raw), S_nd, x=S_nd(idx))
            # up to 0.4 of a step off in angle, and anywhere along the radius
            turn = ctx.np.uniform(-.4, .4, size=idx.shape) / M
            rad = 10.0 ** ctx.np.uniform(-6, 6, size=idx.shape)
            s.call("back", lambda: C.closest_indices(raw * np.exp(2j * np.pi * turn) * rad), S_nd, x=S_nd(idx))
        s.end()


def const_large(ctx):
    """constellations of many points"""
    r = ctx.rng
    for _ in range(ctx.n(20, 120)):
        u = r.choice([1.0, 0.5, 2.0])
        kind = r.choice(["general", "general", "general", "general", "pam", "qam", "psk", "cross"])
        cplx, N, exact = True, 1, True
        if kind == "general":
            cplx, N = r.random() < .5, 1 if r.random() < .7 else 2
            D = N * (2 if cplx else 1)
            M = r.choice([65, 70, 100, 129, 150])
            R = 4 * M if D == 1 else 40
            # one pair of points closer than all the others, anywhere in the list
            grid = r.sample(list(itertools.product(range(-R // 4, R // 4), repeat=D)), M) if D <= 2 else \
                list({tuple(r.randint(-10, 10) for _ in range(D)) for _ in range(M)})
            co = [[4 * x for x in p] for p in grid]
            co[r.randrange(len(co))] = [4 * x + (j == 0) for j, x in enumerate(grid[r.choice([-1, r.randrange(len(co))])])]
            if len({tuple(p) for p in co}) < len(co):
                continue
            a = np.array(co) * u
            d, C = {"kind": kind, "pts": co}, komm.Constellation(a[:, ::2] + 1j * a[:, 1::2] if cplx else a)
        elif kind == "pam":
            M = r.choice([64, 100, 128, 200, 512])
            d, C, cplx = {"kind": kind, "M": M, "delta": 2}, komm.PAMConstellation(M, 2 * u), False
        elif kind == "psk":
            M = r.choice([64, 80, 96, 120])
            d, C, exact = {"kind": kind, "M": M, "A": 2000, "t": 0}, komm.PSKConstellation(M, 2000 * u), False
        elif kind == "qam":
            Mi, Mq = r.choice([(10, 10), (16, 8), (8, 16), (9, 13), (16, 16), (3, 64)])
            d, C = {"kind": kind, "Mi": Mi, "Mq": Mq, "di": 2, "dq": 4, "t": 0}, komm.QAMConstellation((Mi, Mq), deltas=(2 * u, 4 * u))
        else:
            k = r.choice([7, 7, 9])
            d, C = {"kind": kind, "M": 1 << k, "k": k, "delta": 2, "t": 0}, komm.CrossQAMConstellation(1 << k, 2 * u)
        s = ctx.session("large-" + kind, **{"def": d}, exact=exact, cplx=cplx, N=N)
        M = C.order
        s.call("points", lambda: C.matrix, S_points(u, cplx, N))
        s.call("order", lambda: C.order, S_int)
        s.call("mind", lambda: C.minimum_distance(), lambda v: fx(1)((v / u) ** 2))
        s.call("energy", lambda: C.mean_energy(), lambda v: fx(1)(v / u**2), w=[])
        idx = np.arange(M)
        ok, raw = s.call("i2s", lambda: C.indices_to_symbols(idx), S_syms(u, cplx, N), x=S_nd(idx))
        if ok:
            s.call("back", lambda: C.closest_indices(raw), S_nd, x=S_nd(idx))
        co = [co_of(row, u, cplx) for row in np.asarray(C.matrix).tolist()]
        pts, a = received(ctx, co, u, cplx, N, (30,), max(abs(x) for p in co for x in p) * 3 // 2, exact)
        s.call("ci", lambda: C.closest_indices(a), S_nd, x={"shape": list(a.shape), "d": pts})
        s.end()


def const_families(ctx):
    """every family at many sizes: points, sizes, geometry, inverse mapping, decisions on a grid"""
    for fam in ("pam", "ask", "psk", "qam", "cross", "apsk", "orth", "biorth", "simplex"):
        for _ in range(ctx.n(30, 200)):
            d, C, u, cplx, N, exact = make_const(ctx, fam)
            s = ctx.session(fam, **{"def": d}, exact=exact, cplx=cplx, N=N)
            M = C.order
            co = [co_of(row, u, cplx) for row in np.asarray(C.matrix).tolist()]
            s.call("points", lambda: C.matrix, S_points(u, cplx, N))
            s.call("order", lambda: C.order, S_int)
            s.call("dim", lambda: C.dimension, S_int)
            if M >= 2:
                s.call("mind", lambda: C.minimum_distance(), lambda v: fx(1)((v / u) ** 2))
            s.call("mean", lambda: C.mean(), lambda v: [fx(100)(x / u) for z in np.asarray(v).tolist() for x in ((z.real, z.imag) if cplx else (z,))], w=[])
            s.call("energy", lambda: C.mean_energy(), lambda v: fx(1)(v / u**2), w=[])
            idx = np.arange(M)
            ok, raw = s.call("i2s", lambda: C.indices_to_symbols(idx), S_syms(u, cplx, N), x=S_nd(idx))
            if ok and len({tuple(p) for p in co}) == M:
                s.call("back", lambda: C.closest_indices(raw), S_nd, x=S_nd(idx))
            reach = max(4, max(abs(x) for p in co for x in p) * 3 // 2)
            pts, a = received(ctx, co, u, cplx, N, (40,), reach, exact)
            s.call("ci", lambda: C.closest_indices(a), S_nd, x={"shape": list(a.shape), "d": pts})
            if fam in ("pam", "ask") and exact and d.get("t", 0) == 0:
                # far outside: the nearest point is an end point
                a = np.array([1e20, -1e20, 1e19, -4e18], dtype=complex if cplx else float)
                pts = [[9000 * (1 if x.real > 0 else -1)] + ([0] if cplx else []) for x in a]
                s.call("ci", lambda: C.closest_indices(a), S_nd, x={"shape": [4], "d": pts})
            s.end()
    s = ctx.session("bad", **{"def": {"kind": "pam", "M": 2, "delta": 2}}, exact=True, cplx=False, N=1)
    for f in (lambda: komm.QAMConstellation(8), lambda: komm.QAMConstellation(15), lambda: komm.CrossQAMConstellation(16), lambda: komm.CrossQAMConstellation(8),
              lambda: komm.CrossQAMConstellation(64), lambda: komm.CrossQAMConstellation(48), lambda: komm.BiorthogonalConstellation(3),
              lambda: komm.BiorthogonalConstellation(7), lambda: komm.Constellation([[[1.0]]])):
        s.call("bad", f, lambda v: 0)
    s.end()
