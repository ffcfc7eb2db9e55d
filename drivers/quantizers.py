"""C24: scalar quantizers."""
import numpy as np

import komm
from drivers.mapping import SHAPES, layout
from harness.drive import INF, Malformed, S_int, S_nd, fx, fxs

NDSHAPES = SHAPES + [(), (0,), (2, 0), (7,), (4, 3)]


def S_idx(v):
    v = np.asarray(v)
    if v.dtype.kind not in "iu":
        raise Malformed(f"indices of dtype {v.dtype}")
    return S_nd(v)


def S_vals(u):
    f = fx(1 / u)

    def g(v):
        v = np.asarray(v)
        if v.dtype.kind != "f":
            raise Malformed(f"values of dtype {v.dtype}")
        return {"shape": list(v.shape), "d": [f(x) for x in v.ravel().tolist()]}
    return g


def make(ctx):
    """(definition, object, unit, exact, interesting integer inputs, levels, thresholds)"""
    r = ctx.rng
    k = r.randrange(6)
    exact = r.random() < .7
    u = r.choice([1.0, 0.5, 0.125, 2.0, 2.0**-20, 1024.0]) if exact else r.choice([0.1, 0.3, 1 / 3, 0.7, 1e-6])
    if k < 3:
        L = r.choice([1, 2, 2, 3, 4, 5, 8, 16, 33])
        span = r.choice([2 * L + 2, 8 * L, 40 * L])
        s = sorted(r.sample(range(-span, span + 1), 2 * L - 1))
        if r.random() < .2:
            o = r.choice([-1, 1]) * 2 * span
            s = [x + o for x in s]
        y, t = s[::2], s[1::2]
        c = r.randrange(5)
        if c == 4:     # whole levels and fractional thresholds, or the other way round, given as integers where they are
            j = r.randrange(2)
            y, t = [4 * x + 2 * j for x in y], [4 * x + 2 - 2 * j for x in t]
            u = .25
            exact = True
            if any(a >= b for a, b in zip(sorted(y + t), sorted(y + t)[1:])) or sorted(y + t)[::2] != y:
                y, t = [8 * i for i in range(L)], [8 * i + 2 for i in range(L - 1)]
                j = 0
            ya, ta = np.array(y) * u, np.array(t) * u
            if j == 0:
                ya = ya.astype(r.choice([int, np.int16]))
            else:
                ta = ta.astype(r.choice([int, np.int16]))
            if r.random() < .3:
                ya, ta = ya.tolist(), ta.tolist()
            return {"kind": "general", "y": y, "t": t}, komm.ScalarQuantizer(ya, ta), u, exact, y, t
        ya, ta = np.array(y) * u, np.array(t) * u
        if c == 0:
            ya, ta = ya.tolist(), ta.tolist()
        elif c == 1 and u >= 1.0 and exact:
            ya, ta = ya.astype(int), ta.astype(int)
        elif c == 2:
            ya, ta = np.repeat(ya, 2)[::2], np.flip(np.flip(ta).copy())
        return {"kind": "general", "y": y, "t": t}, komm.ScalarQuantizer(ya, ta), u, exact, y, t
    L = r.choice([2, 2, 3, 4, 5, 6, 7, 8, 9, 16, 31, 64])
    if k == 3:
        th = 0
        d = {"kind": "riser", "L": L}
        q = komm.UniformQuantizer.mid_riser(L, 8 * u)
        th = 0 if L % 2 == 0 else -4
    elif k == 4:
        d = {"kind": "tread", "L": L}
        q = komm.UniformQuantizer.mid_tread(L, 8 * u)
        th = 0 if L % 2 == 1 else -4
    else:
        th = r.choice([0, 0, r.randint(-8 * L, 8 * L)])
        d = {"kind": "uniform", "L": L, "th": th}
        q = komm.UniformQuantizer(L, 8 * u) if th == 0 and r.random() < .5 else komm.UniformQuantizer(num_levels=L, step=8 * u, offset=th / 8)
    y = [8 * i - 4 * (L - 1) + th for i in range(L)]
    return d, q, u, exact, y, [a + 4 for a in y[:-1]]


def inputs(ctx, y, t, shape, u):
    r = ctx.rng
    n = int(np.prod(shape))
    marks = y + t
    out = []
    for _ in range(n):
        k = r.randrange(8)
        if k < 3:
            out.append(r.choice(t or y))
        elif k == 3:
            out.append(r.choice(y))
        elif k < 6:
            out.append(r.choice(marks) + r.randint(-3, 3))
        elif k == 6:
            out.append(r.randint(min(marks) - 20, max(marks) + 20))
        else:
            out.append(r.choice([-1, 1]) * INF)
    a = np.array([x * u if abs(x) < INF else (np.inf if x > 0 else -np.inf) if r.random() < .5 else (1e300 if x > 0 else -1e300) for x in out], dtype=float)
    return {"shape": list(shape), "d": out}, a.reshape(shape)


def pdf_of(b, w, u, closed):
    """piecewise constant density (unnormalised weight w[k] on [b[k], b[k+1])), scaled to mass 1"""
    m = sum(wk * (b[k + 1] - b[k]) for k, wk in enumerate(w)) * u
    edges = np.array(b, dtype=float) * u
    ww = np.array(w, dtype=float) / m

    def pdf(x):
        k = np.clip(np.searchsorted(edges, x, side="right") - 1, 0, len(w) - 1)
        v = ww[k]
        return v if closed else v * ((x >= edges[0]) & (x <= edges[-1]))
    return pdf


def random_pdf(ctx, y, t):
    r = ctx.rng
    marks = y + t
    lo, hi = min(marks) - r.randint(1, 6), max(marks) + r.randint(1, 6)
    k = r.randrange(4)
    if k == 0:     # narrower than the quantizer
        lo, hi = sorted(r.sample(range(lo, hi + 1), 2)) if hi - lo > 2 else (lo, hi)
    elif k == 1:   # wider
        lo, hi = lo - 10, hi + 10
    n = r.randint(1, min(4, hi - lo))
    b = [lo] + sorted(r.sample(range(lo + 1, hi), n - 1)) + [hi] if n > 1 else [lo, hi]
    w = [r.randint(0, 3) for _ in range(len(b) - 1)]
    if sum(w) == 0:
        w[r.randrange(len(w))] = 1
    return b, w


def quantizers(ctx):
    r = ctx.rng
    for _ in range(ctx.n(1200, 9000)):
        d, q, u, exact, y, t = make(ctx)
        s = ctx.session(d["kind"], **{"def": d}, exact=exact)
        for _ in range(r.randint(3, 10)):
            op = r.choice(["levels", "thresholds", "digitize", "digitize", "digitize", "quantize", "quantize", "dq", "mse"])
            if op == "levels":
                s.call(op, lambda: q.levels, fxs(1 / u))
            elif op == "thresholds":
                s.call(op, lambda: q.thresholds, fxs(1 / u))
            elif op == "mse":
                if len(y) > 33 or max(map(abs, y)) > 200:
                    continue
                b, w = random_pdf(ctx, y, t)
                if sum(w) * (max(abs(b[0]), abs(b[-1])) + max(map(abs, y)))**3 * 100 > 2_000_000_000:
                    continue
                f = pdf_of(b, w, u, r.random() < .5)
                n = r.choice([None, 4096, 4096, 9001])
                g = (lambda: q.mean_squared_error(f, (b[0] * u, b[-1] * u))) if n is None else \
                    (lambda: q.mean_squared_error(f, (b[0] * u, b[-1] * u), points_per_interval=n))
                s.call(op, g, lambda v: fx(100)(v / u**2), b=b, w=w)
            else:
                X, a = inputs(ctx, y, t, r.choice(NDSHAPES), u)
                inp = a
                if a.ndim and a.size:
                    inp = layout(ctx, a)
                    if r.random() < .2 and u == 1.0 and np.abs(a).max() < 1e6:
                        inp = a.astype(r.choice([int, np.int32, np.float32]))
                elif r.random() < .5:
                    inp = a.tolist()
                keep = np.array(inp, copy=True)
                if op in ("digitize", "dq"):
                    s.call("digitize", lambda: q.digitize(inp), S_idx, x=X)
                if op in ("quantize", "dq"):
                    s.call("quantize", lambda: q.quantize(inp), S_vals(u), x=X)
                s.note("same", v=bool(np.array_equal(keep, np.array(inp))))
        s.end()
    s = ctx.session("bad", **{"def": {"kind": "general", "y": [0], "t": []}}, exact=True)
    for f in (lambda: komm.ScalarQuantizer([0, 1], []), lambda: komm.ScalarQuantizer([0, 1], [2]), lambda: komm.ScalarQuantizer([1, 0], [.5]),
              lambda: komm.ScalarQuantizer([0, 1], [0]), lambda: komm.ScalarQuantizer([0, 1], [1]), lambda: komm.ScalarQuantizer([0, 1, 2], [.5]),
              lambda: komm.ScalarQuantizer([0, 2, 1], [.5, 1.5]), lambda: komm.ScalarQuantizer([0, 1, 2], [1.5, .5]), lambda: komm.ScalarQuantizer([0, 0], [0]),
              lambda: komm.ScalarQuantizer([0, 1], [.5, 2]), lambda: komm.UniformQuantizer(1, 1.0), lambda: komm.UniformQuantizer(0, 1.0),
              lambda: komm.UniformQuantizer(4, 0.0), lambda: komm.UniformQuantizer(4, -1.0), lambda: komm.UniformQuantizer.mid_riser(1, 1.0),
              lambda: komm.UniformQuantizer.mid_tread(3, -2.0)):
        s.call("bad", f, S_int)
    s.end()


def edges(ctx):
    """many levels, any step: inputs on a reported threshold and on the floats next to it"""
    r = ctx.rng
    for _ in range(ctx.n(120, 900)):
        L = r.choice([2, 3, 5, 8, 17, 64, 100, 255, 256, 257, 300, 700])
        step = r.choice([0.1, 0.3, 1 / 3, 0.7, 1e-6, 1e-10, 3.7e-13, 1e-150, 1e8, 12345.678, 2.0, 1e150])
        k = r.randrange(4)
        if k == 0:
            q, d = komm.UniformQuantizer.mid_riser(L, step), {"kind": "riser", "L": L}
        elif k == 1:
            q, d = komm.UniformQuantizer.mid_tread(L, step), {"kind": "tread", "L": L}
        elif k == 2:
            th = r.randint(-16, 16)
            q, d = komm.UniformQuantizer(L, step, th / 8), {"kind": "uniform", "L": L, "th": th}
        else:
            m = r.sample(range(-8 * L, 8 * L), 2 * L - 1)
            m.sort()
            q, d = komm.ScalarQuantizer(np.array(m[::2]) * step, np.array(m[1::2]) * step), {"kind": "general", "y": m[::2], "t": m[1::2]}
        s = ctx.session("edges", **{"def": d}, exact=False)
        s.call("levels", lambda: q.levels, fxs((1 if k == 3 else 8) / step))
        s.call("thresholds", lambda: q.thresholds, fxs((1 if k == 3 else 8) / step))
        t = np.array(q.thresholds, dtype=float)
        y = np.array(q.levels, dtype=float).tolist()
        x = [[r.randrange(L - 1), r.choice([-1, 0, 1])] for _ in range(r.choice([1, 20, 60]))]
        a = np.array([t[j] if side == 0 else np.nextafter(t[j], side * np.inf) for j, side in x])
        s.call("edges", lambda: q.digitize(layout(ctx, a)), lambda v: S_idx(v)["d"], x=x)

        def position(v):
            v = np.asarray(v).tolist()
            if any(z not in y for z in v):
                raise Malformed("value that is not a level")
            return [y.index(z) for z in v]
        s.call("edges", lambda: q.quantize(layout(ctx, a)), position, x=x)
        s.end()


def lloyd(ctx):
    """Lloyd-Max quantizers satisfy the centroid and midpoint conditions for their density"""
    r = ctx.rng
    for _ in range(ctx.n(25, 150)):
        L = r.choice([2, 2, 3, 4, 5, 8])
        n = r.randint(1, 4)
        lo = r.randint(-8, 2)
        b = [lo]
        for _ in range(n):
            b.append(b[-1] + r.randint(1, 4))
        w = [r.randint(1, 3) for _ in range(n)]
        v = r.choice([1.0, 1.0, 0.5, 4.0, 1e-6, 1e-9, 1e6])
        f = pdf_of(b, w, v, r.random() < .5)
        q = komm.LloydMaxQuantizer(f, (b[0] * v, b[-1] * v), L)
        y, t = q.levels, q.thresholds
        B = [100 * x for x in b]
        s = ctx.session("lloyd", **{"def": {"kind": "lloyd", "L": L, "b": B, "w": w, "y": fxs(100 / v)(y), "t": fxs(100 / v)(t)}}, exact=False)
        s.note("count")
        s.note("order", v=True)
        s.note("midpoints")
        s.note("centroids")
        for _ in range(2):
            X, a = inputs(ctx, fxs(100 / v)(y), fxs(100 / v)(t), (30,), v / 100)
            s.call("digitize", lambda: q.digitize(a), S_idx, x=X)
        s.end()
