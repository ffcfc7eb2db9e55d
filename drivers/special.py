"""C32: Gaussian tail and its inverse, Marcum tail, box-plus."""
import math
from fractions import Fraction as F

import numpy as np

import komm
from harness.drive import Malformed, fx

Q24 = fx(1 << 24)
Q20 = fx(1 << 20)


def shaped(ctx, vals, ints=False):
    """values as scalar, list or array of some shape, layout and element type"""
    r, n = ctx.rng, len(vals)
    if ints and all(float(v) == int(v) for v in vals) and r.random() < .6:
        vals = [int(v) for v in vals]
        if n > 1 and max(map(abs, vals)) < 100 and r.random() < .5:
            typ = r.choice([np.int8, np.int16, np.int32] + ([np.uint8, np.uint16] if min(vals) >= 0 else []))
            return np.array(vals, dtype=typ).reshape(2, -1) if n % 2 == 0 else np.array(vals, dtype=typ)
    k = r.randrange(6)
    if n == 1:
        return [vals[0], np.array(vals)[0], np.array(vals[0]), vals, np.array(vals), np.array([[vals[0]]])][k]
    a = np.array(vals)
    if k == 0:
        return list(vals)
    if k == 1 and n % 2 == 0:
        return a.reshape(2, -1)
    if k == 2 and n % 4 == 0:
        return np.asfortranarray(a.reshape(2, 2, -1))
    if k == 3:
        return np.repeat(a, 3)[1::3]
    if k == 4 and n % 2 == 0:
        return a.reshape(-1, 2).tolist()
    return a


def like(vals, inp, dtype=None):
    """values in the shape of another input"""
    if np.ndim(inp) == 0:
        return vals[0]
    a = np.array(vals, dtype=dtype).reshape(np.shape(inp))
    return a.tolist() if isinstance(inp, list) else a


def S_vals(conv):
    def S(v):
        if np.iscomplexobj(v):
            raise Malformed("complex")
        a = np.asarray(v)
        return {"shape": list(a.shape), "d": conv([float(x) for x in a.ravel().tolist()])}
    return S


def record(s, op, fn, conv, *inputs, dims=None, **args):
    before = [np.array(x, copy=True) for x in inputs]
    s.call(op, fn, S_vals(conv), dims=list(np.shape(inputs[0]) if dims is None else dims), **args)
    s.d["ev"][-1]["unmod"] = all(np.array_equal(b, np.asarray(x)) for b, x in zip(before, inputs))


def scaled(xs):
    def conv(vs):
        out = []
        for x, v in zip(xs, vs):
            t = float(x) if x not in (F(10**6), F(-10**6)) else 0.0
            out.append([Q24(v), Q24(v * math.exp(t * t / 2) * t) if t >= 2 else 0])
        return out
    return conv


def gaussian(ctx):
    r = ctx.rng
    for _ in range(ctx.n(400, 2500)):
        s = ctx.session("gaussian")
        for _ in range(r.randint(2, 5)):
            n = r.choice([1, 1, 2, 4, 8, 12])
            xs = [r.choice([F(r.randint(-60, 60), 10), F(r.randint(-8, 8)), F(r.randint(20, 370), 10), F(r.randint(-80, 80), 16), F(r.randint(-40, 40), 1000), F(37), F(0), F(2)]) for _ in range(n)]
            op = r.choice(["q", "q", "inv", "round"])
            if op == "q":
                inf = r.random() < .1
                if inf:
                    xs[0] = r.choice([F(10**6), F(-10**6)])
                vals = [float(x) if abs(x) < 10**6 else math.copysign(math.inf, x) for x in xs]
                inp = shaped(ctx, vals, ints=not inf)
                record(s, op, lambda: komm.gaussian_q(inp), scaled(xs), inp, pts=[[x.numerator, x.denominator] if abs(x) < 10**6 else [1 if x > 0 else -1, 0] for x in xs])
            elif op == "inv":
                ks = [r.choice([0, 1 << 20, 1 << 19, 1, 2, (1 << 20) - 1, r.randrange(1 << 20), r.randrange(1 << 20), r.randrange(2000), (1 << 20) - r.randrange(2000)]) for _ in range(n)]
                inp = shaped(ctx, [k / (1 << 20) for k in ks], ints=True)
                record(s, op, lambda: komm.gaussian_q_inv(inp), lambda vs: [Q24(v) for v in vs], inp, pts=ks)
            else:
                xs = [x if x > -3 else -x for x in xs]
                ys = [komm.gaussian_q(float(x)) for x in xs]
                inp = shaped(ctx, ys)
                record(s, op, lambda: komm.gaussian_q_inv(inp), lambda vs: [Q20(v) for v in vs], inp, pts=[[x.numerator, x.denominator] for x in xs])
        s.end()
    s = ctx.session("domain")
    for y in (-0.1, 1.1, -1e-12, 2, -1, [0.5, 1.5], [[0.1], [-0.1]]):
        s.call("bad", lambda: komm.gaussian_q_inv(y), lambda v: 0)
    s.end()


def marcum(ctx):
    r = ctx.rng
    for q in range(ctx.n(300, 2500)):
        s = ctx.session("marcum")
        m = r.choice([1, 1, 1, 2, 3, 5, 10, 40])
        n = r.choice([1, 2, 4, 6])
        big = q % 3 == 0
        top = 25 if big else 6
        pts = []
        for _ in range(n):
            a = r.choice([F(0), F(r.randint(0, 10 * top), 10), F(r.randint(0, top)), F(r.randint(0, 4 * top), 4)])
            a = F(int(a)) if q % 4 == 1 else a
            x = r.choice([F(0), a, a + F(r.randint(-8, 8), 4), F(r.randint(0, 10 * top), 10), F(r.randint(0, top))])
            pts.append((a, F(int(abs(x))) if q % 4 == 1 else abs(x)))
        how = r.randrange(4)
        if how == 0:      # one a for all x, or the converse
            pts = [(pts[0][0], x) for _, x in pts]
            xs = shaped(ctx, [float(x) for _, x in pts], ints=True)
            args = (m, float(pts[0][0]), xs)
        elif how == 1:
            pts = [(a, pts[0][1]) for a, _ in pts]
            xs = shaped(ctx, [float(a) for a, _ in pts], ints=True)
            args = (m, xs, float(pts[0][1]))
        else:
            xs = shaped(ctx, [float(x) for _, x in pts])
            args = (m, like([float(a) for a, _ in pts], xs), xs)
        record(s, "marcum", lambda: komm.marcum_q(*args), lambda vs: [Q24(v) for v in vs], xs, m=m,
               pts=[[a.numerator, a.denominator, x.numerator, x.denominator] for a, x in pts])
        s.end()
    s = ctx.session("domain")
    for args in ((0, 1, 1), (-1, 1, 1), (1, -0.5, 1), (1, 1, -1e-9), (2, [1, -1], 1), (1, 0, [[0.5], [-2]])):
        s.call("bad", lambda: komm.marcum_q(*args), lambda v: 0)
    s.end()


def boxplus(ctx):
    r = ctx.rng
    odd = lambda: r.choice([1, 1, 2, 3, 7, 20, 999, r.randint(1, 1000)])  # noqa: E731
    for _ in range(ctx.n(500, 4000)):
        s = ctx.session("boxplus")
        for _ in range(r.randint(1, 3)):
            n = r.choice([1, 1, 2, 4, 8])
            op = r.choice(["plus", "plus", "large", "edge"])
            if op == "plus":
                pts = [[odd(), odd(), odd(), odd()] for _ in range(n)]
                a = shaped(ctx, [math.log(p / q) for p, q, _, _ in pts])
                b = like([math.log(p / q) for _, _, p, q in pts], a)
                record(s, op, lambda: komm.boxplus(a, b), lambda vs: [Q20(v) for v in vs], a, b, pts=pts)
            elif op == "large":
                rows = []
                for _ in range(n):
                    lo = r.choice([30, 40, 90, 127, 400, 800, 10**6])
                    d = r.choice([F(0), F(1), F(r.randint(0, 160), 10), F(r.randint(0, 30)), F(500)])
                    rows.append((lo, d, r.choice([1, -1]), r.choice([1, -1]), r.random() < .5))
                typ = None
                if r.random() < .4:   # whole L-values in a short integer type
                    typ = r.choice([np.int8, np.uint8, np.int16, np.int32, np.float32])
                    lim = 127 if typ in (np.int8, np.uint8) else 30000
                    rows = [(min(lo, 60 if lim == 127 else 800), F(int(d) % 60), 1 if typ is np.uint8 else u, 1 if typ is np.uint8 else v, w) for lo, d, u, v, w in rows]
                av = [u * (float(lo + d) if w else lo) for lo, d, u, v, w in rows]
                bv = [v * (lo if w else float(lo + d)) for lo, d, u, v, w in rows]
                if typ:
                    a, b = np.array(av).astype(typ), np.array(bv).astype(typ)
                    if n % 2 == 0:
                        a, b = a.reshape(2, -1), b.reshape(2, -1)
                else:
                    a = shaped(ctx, av)
                    b = like(bv, a)
                record(s, op, lambda: komm.boxplus(a, b),
                       lambda vs: [Q20(u * v * x - lo) for (lo, d, u, v, w), x in zip(rows, vs)], a, b,
                       pts=[[d.numerator, d.denominator] for _, d, *_ in rows])
            else:
                pts = [[r.choice([0, 9, -9, 9, -9, 1, -2]), r.choice([9, -9, 0])] for _ in range(n)]
                pts = [p if r.random() < .5 else p[::-1] for p in pts]
                val = {9: math.inf, -9: -math.inf}
                a = shaped(ctx, [val.get(p, float(p)) for p, _ in pts])
                b = like([val.get(q, float(q)) for _, q in pts], a)
                record(s, op, lambda: komm.boxplus(a, b), lambda vs: [Q20(v) for v in vs], a, b, pts=pts)
        s.end()
    s = ctx.session("domain")
    for a, b in (([1, 2], [1]), ([1, 2, 3], [1, 2]), ([[1, 2]], [1, 2]), (1, [1]), ([1], 2.0)):
        s.call("bad", lambda: komm.boxplus(a, b), lambda v: 0)
    s.end()
