"""C28: entropies, divergences, mutual information, capacities."""
import numpy as np

import komm
from drivers.channels import CLS, PARAM
from drivers.mapping import layout
from drivers.sources import compose
from harness.drive import fx

Q = fx(2**20)
BASES = [(2, 1), (2, 1), (2, 1), (271801, 99990), (3, 1), (10, 1), (4, 1), (16, 1), (1, 2), (3, 2), (5, 1), (1, 10), (11, 10)]


def base(ctx):
    b = ctx.rng.choice(BASES)
    v = {(2, 1): ctx.rng.choice([2, 2.0, None]), (271801, 99990): "e"}.get(b, b[0] / b[1] if b[1] > 1 else ctx.rng.choice([b[0], float(b[0])]))
    return list(b), ({} if v is None else {"base": v})


def weights(ctx, nmax=6):
    r = ctx.rng
    n = r.randint(1, nmax)
    D = r.choice([1, 2, 3, 5, 7, 12, 20, 60])
    W = compose(r, D, r.sample(range(n), min(n, D, r.randint(1, n))), n)
    if r.random() < .2 and D >= n:
        W = compose(r, D, list(range(n)), n)
    return W, D


def pmf(ctx, W, D):
    a = np.array(W) / D
    if D == 1 and ctx.rng.random() < .3:
        return np.array(W)
    if ctx.rng.random() < .1:
        a = np.round(a, 7)
    return layout(ctx, a)


def laws(ctx):
    r = ctx.rng
    for _ in range(ctx.n(60, 500)):
        s = ctx.session("law")
        for _ in range(20):
            k = r.randrange(7)
            W, D = weights(ctx)
            if k <= 1:
                b, kw = base(ctx)
                p = pmf(ctx, W, D)
                s.call("H", lambda: komm.entropy(p, **kw), Q, W=W, D=D, b=b)
            elif k == 2:
                b, kw = base(ctx)
                S = komm.DiscreteMemorylessSource(len(W) if len(set(W)) == 1 else pmf(ctx, W, D))
                s.call("H", lambda: S.entropy_rate(**kw), Q, W=W, D=D, b=b)
            elif k == 3:
                D = r.choice([1, 2, 3, 10, 100, 1000])
                w = r.choice([0, D, r.randint(0, D), r.randint(0, D)])
                p = w / D
                s.call("Hb", lambda: komm.binary_entropy(p), Q, w=w, D=D)
            elif k == 4:
                hd = r.choice([1, 2, 3, 10, 1000])
                h = r.choice([0, hd, r.randint(0, hd), r.randint(0, hd)])
                s.call("Hinv", lambda: komm.binary_entropy_inv(h / hd), fx(2**15), h=h, hd=hd)
                s.call("Hround", lambda: komm.binary_entropy(komm.binary_entropy_inv(h / hd)), Q, h=h, hd=hd)
            else:
                b, kw = base(ctx)
                n = len(W)
                F = r.choice([1, 2, 3, 5, 12, 20])
                V = compose(r, F, r.sample(range(n), min(n, F, r.randint(1, n))), n)
                if r.random() < .2:
                    V, F = W, D
                elif r.random() < .4:
                    F = n + r.randint(0, 20)
                    V = compose(r, F, list(range(n)), n)
                p, q = pmf(ctx, W, D), pmf(ctx, V, F)
                s.call("KL", lambda: komm.relative_entropy(p, q, **kw), Q, W=W, D=D, V=V, F=F, b=b)
        s.end()


def extremes(ctx):
    """probabilities down to the smallest floating-point number, and invalid arguments"""
    r = ctx.rng
    s = ctx.session("tiny")
    for t in (20, 60, 300, 1000, 1022, 1023, 1040, 1074):
        s.call("Hx", lambda: komm.entropy([1.0, 2.0**-t]), Q, a=[0, t])
        s.call("Hx", lambda: komm.entropy([.5, 2.0**-t, .5]), Q, a=[1, t, 1])
        s.call("KLx", lambda: komm.relative_entropy([1.0, 0.0], [2.0**-t, 1.0]), Q, a=[0, 40], bx=[t, 0])
        s.call("KLx", lambda: komm.relative_entropy([.5, .5, 0], [2.0**-t, 1.0, 0.0]), Q, a=[1, 1], bx=[t, 0])
        s.call("KLx", lambda: komm.relative_entropy([2.0**-t, 1.0], [.5, .5]), Q, a=[t, 0], bx=[1, 1])
    s.end()
    s = ctx.session("small")      # relative accuracy at small probabilities
    for t in (21, 24, 28, 31, 36, 40, 44, 48, 60, 200, 1000):
        p = 2.0**-t
        s.call("Hs", lambda: komm.binary_entropy(p) * 2.0**t, Q, t=t)
        if t <= 48:
            s.call("Hs", lambda: komm.binary_entropy(1 - p) * 2.0**t, Q, t=t)
            s.call("Hs", lambda: komm.entropy(r.choice([[p, 1 - p], [1 - p, 0, p]])) * 2.0**t, Q, t=t)
            s.call("Hs", lambda: komm.DiscreteMemorylessSource([p, 1 - p]).entropy_rate() * 2.0**t, Q, t=t)
            s.call("Hs", lambda: komm.BinarySymmetricChannel(0).mutual_information([1 - p, p]) * 2.0**t, Q, t=t)
        s.call("Hz", lambda: komm.entropy([1.0, p]) * 2.0**t, Q, t=t)
    for t in (10, 30, 45, 50, 60, 80, 300, 1000, 1074):
        p = 2.0**-t
        s.call("KLinf", lambda: komm.relative_entropy([1 - p, p], [1, 0]), Q)
        s.call("KLinf", lambda: komm.relative_entropy([.5 - p, p, .5], [.5, 0, .5], base="e"), Q)
    s.end()
    s = ctx.session("nearly")   # laws accepted as summing to one
    for k in ("bsc", "bec", "z"):
        for w in (0, 3, 10):
            C = getattr(komm, CLS[k])(w / 10)
            for x, p, K in (([0, 1 + 1e-9], [0, 1], 1), ([1e-9, 1.0], [0, 1], 1), ([0.0, 1 + 5e-6], [0, 1], 1), ([.333333, .666666], [1, 2], 3), ([1.0, 1e-9], [1, 0], 1)):
                s.call("MI", lambda: C.mutual_information(x), Q, p=p, K=K, b=[2, 1], k=k, w=w, D=10)
    s.end()
    s = ctx.session("bad")
    N = float("nan")
    for p in ([.5, .6], [.5, .4], [1.5, -.5], [[.5, .5]], [[1.0]], 1.0, [N, 1], [N], []):
        s.call("bad", lambda: komm.entropy(p), lambda v: 0)
        s.call("bad", lambda: komm.relative_entropy(p, [.5, .5]), lambda v: 0)
        s.call("bad", lambda: komm.relative_entropy([.5, .5], p), lambda v: 0)
        for k in CLS:
            if k != "gauss":
                s.call("bad", lambda: getattr(komm, CLS[k])(.1).mutual_information(p), lambda v: 0)
    for b in (0, 1, 1.0, -2, -.5, "f", "2"):
        s.call("bad", lambda: komm.entropy([.5, .5], base=b), lambda v: 0)
        s.call("bad", lambda: komm.relative_entropy([.5, .5], [.5, .5], base=b), lambda v: 0)
        for k in CLS:
            if k != "gauss":
                C = getattr(komm, CLS[k])(.1)
                s.call("bad", lambda: C.mutual_information([.5, .5], base=b), lambda v: 0)
                s.call("bad", lambda: C.capacity(base=b), lambda v: 0)
        C = komm.DiscreteMemorylessChannel([[.5, .5], [0, 1]])
        s.call("bad", lambda: C.mutual_information([.5, .5], base=b), lambda v: 0)
        s.call("bad", lambda: C.capacity(base=b), lambda v: 0)
    for p in (-.1, 1.1, N):
        s.call("bad", lambda: komm.binary_entropy(p), lambda v: 0)
        s.call("bad", lambda: komm.binary_entropy_inv(p), lambda v: 0)
    for p, q in (([.5, .5], [1.0]), ([1.0], [.5, .5]), ([.5, .5, 0], [.5, .5])):
        s.call("bad", lambda: komm.relative_entropy(p, q), lambda v: 0)
    s.end()


def witness(P):
    """a nearly optimal input law and its output law, as weights out of 2000 (any law would do: the specification bounds with it)"""
    n = P.shape[0]
    r = np.full(n, 1 / n)
    for _ in range(3000):
        q = r @ P
        with np.errstate(divide="ignore", invalid="ignore"):
            d = np.where(P > 0, P * np.log(np.where(P > 0, P, 1) / np.where(q > 0, q, 1)), 0).sum(axis=1)
        r = r * np.exp(d)
        r /= r.sum()
    q = r @ P

    def weigh(x, K, floor):
        w = np.maximum(np.round(x * K).astype(int), floor)
        w[np.argmax(w)] += K - w.sum()
        return w.tolist()
    return weigh(r, 1000, np.zeros(n, int)), weigh(q, 4000, (P.max(axis=0) > 0).astype(int))


def channel(ctx):
    r = ctx.rng
    k = r.choice(["bsc", "bec", "z", "dmc", "dmc", "dmc"])
    D = r.choice([1, 2, 3, 4, 10, 20])
    if k != "dmc":
        w = r.choice([0, D, r.randint(0, D), r.randint(0, D)])
        C = getattr(komm, CLS[k])(w / D)
        M = {"bsc": [[D - w, w], [w, D - w]], "bec": [[D - w, 0, w], [0, D - w, w]], "z": [[D, 0], [w, D - w]]}[k]
        return C, {"k": k, "w": w, "D": D}, M, D
    n, m = r.randint(1, 4), r.randint(1, 5)
    M = [compose(r, D, r.sample(range(m), min(m, D, r.randint(1, m))), m) for _ in range(n)]
    if r.random() < .2:
        M[-1] = M[0]
    return komm.DiscreteMemorylessChannel(layout(ctx, np.array(M) / D)), {"k": k, "M": M, "D": D}, M, D


def channels(ctx):
    r = ctx.rng
    for _ in range(ctx.n(220, 1800)):
        C, f, M, D = channel(ctx)
        s = ctx.session("channel")
        n = len(M)
        for _ in range(5):
            K = r.choice([1, 2, 3, 10, 20])
            p = compose(r, K, r.sample(range(n), min(n, K, r.randint(1, n))), n)
            b, kw = base(ctx)
            x = pmf(ctx, p, K)
            s.call("MI", lambda: C.mutual_information(x, **kw), Q, p=p, K=K, b=b, **f)
            if f["k"] not in ("dmc",) and r.random() < .25:
                D = f["D"]
                f = {**f, "w": r.randint(0, D)}
                setattr(C, PARAM[f["k"]], f["w"] / D)
                w = f["w"]
                M = {"bsc": [[D - w, w], [w, D - w]], "bec": [[D - w, 0, w], [0, D - w, w]], "z": [[D, 0], [w, D - w]]}[f["k"]]
        p, q = witness(np.array(M) / D)
        b, kw = base(ctx)
        s.call("C", lambda: C.capacity(**kw), Q, p=p, K=1000, q=q, F=4000, b=b, **f)
        s.end()
