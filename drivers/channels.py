"""C27: channels, sources and the generators that drive them."""
import numpy as np

import komm
from drivers.mapping import layout
from drivers.sources import compose
from harness.drive import Malformed, S_int, S_ints, S_nd, fxs, fxs2

U = 100     # record units per unit, Gaussian channel


def S_pair(v):
    return [S_int(v[0]), S_int(v[1])]


def gen_def(ctx, kinds=("bsc", "bec", "z", "dmc", "dms", "mc", "gauss")):
    r = ctx.rng
    k = r.choice(kinds)
    D = r.choice([1, 2, 3, 4, 10, 20])
    if k in ("bsc", "bec", "z"):
        return {"k": k, "W": r.choice([0, D, r.randint(0, D), r.randint(0, D)]), "D": D}
    if k == "gauss":
        return {"k": k, "W": r.choice([0, 100, 2500, 10000, 5000, 40000]), "D": U * U}
    if k == "dms":
        n = r.randint(1, 6)
        return {"k": k, "W": compose(r, D, r.sample(range(n), min(n, D, r.randint(1, n))), n), "D": D}
    n = r.randint(1, 4)
    m = n if k == "mc" else r.randint(1, 5)
    return {"k": k, "W": [compose(r, D, r.sample(range(m), min(m, D, r.randint(1, m))), m) for _ in range(n)], "D": D}


PARAM = {"bsc": "crossover_probability", "bec": "erasure_probability", "z": "decay_probability", "gauss": "noise_power"}
CLS = {"bsc": "BinarySymmetricChannel", "bec": "BinaryErasureChannel", "z": "ZChannel", "gauss": "GaussianChannel"}


def number(ctx, w, d):
    p = w / d
    if p in (0.0, 1.0) and ctx.rng.random() < .5:
        return int(p)
    return np.float64(p) if ctx.rng.random() < .2 else p


def approx(ctx, row):
    """a law the validators accept, up to rounding to six digits"""
    a = np.array(row, dtype=float)
    k = ctx.rng.randrange(6)
    if k == 0:
        return np.round(a, 6)
    return a


def build(ctx, d, rng):
    kw = {} if rng is None else {"rng": rng}
    k = d["k"]
    if k in CLS:
        p = number(ctx, d["W"], d["D"])
        C = getattr(komm, CLS[k])
        if ctx.rng.random() < .5:
            return C(**{PARAM[k]: p}, **kw)
        return C(p, **kw)
    a = approx(ctx, np.array(d["W"]) / d["D"])
    if ctx.rng.random() < .3:
        a = a.tolist()
    if k == "dmc":
        return komm.DiscreteMemorylessChannel(a, **kw)
    if k == "mc":
        return komm.MarkovChain(a, **kw)
    if len(set(d["W"])) == 1 and ctx.rng.random() < .7:
        return komm.DiscreteMemorylessSource(len(d["W"]), **kw)
    return komm.DiscreteMemorylessSource(a, **kw)


def nin(d):
    return len(d["W"]) if d["k"] in ("dmc", "mc") else 2


def some_shape(ctx):
    r = ctx.rng
    return r.choice([(), (0,), (1,), (2,), (5,), (9,), (2, 3), (3, 1, 2), (4, 4), (2, 0), (1, 7)])


def tx(ctx, s, C, d, o, x):
    y = layout(ctx, x) if x.size and x.ndim else (x if ctx.rng.random() < .5 else x.tolist())
    before = np.array(y, copy=True)
    out = {}

    def go():
        v = C.transmit(y)
        out["int"] = bool(np.asarray(v).dtype.kind in "iu")
        out["unmod"] = bool(np.array_equal(before, np.asarray(y)))
        return v
    s.call("tx", go, S_nd, o=o, x={"shape": list(x.shape), "d": x.ravel().tolist()})
    e = s.d["ev"][-1]
    e["int"], e["unmod"] = out.get("int", False), out.get("unmod", False)


def S_gauss(v):
    v = np.asarray(v)
    if v.dtype.kind not in "fc":
        raise Malformed(f"dtype {v.dtype}")
    f = fxs(U)
    return {"shape": list(v.shape), "cplx": v.dtype.kind == "c", "re": f(v.real.ravel()), "im": f(v.imag.ravel()) if v.dtype.kind == "c" else []}


def gauss_input(ctx, shape, cplx):
    amp = ctx.rng.choice([0, 3, 50])
    return ctx.np.integers(-amp, amp + 1, shape), ctx.np.integers(-amp, amp + 1, shape)


def gx(ctx, s, C, d, o, shape, cplx, given=None):
    r = ctx.rng
    xr, xi = given or gauss_input(ctx, shape, cplx)
    x = xr + 1j * xi if cplx else r.choice([xr, xr.astype(float)])
    y = layout(ctx, x) if x.size and x.ndim and not (x.dtype.kind == "i") else x
    before = np.array(y, copy=True)
    out = {}

    def go():
        v = C.transmit(y)
        out["unmod"] = bool(np.array_equal(before, np.asarray(y)))
        return v
    s.call("gx", go, S_gauss, o=o, cplx=cplx,
           x={"shape": list(shape), "re": (U * xr).ravel().tolist(), "im": (U * xi).ravel().tolist() if cplx else []})
    s.d["ev"][-1]["unmod"] = out.get("unmod", False)


def emit(ctx, s, C, o, shape):
    arg = shape
    if len(shape) == 1 and ctx.rng.random() < .5:
        arg = shape[0]
    out = {}

    def go():
        v = C.emit() if shape == (1,) and ctx.rng.random() < .5 else C.emit(shape=arg)
        out["int"] = bool(np.asarray(v).dtype.kind in "iu")
        return v
    s.call("emit", go, S_nd, o=o, sh=list(shape))
    s.d["ev"][-1]["int"] = out.get("int", False)


def use(ctx, s, C, d, o, script=None):
    """one use; script: the arguments of an earlier use to repeat"""
    r = ctx.rng
    k = d["k"]
    if k == "gauss":
        gx(ctx, s, C, d, o, some_shape(ctx), r.random() < .5)
    elif k == "dms":
        emit(ctx, s, C, o, some_shape(ctx) if script is None else script)
    elif k == "mc":
        x, n = (r.randrange(nin(d)), r.choice([0, 1, 2, 12])) if script is None else script
        s.call("sim", lambda: C.simulate(x, n), S_ints, o=o, x=x, steps=n)
    else:
        x = ctx.np.integers(0, nin(d), some_shape(ctx)) if script is None else script
        tx(ctx, s, C, d, o, np.asarray(x))


def histories(ctx):
    """generators shared, reseeded and swapped; objects re-parametrised; scripts replayed"""
    r = ctx.rng
    keep = komm.global_rng.get()
    try:
        for _ in range(ctx.n(500, 3500)):
            s = ctx.session("history")
            seeds = [r.getrandbits(20) for _ in range(r.randint(1, 2))]
            gens, objs = {}, {}

            def seed(g):
                q = r.choice(seeds)
                gens[g] = np.random.default_rng(q)
                s.note("seed", g=g, s=q)

            def new(o):
                d = gen_def(ctx, pool)
                g = r.choice([0, *gens])
                # objects are always created anew with the definition recorded here
                C = build(ctx, d, gens[g] if g else None)
                objs[o] = (C, dict(d))
                s.note("new", o=o, d=d, g=g)
            pool = r.sample(["bsc", "bec", "z", "dmc", "dms", "mc", "gauss"], r.randint(1, 3))
            seed(1)
            komm.global_rng.set(gens[1])
            s.note("global", g=1)
            args = [(r.randrange(4), r.choice([0, 1, 2, 12])) for _ in range(2)]
            bits = [ctx.np.integers(0, 2, some_shape(ctx)) for _ in range(2)]
            nid = 0
            for _ in range(r.randint(6, 22)):
                k = r.randrange(12)
                if k == 0 or not objs:
                    nid += 1
                    new(nid)
                elif k == 1 and len(gens) < 4:
                    seed(len(gens) + 1)
                elif k == 2:
                    g = r.choice(list(gens))
                    komm.global_rng.set(gens[g])
                    s.note("global", g=g)
                elif k == 3:
                    o = r.choice(list(objs))
                    C, d = objs[o]
                    if d["k"] in PARAM:
                        d["W"] = r.choice([0, 100, 10000]) if d["k"] == "gauss" else r.randint(0, d["D"])
                        setattr(C, PARAM[d["k"]], number(ctx, d["W"], d["D"]))
                        s.note("set", o=o, w=d["W"])
                elif k == 4:
                    o = r.choice(list(objs))
                    C, d = objs[o]
                    if d["k"] in ("bsc", "bec", "z", "dmc", "mc"):
                        approximate = d["k"] in ("dmc", "mc")
                        s.call("tm", lambda: C.transition_matrix, fxs2(10**6), o=o)
                        if d["k"] != "mc":
                            s.call("card", lambda: (C.input_cardinality, C.output_cardinality), S_pair, o=o)
                    elif d["k"] == "dms":
                        s.call("pmf", lambda: C.pmf, fxs(10**6), o=o)
                        s.call("size", lambda: C.cardinality, S_int, o=o)
                else:
                    o = r.choice(list(objs))
                    C, d = objs[o]
                    if d["k"] == "mc":
                        a = r.choice(args)
                        use(ctx, s, C, d, o, (a[0] % nin(d), a[1]))
                    elif d["k"] in ("bsc", "bec", "z") and r.random() < .7:
                        use(ctx, s, C, d, o, r.choice(bits))
                    elif d["k"] == "dms" and r.random() < .7:
                        use(ctx, s, C, d, o, (args[0][0],))
                    else:
                        use(ctx, s, C, d, o)
            s.end()
    finally:
        komm.global_rng.set(keep)


def replays(ctx):
    """the same script from the same seed, on objects built separately, with unrelated draws in between"""
    r = ctx.rng
    keep = komm.global_rng.get()
    try:
        for _ in range(ctx.n(300, 2000)):
            s = ctx.session("replay")
            q = r.getrandbits(20)
            defs = [gen_def(ctx, ("bsc", "bec", "z", "dmc", "dms", "mc", "gauss")) for _ in range(r.randint(1, 3))]
            script = []
            for _ in range(r.randint(2, 6)):
                a = r.randrange(len(defs))
                d = defs[a]
                if d["k"] == "gauss":
                    shape, cp = some_shape(ctx), r.random() < .5
                    n = int(np.prod(shape, dtype=int))
                    x = ctx.np.integers(-9, 10, (2, n))
                    script.append((a, shape, cp, x))
                elif d["k"] == "dms":
                    script.append((a, some_shape(ctx)))
                elif d["k"] == "mc":
                    script.append((a, (r.randrange(nin(d)), r.choice([1, 2, 12]))))
                else:
                    script.append((a, ctx.np.integers(0, nin(d), some_shape(ctx))))
            for run in (1, 2):
                rng = np.random.default_rng(q)
                s.note("seed", g=run, s=q)
                via_global = r.random() < .4
                if via_global:
                    komm.global_rng.set(rng)
                    s.note("global", g=run)
                objs = []
                for a, d in enumerate(defs):
                    objs.append(build(ctx, d, None if via_global else rng))
                    s.note("new", o=10 * run + a, d=d, g=0 if via_global else run)
                if r.random() < .5:
                    komm.global_rng.set(np.random.default_rng(1))
                for step in script:
                    a, C, d, o = step[0], objs[step[0]], defs[step[0]], 10 * run + step[0]
                    if r.random() < .2:
                        np.random.random()   # the legacy generator plays no part
                    if d["k"] == "gauss":
                        _, shape, cp, x = step
                        X = (x[0] + 1j * x[1] if cp else x[0].astype(float)).reshape(shape)
                        s.call("gx", lambda: C.transmit(X), S_gauss, o=o, cplx=cp, unmod=True,
                               x={"shape": list(shape), "re": (U * x[0]).tolist(), "im": (U * x[1]).tolist() if cp else []})
                    else:
                        use(ctx, s, C, d, o, step[1])
            s.end()
    finally:
        komm.global_rng.set(keep)


DEEP = [(5, 6, 40), (2, 2, 300), (3, 20, 20), (2, 3, 2, 100), (4, 5, 20, 3), (2, 2, 2, 150), (2, 2, 3, 2, 50)]


def laws(ctx):
    """long runs: the relative frequencies are the stated law, uses, calls and seeds are independent"""
    r = ctx.rng
    deep = [(k, sh) for k in ("bsc", "bec", "z", "dmc", "dms", "gauss") for sh in DEEP]
    plain = ctx.n(60, 500)
    for job in range(plain + len(deep)):
        want = ("bsc", "bec", "z", "dmc", "dms", "bsc", "bec", "z", "dmc", "dms", "gauss")
        force = None
        if job >= plain:
            want, force = (deep[job - plain][0],), deep[job - plain][1]
        d = gen_def(ctx, want)
        while d["k"] != "gauss" and (d["D"] < 3 or force and (d["W"] in (0, d["D"]) or d["k"] in ("dmc", "dms") and any(max(w) == d["D"] for w in ([d["W"]] if d["k"] == "dms" else d["W"])))):
            d = gen_def(ctx, (d["k"],))
        if force and d["k"] == "gauss":
            d["W"] = 10000
        s = ctx.session("law")
        q = r.getrandbits(20)
        s.note("seed", g=1, s=q)
        s.note("seed", g=2, s=q + 1)
        Cs = []
        for o in (1, 2):
            Cs.append(build(ctx, d, np.random.default_rng(q + o - 1)))
            s.note("new", o=o, d=d, g=o)
        sh = force or r.choice([(1200,), (1200,), (40, 30), (2, 600), (600, 2)])
        script = (1,) if force else r.choice([(1, 1, 2), (1, 2, 1), (1, 1)])
        if d["k"] == "gauss":
            sh, cp = force or r.choice([(2000,), (2000,), (50, 40), (4, 500)]), r.random() < .6
            X = gauss_input(ctx, sh, cp)
            for o in script:
                gx(ctx, s, Cs[o - 1], d, o, sh, cp, X)
        elif d["k"] == "dms":
            for o in script:
                emit(ctx, s, Cs[o - 1], o, sh)
        else:
            n = nin(d)
            x = ctx.np.integers(0, n, 1200) if r.random() < .5 else np.full(1200, r.randrange(n))
            for o in script:
                tx(ctx, s, Cs[o - 1], d, o, x.reshape(sh))
        s.end()


def big(ctx):
    """very long single calls: no stretch of the output repeats another"""
    r = ctx.rng
    n = 45000
    lags = sorted({*range(500, n - 500, 500), *(2**k for k in range(15)), *(10**k for k in range(5)), *(2**k - 1 for k in range(2, 15)), *(r.randrange(1, n - 500) for _ in range(30))})
    for rep in range(ctx.n(1, 4)):
        for k in ("bsc", "bec", "z", "dmc", "dms", "mc", "gauss"):
            d = gen_def(ctx, (k,))
            def degenerate():
                w = [d["W"]] if k == "dms" else d["W"] if k in ("dmc", "mc") else [[d["W"], d["D"] - d["W"]]]
                return k != "gauss" and (d["D"] < 2 or any(max(x) == d["D"] for x in w))
            while degenerate():
                d = gen_def(ctx, (k,))
            a = 0 if k == "dms" else 1 if k == "z" else r.randrange(nin(d))
            if k == "mc":     # rows all equal: successive states are independent
                d["W"] = [d["W"][a]] * nin(d)
            if k == "gauss":
                d["W"] = 10000
            C = build(ctx, d, np.random.default_rng(r.getrandbits(32)))
            s = ctx.session("big")
            law = {"k": "dms", "W": [1, 1], "D": 2} if k == "gauss" else d
            nout = 2 if k == "gauss" else 2 if k == "bsc" or k == "z" else 3 if k == "bec" else len(d["W"]) if k == "dms" else len(d["W"][0])

            def go():
                sh = (n,) if r.random() < .6 else (3, n // 3)
                if k == "dms":
                    v = C.emit(shape=sh)
                elif k == "mc":
                    sh = (n,)
                    v = C.simulate(a, n + 1)[1:]
                elif k == "gauss":
                    v = (C.transmit(np.zeros(sh)) > 0).astype(int)
                else:
                    v = C.transmit(np.full(sh, a))
                v = np.asarray(v)
                if v.shape != sh or v.dtype.kind not in "iu" or v.min() < 0 or v.max() >= nout:
                    raise Malformed(f"{v.shape} {v.dtype}")
                v = v.ravel()
                res = []
                for L in lags:
                    i = np.flatnonzero((np.arange(n - L) // L) % 2 == 0)
                    res.append([L, len(i), int((v[i] == v[i + L]).sum())])
                return [np.bincount(v, minlength=nout).tolist(), res]
            s.call("big", go, lambda v: v, d=law, a=0 if k == "gauss" else a, n=n)
            e = s.d["ev"][-1]
            if e["ok"]:
                e["cnt"], e["lags"] = e.pop("v")
            s.end()


def invalid(ctx):
    s = ctx.session("bad")
    for p in (-.1, 1.1, -1e-9, 1.0000001, 2, float("nan"), float("inf")):
        for k in ("bsc", "bec", "z"):
            s.call("bad", lambda: getattr(komm, CLS[k])(p), lambda v: 0, k=k)
    for p in (-1.0, -1e-9, float("nan")):
        s.call("bad", lambda: komm.GaussianChannel(p), lambda v: 0)
    for m in ([[.5, .6], [.5, .5]], [[1.5, -.5], [0, 1]], [1.0], [[.5, .5], [1, .1]], [[0, 0], [0, 1]], [[[1.0]]], 1.0, [[float("nan"), 1], [0, 1]]):
        s.call("bad", lambda: komm.DiscreteMemorylessChannel(m), lambda v: 0)
    for m in ([.5, .6], [1.5, -.5], [[1.0]], [.1, .1], 0, -3, [float("nan"), 1], []):
        s.call("bad", lambda: komm.DiscreteMemorylessSource(m), lambda v: 0)
    s.end()
