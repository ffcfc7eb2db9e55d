"""C29: resampling, convolution, Fourier transform."""
import numpy as np

import komm
from drivers.mapping import layout
from harness.drive import Malformed, S_int, fx, fxs

N_DFT = (1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 16, 20)


def S_arr(v):
    v = np.asarray(v)
    if v.dtype == bool:
        v = v.astype(int)
    return {"shape": list(v.shape), "d": [[S_int(x.real), S_int(x.imag)] for x in v.ravel().tolist()]}


def rec(a):
    return {"shape": list(a.shape), "d": [[int(np.real(x)), int(np.imag(x))] for x in a.ravel().tolist()]}


def signal(ctx, dims, cplx, big):
    x = ctx.np.integers(-big, big + 1, dims)
    if cplx:
        return x + 1j * ctx.np.integers(-big, big + 1, dims)
    k = ctx.rng.randrange(6)
    if k == 0:
        return x.astype(float)
    if k == 1:
        return (x > 0).astype(bool)
    if k == 2:
        return x.astype(np.float32)
    return x


def lay(ctx, a):
    if a.dtype.kind == "c" or a.dtype == bool or a.size and a.min() < 0:
        k = ctx.rng.randrange(4)
        return a.tolist() if k == 0 and a.size else np.asfortranarray(a) if k == 1 else np.repeat(a, 2, axis=-1)[..., ::2] if k == 2 else a
    return layout(ctx, a) if a.size else a


def chains(ctx):
    r = ctx.rng
    for _ in range(ctx.n(700, 6000)):
        nd = r.choice([1, 1, 1, 2, 2, 3])
        dims = tuple(r.choice([1, 2, 3, 4, 5, 7] if nd > 1 else [1, 2, 3, 5, 8, 13]) for _ in range(nd))
        cplx = r.random() < .35
        cur = signal(ctx, dims, cplx, r.choice([1, 3, 20]))
        s = ctx.session("chain", x=rec(cur))
        for _ in range(r.randint(1, 6)):
            op = r.choice(["compress", "compress", "expand", "expand", "conv", "conv", "ft"])
            if op == "expand" and cur.size > 150 or op == "conv" and (cur.size > 200 or np.abs(cur).max(initial=0) > 10**5 or cur.dtype == bool):
                continue
            if cur.size == 0 and op != "compress" and op != "expand":
                continue
            ax = r.randrange(-cur.ndim, cur.ndim)
            kw = {} if ax == -1 and r.random() < .5 else {"axis": ax}
            inp = lay(ctx, cur)
            out = {}

            def guard(fn):
                before = np.array(inp, copy=True)

                def go():
                    v = fn()
                    out["unmod"] = bool(np.array_equal(before, np.asarray(inp)))
                    return v
                return go
            if op in ("compress", "expand"):
                f = r.choice([1, 2, 3, 4, 7])
                off = r.choice([0, f - 1, r.randrange(f)])
                fn = komm.sampling_rate_compress if op == "compress" else komm.sampling_rate_expand
                kw2 = dict(kw)
                if off or r.random() < .5:
                    kw2["offset"] = off
                args = dict(ax=ax, f=f, off=off)
                ok, raw = s.call(op, guard(lambda: fn(inp, f, **kw2)), S_arr, **args)
                s.d["ev"][-1]["same"] = ok and np.asarray(raw).dtype == np.asarray(inp).dtype
            elif op == "conv":
                m = r.choice([1, 2, 3, 5])
                h = ctx.np.integers(-3, 4, m)
                if cplx and r.random() < .6:
                    h = h + 1j * ctx.np.integers(-3, 4, m)
                mode = r.choice(["full", "full", "valid", "same"])
                args = [inp, lay(ctx, h.astype(int) if h.dtype.kind == "i" else h)]
                if np.asarray(inp).dtype.itemsize < 8 or np.asarray(args[1]).dtype.itemsize < 8:   # numpy's own arithmetic in short types
                    inp = args[0] = np.asarray(inp).astype(complex if cplx else float)
                    args[1] = h
                if r.random() < .5:
                    args.reverse()
                if mode != "full" or r.random() < .3:
                    kw["mode"] = mode
                if cur.ndim > 1 and m == 0:
                    continue
                ok, raw = s.call(op, guard(lambda: komm.convolve(*args, **kw)), S_arr, ax=ax, h=rec(h)["d"], mode=mode)
            else:
                n = r.choice(N_DFT)
                if cur.shape[ax] in N_DFT and r.random() < .5:
                    n = cur.shape[ax]
                if np.abs(cur).sum() > 1500 or cur.size > 60:
                    continue
                a, b = r.choice([(1, 1), (1, 2), (1, 4), (2, 1), (1, 10), (3, 2)])
                if n != cur.shape[ax] or r.random() < .3:
                    kw["nfft"] = n

                def S_ft(v):
                    X, f = v
                    if not np.iscomplexobj(X):
                        raise Malformed("real spectrum")
                    q = fx(1000)
                    return {"shape": list(X.shape), "d": [[q(y.real), q(y.imag)] for y in X.ravel().tolist()], "f": fxs(10**6)(f)}
                s.call("ft", guard(lambda: komm.fourier_transform(inp, a / b, **kw)), S_ft, ax=ax, n=n, a=a, b=b)
                ok, raw = True, cur
            s.d["ev"][-1]["unmod"] = out.get("unmod", False)
            if not ok:
                break
            cur = np.asarray(raw)
        s.end()


def long(ctx):
    """long sparse signals with entries of very different magnitude; long transforms of an impulse"""
    r = ctx.rng
    for _ in range(ctx.n(40, 200)):
        s = ctx.session("long", x=rec(np.array([1])))
        n, m = r.choice([300, 1000, 4000, 9000]), r.choice([2, 30, 200, 1500])
        # distances between the filter's entries are distinct from those between the signal's
        xs = sorted(r.sample(range(n), 6))
        hs = sorted(r.sample(range(m), min(m, r.choice([1, 2, 4]))))
        while len({a + b for a in xs for b in hs}) < len(xs) * len(hs):
            xs = sorted(r.sample(range(n), 6))
        X = [[p, r.choice([-1, 1]) * r.randint(1, 99), r.choice([0, 0, 1, 2, -2])] for p in xs]
        H = [[p, r.choice([-1, 1]) * r.randint(1, 99), r.choice([0, 0, 1, -1])] for p in hs]

        def dense(e, k):
            a = np.zeros(k)
            for p, v, z in e:
                a[p] = v * 2.0 ** (40 * z)
            return a

        def S_sparse(v):
            v = np.asarray(v)
            if v.ndim != 1 or v.dtype.kind != "f":
                raise Malformed(f"{v.shape} {v.dtype}")
            nz = np.flatnonzero(v)
            if len(nz) > 100:
                raise Malformed("not sparse")
            out = []
            for p in nz.tolist():
                for z in range(-3, 4):
                    y = v[p] / 2.0 ** (40 * z)
                    if abs(y) < 2**20 and y == round(y):
                        out.append([p, int(y), z])
                        break
                else:
                    raise Malformed(f"inexact {v[p]!r}")
            return out
        mode = r.choice(["full", "full", "same", "valid"])
        kw = {} if mode == "full" and r.random() < .5 else {"mode": mode}
        a, b = dense(X, n), dense(H, m)
        k = r.randrange(4)
        ln = []

        def go():
            if k == 0:
                v = komm.convolve(b, a, **kw)
            elif k == 1:
                v = komm.convolve(np.stack([a, np.zeros(n)], axis=1), b, axis=0, **kw)[:, 0]
            elif k == 2:
                v = komm.convolve(np.stack([np.zeros(n), a]), b, **kw)[1]
            else:
                v = komm.convolve(a, b, **kw)
            ln.append(len(v))
            return v
        ok, _ = s.call("sconv", go, S_sparse, x=X, h=H, n=n, m=m, mode=mode)
        s.d["ev"][-1]["len"] = ln[0] if ln else -1
        N = 2 ** r.choice([6, 10, 13, 15])
        p, w = r.randrange(N), r.randint(1, 50)
        a, b = r.choice([(1, 1), (1, 2), (1, 4), (2, 1), (1, 10)])
        z = np.zeros(N if r.random() < .5 else r.randint(p + 1, N), dtype=r.choice([float, complex, int]))
        z[p] = w
        ks = sorted({0, 1, N - 1, N // 2, N // 2 + 1, *(r.randrange(N) for _ in range(6))})

        def S_imp(v):
            Y, f = v
            out = []
            for q in ks:
                t = -np.angle(Y[q]) / (2 * np.pi) * N
                if abs(t - round(t)) > 1e-3:
                    raise Malformed("phase")
                out.append([fx(1000)(abs(Y[q])), -int(round(t)) % N])
            return {"len": len(Y), "d": out, "f": [fx(N * a)(f[q]) for q in ks]}
        s.call("ift", lambda: komm.fourier_transform(z, a / b, nfft=N) if len(z) != N or r.random() < .5 else komm.fourier_transform(z, a / b), S_imp, n=N, p=p, w=w, a=a, b=b, k=ks)
        s.end()


def invalid(ctx):
    s = ctx.session("bad", x=rec(np.array([1])))
    for fn in (komm.sampling_rate_compress, komm.sampling_rate_expand):
        for f, off in ((0, 0), (-1, 0), (2, 2), (2, -1), (3, 5), (1, 1)):
            s.call("bad", lambda: fn([1, 2, 3, 4, 5, 6], f, off), lambda v: 0)
        for ax in (1, -2, 5):
            s.call("bad", lambda: fn([1, 2, 3], 2, axis=ax), lambda v: 0)
    s.call("bad", lambda: komm.convolve([[1, 2]], [[1, 2]]), lambda v: 0)
    s.call("bad", lambda: komm.convolve([1, 2], [1, 2], mode="half"), lambda v: 0)
    s.call("bad", lambda: komm.convolve([1, 2], [[1, 2]], axis=2), lambda v: 0)
    s.end()
