"""C31: pulses, their spectra, correlations and taps."""
from fractions import Fraction as F

import numpy as np

import komm
from harness.drive import Malformed, fx

Q = fx(1 << 24)
NAMES = {"rect": "RectangularPulse", "manchester": "ManchesterPulse", "sinc": "SincPulse",
         "rc": "RaisedCosinePulse", "be": "BeaulieuPulse", "gauss": "GaussianPulse"}
TINY = (0.0, 0.0, 0.0, 1e-13, -1e-13, 1e-10, -1e-10, 1e-9, -1e-9)


def make(k, par):
    cls = getattr(komm, NAMES[k])
    return cls() if k in ("manchester", "sinc") else cls(par)


def S_real(v):
    if np.iscomplexobj(v):
        raise Malformed("complex values")
    v = np.asarray(v)
    return {"shape": list(v.shape), "d": [Q(x) for x in v.ravel().tolist()]}


def S_cplx(v):
    v = np.asarray(v)
    if not np.iscomplexobj(v):
        raise Malformed("real spectrum")
    return {"shape": list(v.shape), "d": [[Q(x.real), Q(x.imag)] for x in v.ravel().tolist()]}


def parameter(r, k):
    if k in ("manchester", "sinc"):
        return F(1)
    if k == "rect":
        den = r.choice([1, 2, 4, 8, 8, 16, 32])
        return F(r.randint(1, den), den)
    if k == "gauss":
        return r.choice([F(1), F(1, 2), F(3, 10), F(1, 4), F(2), F(5, 4), F(r.randint(3, 30), 10)])
    return r.choice([F(0), F(1), F(1), F(1, 2), F(1, 4), F(1, 3), F(1, 5), F(1, 8), F(3, 4), F(r.randint(3, 20), 20), F(r.randint(10, 50), 50), F(r.randint(2, 9), 50), F(r.randint(90, 99), 100)])


def scale(k, a):
    """where the pulse lives; the specification integrates the Beaulieu root up to |alpha t| = 2"""
    if k == "rbe" and a:
        return min(F(20), 2 / a)
    if k == "gauss":
        return 2 / a
    return F(4) if k in ("rect", "manchester") else F(400)


def times(r, k, a, n):
    lim = scale(k, a)
    out = []
    while len(out) < n:
        special = [F(0), F(1, 2), F(r.randint(1, 6)), F(2 * r.randint(0, 5) + 1, 2), F(r.randint(0, 64), 64), F(r.randint(0, 300), 100)]
        if k in ("rc", "rrc", "be", "rbe") and a:
            special += [1 / (2 * a), 1 / (4 * a), 1 / a, 3 / (4 * a), 3 / (2 * a), 1 / (4 * a) + F(1, 200), 1 / (2 * a) - F(1, 200)]
        if k == "rect":
            special = [a, a / 2, F(0), -a, a * F(r.randint(0, 128), 64), F(r.randint(0, 300), 64)]
        if k == "manchester":
            special = [F(r.randint(0, 64), 32), F(0), F(1, 2), F(1), F(1, 4)]
        if k in ("sinc", "rc", "rrc", "be"):
            special += [F(r.randint(7, 60)), F(r.randint(30, 240), 4), F(r.randint(30, 3000), 7)]
        t = r.choice(special) * r.choice([1, 1, -1])
        if abs(t) <= lim and (k != "rbe" or t.denominator * a.denominator <= 1800):
            out.append(t)
    return out


def freqs(r, k, a, n):
    out = []
    while len(out) < n:
        if k in ("sinc", "rc", "rrc", "be", "rbe"):
            if k == "sinc" or a == 0:
                f = r.choice([F(0), F(49, 100), F(51, 100), F(r.randint(0, 19), 40), F(r.randint(21, 60), 40)])
            else:
                f = r.choice([F(0), (1 - a) / 2 + a * F(r.randint(0, 64), 64), (1 - a) / 2 + a * F(r.randint(0, 64), 64), (1 - a) / 2 + a * F(abs(r.choice([0, 128, 256]) - r.randint(1, 4)), 256), (1 - a) * F(r.randint(0, 9), 20), F(1, 2), F(r.randint(0, 120), 100)])
        elif k == "gauss":
            f = a * r.choice([F(0), F(1), F(r.randint(0, 300), 100)])
        else:
            f = r.choice([F(0), F(1), F(1, 2), F(r.randint(0, 400), 100), F(r.randint(0, 64), 16)])
        out.append(f * r.choice([1, 1, -1]))
    return out


def as_input(r, xs, jitter):
    """the points as a scalar, list, array of some shape and layout"""
    vals = [float(x) + (r.choice(TINY) if jitter else 0.0) for x in xs]
    if all(v == int(v) for v in vals) and r.random() < .5:
        vals = [int(v) for v in vals]
    n = len(vals)
    k = r.randrange(6)
    if n == 1:
        return [vals[0], np.float64(vals[0]), np.array(vals[0]), vals, np.array(vals), np.array([[vals[0]]])][k]
    if k == 0:
        return vals
    a = np.array(vals)
    if k == 1 and n % 2 == 0:
        return a.reshape(2, -1)
    if k == 2 and n % 4 == 0:
        return np.asfortranarray(a.reshape(2, 2, -1))
    if k == 3:
        return np.repeat(a, 3)[1::3]
    if k == 4 and n % 2 == 0:
        return a.reshape(-1, 2).tolist()
    return a


METHODS = ("waveform", "waveform", "spectrum", "autocorrelation", "esd", "energy", "taps", "support")
CALL = {"esd": "energy_spectral_density"}


def evaluate(ctx, s, obj, k, a, op):
    r = ctx.rng
    if op == "energy":
        return s.call(op, obj.energy, Q)
    if op == "support":
        return s.call(op, lambda: obj.support, lambda v: [Q(v[0]), Q(v[1])] if len(v) == 2 else 1 / 0)
    if op == "taps":
        sps = r.choice([1, 2, 3, 4, 5, 8, 10])
        if r.random() < .3:
            how = [lambda: obj.taps(sps), lambda: obj.taps(samples_per_symbol=sps), lambda: obj.taps(sps, None)]
            return s.call(op, r.choice(how), S_real, sps=sps, span=[])
        top = max(1, int(min(scale(k, a), 4)))
        lo, hi = sorted((r.randint(-top, top), r.randint(-top, top)))
        span = r.choice([(lo, hi), (-top, top), (0, top), (-top, 0)])
        if k in ("rect", "manchester"):
            sps = r.choice([1, 2, 4, 8, 16])
        if scale(k, a) < top:
            span = (0, 1) if scale(k, a) >= 1 else (0, 0)
        return s.call(op, r.choice([lambda: obj.taps(sps, span), lambda: obj.taps(samples_per_symbol=sps, span=span)]), S_real, sps=sps, span=list(span))
    n = r.choice([1, 1, 2, 4, 4, 8, 12])
    smooth = k not in ("rect", "manchester")
    xs = times(r, k, a, n) if op in ("waveform", "autocorrelation") else freqs(r, k, a, n)
    inp = as_input(r, xs, op in ("waveform", "autocorrelation") and smooth or op in ("spectrum", "esd") and k in ("gauss", "rect", "manchester"))
    before = np.array(inp, copy=True)
    s.call(op, lambda: getattr(obj, CALL.get(op, op))(inp), S_cplx if op == "spectrum" else S_real,
           pts=[[x.numerator, x.denominator] for x in xs], dims=list(before.shape))
    s.d["ev"][-1]["unmod"] = bool(np.array_equal(before, np.asarray(inp)))


def pulses(ctx):
    r = ctx.rng
    kinds = list(NAMES)
    for q in range(ctx.n(1000, 6000)):
        k = kinds[q % 6]
        a = parameter(r, k)
        par = float(a) if a.denominator > 1 or r.random() < .5 else int(a)
        obj = make(k, par)
        s = ctx.session("pulse", p={"k": k, "an": a.numerator, "ad": a.denominator})
        for _ in range(r.randint(3, 8)):
            if r.random() < .2:
                ok, raw = s.call("root", lambda: obj.root(), lambda v: 0)
                if ok and k in ("sinc", "rc", "be"):
                    obj = raw
                    k = {"sinc": "sinc", "rc": "rrc", "be": "rbe"}[k]
            else:
                evaluate(ctx, s, obj, k, a, r.choice(METHODS))
        s.end()


def far(ctx):
    """many symbols away from the origin"""
    r = ctx.rng
    for a, k in [(F(1), "be"), (F(1, 4), "be"), (F(1, 2), "rc"), (F(1), "rc"), (F(1), "sinc"), (F(1, 50), "be"), (F(3, 4), "be")]:
        obj = make(k, float(a))
        s = ctx.session(k, p={"k": k, "an": a.numerator, "ad": a.denominator})
        for root in (False, True):
            if root:
                _, obj = s.call("root", obj.root, lambda v: 0)
            top = 80 / a if k == "be" and root else F(2000)
            ts = [F(r.randint(int(2 / a) + 1, int(top)) * 8 + r.randint(0, 7), 8) * r.choice([1, -1]) for _ in range(24)]
            if k == "be" and a == 1 and root:
                ts[:8] = [F(r.randint(17, 160), 8) * r.choice([1, -1]) for _ in range(8)]
            x = np.array([float(t) for t in ts])
            for op in ("waveform", "autocorrelation"):
                s.call(op, lambda: getattr(obj, op)(x), S_real, pts=[[t.numerator, t.denominator] for t in ts], dims=[len(ts)])
                s.d["ev"][-1]["unmod"] = True
            if k == "be" and root and a == 1:   # past the resolution of the fixed quadrature
                ts = [F(3003, 10), F(10003, 10)]
                s.call("waveform", lambda: obj.waveform([float(t) for t in ts]), S_real, pts=[[t.numerator, t.denominator] for t in ts], dims=[2])
                s.d["ev"][-1]["unmod"] = True
        s.end()


def domain(ctx):
    """parameters outside their domain are refused, those inside accepted"""
    for k in ("rc", "be", "gauss", "rect"):
        s = ctx.session("domain", p={"k": k, "an": 1, "ad": 1})
        for a in (F(0), F(1), F(1, 2), F(-1), F(-1, 1000000), F(1000001, 1000000), F(2), F(1, 1000000), F(3, 2), F(-5)):
            s.call("make", lambda: make(k, float(a)), lambda v: 0, p={"k": k, "an": a.numerator, "ad": a.denominator})
        s.end()
