"""C25: binary and complex sequences; C29: correlation helpers."""
import math

import numpy as np

import komm
from drivers.mapping import layout
from harness.drive import Malformed, S_int, S_ints, fx


def S_corr(norm, cplx):
    f = fx(10000 if norm else 1)

    def g(v):
        v = np.asarray(v)
        if v.ndim != 1:
            raise Malformed(f"shape {v.shape}")
        if not cplx and np.iscomplexobj(v):
            raise Malformed("complex correlation of a real sequence")
        if not norm and v.size and np.abs(v - np.round(v)).max() > 1e-6:
            raise Malformed("non-integral correlation")
        return [[f(z.real), f(z.imag)] for z in v.tolist()]
    return g


def shifts_of(ctx, L):
    r = ctx.rng
    k = r.randrange(6)
    if k == 0:
        return list(range(-L, L + 1)) if L < 40 else [0, 1, -1, L, -L, L - 1, 1 - L, L + 1]
    if k == 1:
        return [r.choice([0, 1, -1, L, -L, L - 1, 1 - L, L + 1, -L - 1, 2 * L, -3 * L + 1, 5 * L + 2])]
    return [r.randint(-2 * L - 1, 2 * L + 1) for _ in range(r.randint(1, 12))]


def corr_calls(ctx, s, L, ac, cc, n, cplx=False):
    """ac, cc: functions of keyword arguments"""
    r = ctx.rng
    for _ in range(n):
        op = r.choice(["ac", "cc"])
        f = ac if op == "ac" else cc
        norm = r.random() < .4
        kw = {"normalized": True} if norm else ({"normalized": False} if r.random() < .3 else {})
        if L <= 130 and r.random() < .3:
            s.call(op, lambda: f(**kw), S_corr(norm, cplx), all=True, s=[], norm=norm)
            continue
        sh = shifts_of(ctx, L)
        if L > 300:
            sh = sh[:3]
        inp = sh
        k = r.randrange(5)
        if k == 0:
            inp = np.array(sh)
        elif k == 1:
            inp = tuple(sh)
        elif k == 2:
            inp = np.repeat(np.array(sh, dtype=np.int16), 2)[::2]
        elif k == 3:
            sh = [abs(a) % 250 for a in sh]
            inp = np.array(sh, dtype=r.choice([np.uint8, np.uint16, np.uint64]))
        keep = np.array(inp, copy=True)
        s.call(op, lambda: f(shifts=inp, **kw), S_corr(norm, cplx), all=False, s=sh, norm=norm)
        s.note("same", v=bool(np.array_equal(keep, np.array(inp))))


def obj_calls(ctx, s, q, L, n):
    r = ctx.rng
    for _ in range(n):
        k = r.randrange(5)
        if k == 0:
            s.call("bits", lambda: q.bit_sequence, S_ints)
        elif k == 1:
            s.call("polar", lambda: q.polar_sequence, S_ints)
        elif k == 2:
            s.call("length", lambda: q.length, S_int)
        else:
            corr_calls(ctx, s, L, q.autocorrelation, q.cyclic_autocorrelation, 1)


def binary(ctx):
    r = ctx.rng
    for _ in range(ctx.n(500, 4000)):
        L = r.choice([1, 1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 64])
        b = [r.randrange(2) for _ in range(L)]
        polar = [1 - 2 * v for v in b]
        if r.random() < .5:
            d = {"kind": "bits", "b": b}
            inp = layout(ctx, np.array(b))
            q = komm.BinarySequence(inp) if r.random() < .5 else komm.BinarySequence(bit_sequence=inp)
        else:
            d = {"kind": "polar", "x": polar}
            k = r.randrange(4)
            inp = polar if k == 0 else np.array(polar) if k == 1 else np.array(polar, dtype=np.int8) if k == 2 else np.array(polar, dtype=float)
            q = komm.BinarySequence(polar_sequence=inp)
        s = ctx.session(d["kind"], **{"def": d})
        obj_calls(ctx, s, q, L, r.randint(3, 8))
        s.end()
    s = ctx.session("bad", **{"def": {"kind": "bits", "b": [0]}})
    for f in (lambda: komm.BinarySequence(), lambda: komm.BinarySequence([0, 1], [1, -1]), lambda: komm.BarkerSequence(6), lambda: komm.BarkerSequence(1),
              lambda: komm.WalshHadamardSequence(3), lambda: komm.WalshHadamardSequence(6, index=1), lambda: komm.WalshHadamardSequence(4, index=4),
              lambda: komm.WalshHadamardSequence(4, index=-1), lambda: komm.WalshHadamardSequence(4, "other"), lambda: komm.WalshHadamardSequence(0),
              lambda: komm.ZadoffChuSequence(4), lambda: komm.ZadoffChuSequence(5, 5), lambda: komm.ZadoffChuSequence(5, 0), lambda: komm.ZadoffChuSequence(5, -1),
              lambda: komm.ZadoffChuSequence(1), lambda: komm.LFSRSequence.maximum_length_sequence(0), lambda: komm.LFSRSequence.maximum_length_sequence(25)):
        s.call("bad", f, lambda v: 0)
    s.end()


def as_poly(ctx, v):
    k = ctx.rng.randrange(4)
    return komm.BinaryPolynomial(v) if k == 0 else komm.BinaryPolynomial.from_coefficients([v >> j & 1 for j in range(max(1, v.bit_length()))]) if k == 1 else v


def lfsr(ctx):
    r = ctx.rng
    jobs = [(v, st) for n in range(1, 5) for v in range((1 << n) + 1, 2 << n, 2) for st in range(1 << n)]
    for _ in range(ctx.n(120, 1200)):
        n = r.choice([4, 5, 6, 7, 8])
        v = 1 << n | r.getrandbits(n) | 1
        jobs.append((v, r.choice([1, r.getrandbits(n), (1 << n) - 1, 1 << (n - 1)])))
    for v, st in jobs:
        n = v.bit_length() - 1
        a, b = as_poly(ctx, v), as_poly(ctx, st)
        q = komm.LFSRSequence(a, b) if st != 1 or r.random() < .5 else komm.LFSRSequence(feedback_polynomial=a)
        s = ctx.session("lfsr", **{"def": {"kind": "lfsr", "p": [v >> t & 1 for t in range(1, n + 1)], "r0": [st >> j & 1 for j in range(n)]}})
        s.call("bits", lambda: q.bit_sequence, S_ints)
        obj_calls(ctx, s, q, (1 << n) - 1, 2)
        s.end()


def lfsr_long(ctx):
    r = ctx.rng
    for n in range(9, ctx.n(13, 16)):
        for _ in range(2):
            v = 1 << n | r.getrandbits(n) | 1
            st = r.choice([1, r.getrandbits(n)])
            s = ctx.session("long", **{"def": {"kind": "long", "p": [v >> t & 1 for t in range(1, n + 1)], "r0": [st >> j & 1 for j in range(n)]}})
            s.call("long", lambda: komm.LFSRSequence(v, st).bit_sequence, S_ints)
            s.end()
    # the default primitive polynomials, and maximum-length sequences
    for n in range(1, 25):
        s = ctx.session("mls", **{"def": {"kind": "long", "n": n, "r0": []}})
        s.call("poly", lambda: komm.LFSRSequence.maximum_length_sequence(n).feedback_polynomial if n <= 12 else
               komm.FiniteBifield(n).modulus,
               lambda p: [int(b) for b in bin(int(p))[:1:-1]])
        s.end()
    for n in range(1, ctx.n(11, 13)):
        st = r.choice([1, 1, r.randint(1, (1 << n) - 1)])
        q = komm.LFSRSequence.maximum_length_sequence(n, st) if st != 1 or r.random() < .5 else komm.LFSRSequence.maximum_length_sequence(degree=n)
        L = (1 << n) - 1
        pol = int(q.feedback_polynomial)
        s = ctx.session("mls", **{"def": {"kind": "long", "n": n, "r0": [st >> j & 1 for j in range(n)]}})
        s.call("mls", lambda: q.bit_sequence, S_ints, p=[int(b) for b in bin(pol)[:1:-1]])
        sh = list(range(L)) if L < 1100 else [0, 1, -1, L, L - 1, 77, -L - 5]
        s.call("mlscc", lambda: q.cyclic_autocorrelation(sh), S_ints, s=sh)
        s.end()


def lfsr_huge(ctx):
    """registers of sixteen places and more: the whole length, windows of the output"""
    r = ctx.rng
    for n in (16, 17) if not ctx.thorough else (16, 17, 18, 19):
        v = 1 << n | 1 << r.randrange(1, n) | 1 if n % 2 else 1 << n | r.getrandbits(n) | 1
        st = r.getrandbits(n)
        q = komm.LFSRSequence(v, st) if n != 16 or r.random() < .5 else komm.LFSRSequence.maximum_length_sequence(n, st)
        v = int(q.feedback_polynomial)
        s = ctx.session("huge", **{"def": {"kind": "long", "p": [v >> t & 1 for t in range(1, n + 1)], "r0": [st >> j & 1 for j in range(n)]}})
        L = (1 << n) - 1
        at = [0] + sorted(r.randrange(L - 4 * n) for _ in range(40)) + [L - 3 * n]
        s.call("hlen", lambda: q.length, S_int)
        s.call("windows", lambda: [S_ints(q.bit_sequence[j:j + 3 * n]) for j in at], lambda v: v, at=at)
        s.call("windows", lambda: [S_ints((1 - q.polar_sequence[j:j + 3 * n]) // 2) for j in at], lambda v: v, at=at)
        s.end()


def walsh_huge(ctx):
    """thousands of places: sampled values, and the number of sign changes"""
    r = ctx.rng
    for _ in range(ctx.n(10, 60)):
        w = r.randint(9, 12)
        L = 1 << w
        k = r.choice([0, 1, L - 1, L // 2, r.randrange(L), r.randrange(L)])
        o = r.choice(["natural", "sequency", "sequency"])
        q = komm.WalshHadamardSequence(L, o, k)
        s = ctx.session("whhuge", spec="SequenceTrace", **{"def": {"kind": "long", "L": L, "ord": o, "k": k}})
        at = sorted({0, L - 1, L // 2} | {r.randrange(L) for _ in range(40)})
        s.call("whlen", lambda: q.length, S_int)
        s.call("what", lambda: q.polar_sequence[at], S_ints, at=at)
        s.call("whbits", lambda: q.bit_sequence[at], S_ints, at=at)
        if o == "sequency":
            s.call("whchg", lambda: int(np.count_nonzero(np.diff(q.polar_sequence))), S_int)
        s.end()


def walsh(ctx):
    r = ctx.rng
    for w in range(0, 5):
        for o in ("natural", "sequency"):
            for k in range(1 << w):
                q = komm.WalshHadamardSequence(1 << w, o, k) if r.random() < .5 else komm.WalshHadamardSequence(length=1 << w, ordering=o, index=k)
                s = ctx.session("wh", **{"def": {"kind": "wh", "L": 1 << w, "ord": o, "k": k}})
                s.call("polar", lambda: q.polar_sequence, S_ints)
                obj_calls(ctx, s, q, 1 << w, 2)
                s.end()
    for _ in range(ctx.n(60, 600)):
        w = r.randint(5, ctx.n(8, 10))
        k = r.choice([0, 1, (1 << w) - 1, r.randrange(1 << w), r.randrange(1 << w)])
        o = r.choice(["natural", "sequency"])
        q = komm.WalshHadamardSequence(1 << w, o, k)
        s = ctx.session("wh", **{"def": {"kind": "wh", "L": 1 << w, "ord": o, "k": k}})
        s.call("polar", lambda: q.polar_sequence, S_ints)
        s.call("bits", lambda: q.bit_sequence, S_ints)
        s.end()
    for L in (2, 3, 4, 5, 7, 11, 13):
        q = komm.BarkerSequence(L)
        s = ctx.session("barker", **{"def": {"kind": "barker", "L": L}})
        s.call("bits", lambda: q.bit_sequence, S_ints)
        obj_calls(ctx, s, q, L, 8)
        s.call("ac", lambda: q.autocorrelation(), S_corr(False, False), all=True, s=[], norm=False)
        s.end()


def S_zc(L, scale):
    def f(v):
        out = []
        for z in np.asarray(v, dtype=complex).tolist():
            m = abs(z) / scale
            if m < 1e-6:
                out.append([0, 0])
                continue
            ph = -math.atan2(z.imag, z.real) / (2 * math.pi) * L
            if abs(ph - round(ph)) > 1e-4:
                out.append([round(1000 * m), -1])
            else:
                out.append([round(1000 * m), (-round(ph)) % L])
        return out
    return f


def zadoff_chu(ctx):
    r = ctx.rng
    jobs = [(L, q) for L in range(3, 16, 2) for q in range(1, L)]
    for _ in range(ctx.n(60, 600)):
        L = r.randrange(17, ctx.n(160, 400), 2)
        jobs.append((L, r.choice([1, L - 1, r.randrange(1, L)])))
    for L, q in jobs:
        s = ctx.session("zc", **{"def": {"kind": "zc", "L": L, "q": q}})
        z = komm.ZadoffChuSequence(L) if q == 1 and r.random() < .5 else komm.ZadoffChuSequence(L, q)
        s.call("zcseq", lambda: z.sequence, S_zc(L, 1))
        s.call("length", lambda: z.length, S_int)
        if L < 60:
            s.call("zccc", lambda: z.cyclic_autocorrelation(), S_zc(L, L), all=True, s=[])
            s.call("zccc", lambda: z.cyclic_autocorrelation(normalized=True), S_zc(L, 1), all=True, s=[])
        sh = shifts_of(ctx, L)
        s.call("zccc", lambda: z.cyclic_autocorrelation(shifts=sh), S_zc(L, L), all=False, s=sh)
        s.end()


def zadoff_chu_long(ctx):
    """tens of thousands of samples: phases at sampled positions, correlations at sampled shifts"""
    r = ctx.rng
    for _ in range(ctx.n(12, 60)):
        L = r.choice([1001, 4095, 10007, 32769, 45001, 2 * r.randint(500, 23000) + 1])
        q = r.choice([1, L - 1, L // 2, L - 2, r.randrange(1, L)])
        s = ctx.session("zc", spec="SequenceTrace", **{"def": {"kind": "zc", "L": L, "q": q}})
        z = komm.ZadoffChuSequence(L, q)
        s.call("length", lambda: z.length, S_int)
        n = sorted({0, 1, L - 1, L - 2, L // 2} | {r.randrange(L) for _ in range(40)})
        s.call("zcat", lambda: z.sequence[n], S_zc(L, 1), n=n)
        sh = [0, r.choice([L, -L, 2 * L]), r.randrange(1, L), -r.randrange(1, L), 1]
        s.call("zccc", lambda: z.cyclic_autocorrelation(shifts=sh), S_zc(L, L), all=False, s=sh)
        s.call("zccc", lambda: z.cyclic_autocorrelation(shifts=sh, normalized=True), S_zc(L, 1), all=False, s=sh)
        s.end()


def correlations(ctx):
    """komm.autocorrelation, komm.cyclic_autocorrelation and ComplexSequence on Gaussian integers"""
    r = ctx.rng
    for _ in range(ctx.n(500, 4000)):
        L = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 17])
        real = r.random() < .5
        big = r.choice([1, 3, 9, 60])
        z = [[r.randint(-big, big), 0 if real else r.randint(-big, big)] for _ in range(L)]
        if all(a == [0, 0] for a in z):
            z[0] = [1, 0]
        kind = "list"
        if real:
            a = [x for x, _ in z]
            k = r.randrange(6)
            inp = a if k == 0 else tuple(a) if k == 1 else np.array(a, dtype=float) if k == 2 else np.array(a, dtype=np.int8) if k == 3 else np.flip(np.array(a[::-1])) if k == 4 else np.array(a)
        else:
            a = [complex(x, y) for x, y in z]
            inp = a if r.random() < .3 else np.array(a) if r.random() < .5 else np.repeat(np.array(a), 2)[::2]
        s = ctx.session("corr", spec="SequenceTrace", **{"def": {"kind": "complex", "z": z}})
        keep = np.array(inp, copy=True)
        if r.random() < .7:
            corr_calls(ctx, s, L, lambda **k: komm.autocorrelation(inp, **k), lambda **k: komm.cyclic_autocorrelation(inp, **k), 5, cplx=not real)
        else:
            q = komm.ComplexSequence(inp)
            s.call("seq", lambda: q.sequence, S_corr(False, True))
            s.call("length", lambda: q.length, S_int)
            corr_calls(ctx, s, L, q.autocorrelation, q.cyclic_autocorrelation, 4, cplx=True)
        s.note("same", v=bool(np.array_equal(keep, np.array(inp))))
        s.end()
    # long sequences of short integers
    for _ in range(6):
        L = r.choice([150, 200, 260, 300])
        z = [[r.choice([-1, 1, 20]), 0] for _ in range(L)]
        inp = np.array([x for x, _ in z], dtype=np.int8)
        s = ctx.session("corr", spec="SequenceTrace", **{"def": {"kind": "complex", "z": z}})
        corr_calls(ctx, s, L, lambda **k: komm.autocorrelation(inp, **k), lambda **k: komm.cyclic_autocorrelation(inp, **k), 2)
        s.end()


def correlations_long(ctx):
    """tens of thousands of samples in a few runs of equal values"""
    r = ctx.rng
    for _ in range(ctx.n(40, 200)):
        kind = r.choice(["bits", "polar", "int", "int8", "float", "complex"])
        nr = r.randint(1, 5)
        big = r.choice([2000, 33000, 40000, 70000])
        q = []
        for _ in range(nr):
            n = max(1, big // nr + r.randint(-300, 300))
            v = r.choice([1, -1]) if kind in ("bits", "polar") else r.randint(-9, 9)
            q.append([[v, r.randint(-3, 3) if kind == "complex" else 0], n])
        if kind not in ("bits", "polar"):
            q[0][0][0] = r.choice([7, -5, 3])
        L = sum(n for _, n in q)
        a = np.repeat(np.array([complex(*v) for v, _ in q]), [n for _, n in q])
        a = a if kind == "complex" else a.real.astype({"int8": np.int8, "float": float}.get(kind, int))
        if kind in ("bits", "polar"):
            o = komm.BinarySequence(polar_sequence=a) if kind == "polar" else komm.BinarySequence((1 - a) // 2)
            ac, cc = o.autocorrelation, o.cyclic_autocorrelation
        elif kind == "complex" and r.random() < .5:
            o = komm.ComplexSequence(a)
            ac, cc = o.autocorrelation, o.cyclic_autocorrelation
        else:
            ac, cc = (lambda **k: komm.autocorrelation(a, **k)), (lambda **k: komm.cyclic_autocorrelation(a, **k))
        s = ctx.session("runs", spec="SequenceTrace", **{"def": {"kind": "runs", "q": q}})
        for _ in range(3):
            sh = [r.choice([0, 1, -1, q[0][1], -q[-1][1], L // 2, L - 1, 1 - L, L, -L - 7, 2 * L + 3, r.randint(-L, L)]) for _ in range(4)]
            op = r.choice(["rac", "rac", "rcc"])
            norm = r.random() < .25 and sum((v[0] ** 2 + v[1] ** 2) * n for v, n in q) < 2 * 10**6
            kw = {"normalized": True} if norm else {}
            f = fx(1000) if norm else S_int
            s.call(op, lambda: (ac if op == "rac" else cc)(shifts=sh, **kw), lambda v: [[f(z.real), f(z.imag)] for z in np.asarray(v).tolist()], s=sh, norm=norm)
        s.end()
