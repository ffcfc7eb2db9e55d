"""C01, C02: Lempel-Ziv codes."""
import itertools
import zlib

import numpy as np

import komm
from harness.drive import S_int, S_ints, S_tokens


def message(ctx, X, n):
    """structured random message over 0..X-1"""
    r = ctx.rng
    kind = r.randrange(8)
    top = min(X, r.choice([2, 3, X, X, X]))
    if kind == 0:
        return [r.randrange(X) for _ in range(n)]
    if kind == 1:
        return [r.choice([0, X - 1])] * n
    if kind == 2:
        p = [r.randrange(X) for _ in range(r.randint(1, 7))]
        return [p[j % len(p)] for j in range(n)]
    if kind == 3:
        out = []
        while len(out) < n:
            out += [r.randrange(X)] * r.randint(1, 12)
        return out[:n]
    if kind == 4:
        out = [r.randrange(X) for _ in range(r.randint(1, 6))]
        while len(out) < n:
            a = r.randrange(len(out))
            out += out[a:a + r.randint(1, 15)]
            if r.random() < 0.4:
                out.append(r.randrange(X))
        return out[:n]
    if kind == 5:
        x, out = 0, []
        for _ in range(n):
            if r.random() < 0.15:
                x = r.randrange(top)
            out.append(x)
        return out
    if kind == 6:
        # LZW worst case: a a^2 a^3 ... and cScSc patterns
        a, b = r.randrange(X), r.randrange(X)
        out = []
        k = 1
        while len(out) < n:
            out += [a] * k + [b]
            k += 1
        return out[:n]
    return [X - 1 - (j % top) for j in range(n)]


CONTAINERS = [list, tuple, lambda m: np.array(m, dtype=np.int64), lambda m: np.array(m, dtype=np.int32),
              lambda m: np.array(m, dtype=np.uint16), lambda m: np.repeat(np.array(m, dtype=np.int64), 2)[::2]]


def container(ctx, m, X=2):
    if not m:
        return [] if ctx.rng.random() < 0.5 else np.array([], dtype=int)
    c = ctx.rng.choice(CONTAINERS if X <= 65536 else CONTAINERS[:4])
    if X <= 256 and ctx.rng.random() < 0.15:
        return np.array(m, dtype=np.uint8)
    return c(m)


def sw_session(ctx, kind, S, L, X, Y, buf, msg, use_default=False):
    cls = komm.LempelZiv77Code if kind == "77" else komm.LempelZivSSCode
    kw = dict(search_size=S, lookahead_size=L, source_cardinality=X, target_cardinality=Y)
    if not use_default:
        kw["search_buffer"] = buf
    s = ctx.session(f"{kind}-S{S}-L{L}-X{X}-Y{Y}", spec="SlidingWindowTrace",
                    par={"kind": kind, "S": S, "L": L, "X": X, "Y": Y, "buf": buf}, src=msg)
    code = cls(**kw)
    s.call("window", lambda: code.window_size, S_int)
    if kind == "SS":
        s.call("breakeven", lambda: code.break_even, S_int)
    ok, toks = s.call("stot", lambda: code.source_to_tokens(container(ctx, msg, X)), S_tokens)
    if ok:
        del s.d["ev"][-1]["v"]
        for t in toks:
            s.note("token", t=[int(x) for x in t])
        s.note("eos")
        s.call("fields", lambda: code.tokens_to_target(toks), S_ints)
        s.call("rebuild", lambda: code.tokens_to_source(toks), S_ints)
    ok, tgt = s.call("encode", lambda: code.encode(container(ctx, msg, X)), S_ints)
    if ok:
        s.call("parse", lambda: code.target_to_tokens(container(ctx, list(tgt), Y)), S_tokens)
        s.call("decode", lambda: code.decode(container(ctx, list(tgt), Y)), S_ints)
    if ctx.rng.random() < 0.5:
        r = ctx.rng
        any_t = []
        for _ in range(r.randint(0, 12)):
            if kind == "77":
                any_t.append((r.randrange(S), r.randrange(L), r.randrange(X)))
            elif r.random() < 0.6:
                any_t.append((1, r.randint(1, S), r.randint(1, L)))
            else:
                any_t.append((0, r.randrange(X)))
        jt = [list(t) for t in any_t]
        s.call("anytokens", lambda: code.tokens_to_source(any_t), S_ints, toks=jt)
        ok, f = s.call("anyfields", lambda: code.tokens_to_target(any_t), S_ints, toks=jt)
        if ok:
            s.call("anyparse", lambda: code.target_to_tokens(f), S_tokens, toks=jt)
            s.call("anydecode", lambda: code.decode(f), S_ints, toks=jt)
    # the object must be reusable: a second pass over the same object
    if ctx.rng.random() < 0.3:
        s.call("encode", lambda: code.encode(msg), S_ints)
        if ok:
            s.call("decode", lambda: code.decode(tgt), S_ints)
    s.end()


def sw_small(ctx):
    """exhaustive: every short binary message for every small window"""
    for kind in ("77", "SS"):
        for S in (1, 2, 3, 4):
            for L in (1, 2, 3, 4):
                for n in range(0, ctx.n(5, 7)):
                    for m in itertools.product(range(2), repeat=n):
                        if n >= 4 and ctx.rng.random() < ctx.n(0.5, 0.0):
                            continue
                        buf = [ctx.rng.randrange(2) for _ in range(S)]
                        sw_session(ctx, kind, S, L, 2, 2, buf, list(m))


def sw_random(ctx, scale=1):
    r = ctx.rng
    for _ in range(ctx.n(350, 2500)):
        S = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 25, 32, 33, 64, 125])
        L = r.choice([1, 2, 3, 4, 5, 6, 8, 9, 16, 17, 25, 40])
        X = r.choice([2, 2, 2, 3, 3, 4, 5, 8, 9, 16, 17, 125, 255, 256, 257, 300, 1000, 70000])
        Y = r.choice([2, 2, 2, 3, 4, 5, 7, 10, 16, 256, 300])
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 30, 60, 100, 180])
        default = r.random() < 0.3
        buf = [0] * S if default else message(ctx, X, S)
        sw_session(ctx, r.choice(["77", "SS"]), S, L, X, Y, buf, message(ctx, X, n), default)


def sw_random2(ctx):
    sw_random(ctx)


def sw_long(ctx):
    r = ctx.rng
    for _ in range(ctx.n(12, 60)):
        X = r.choice([2, 3, 26, 256, 300])
        S = r.choice([100, 128, 255, 256, 257, 300])
        L = r.choice([16, 18, 32, 64, 258, 300])
        n = ctx.n(500, 1200)
        default = r.random() < 0.5
        buf = [0] * S if default else message(ctx, X, S)
        sw_session(ctx, r.choice(["77", "SS"]), S, L, X, r.choice([2, 2, 3, 256]), buf, message(ctx, X, n), default)


# ----------------------------------------------------------------------------
def gd_session(ctx, kind, X, Y, msg):
    cls = komm.LempelZiv78Code if kind == "78" else komm.LempelZivWelchCode
    s = ctx.session(f"{kind}-X{X}-Y{Y}", spec="GrowingDictionaryTrace", par={"kind": kind, "X": X, "Y": Y}, src=msg)
    code = cls(X, Y) if Y != 2 or ctx.rng.random() < 0.5 else cls(X)
    ok, tgt = s.call("encode", lambda: code.encode(container(ctx, msg, X)), S_ints)
    if ok:
        s.call("decode", lambda: code.decode(container(ctx, list(tgt), Y)), S_ints)
        if kind == "78":
            ok2, toks = s.call("tokens", lambda: code.source_to_tokens(container(ctx, msg, X)), S_tokens)
            if ok2:
                s.call("rebuild", lambda: code.tokens_to_source(toks), S_ints)
                s.call("fields", lambda: code.tokens_to_target(toks), S_ints, target=[int(x) for x in tgt])
            s.call("parse", lambda: code.target_to_tokens(container(ctx, list(tgt), Y)), S_tokens)
    if ok and ctx.rng.random() < 0.2:
        other = message(ctx, X, 7)
        try:
            code.decode(code.encode(other))
        except Exception:
            pass
        s.call("decode", lambda: code.decode(tgt), S_ints)
    s.end()


def gd_small(ctx):
    for kind in ("78", "W"):
        for X, Y, nmax in ((2, 2, ctx.n(8, 10)), (3, 2, ctx.n(5, 6)), (3, 3, 4), (2, 3, 6)):
            for n in range(0, nmax):
                for m in itertools.product(range(X), repeat=n):
                    if n >= 6 and ctx.rng.random() < ctx.n(0.5, 0.2):
                        continue
                    gd_session(ctx, kind, X, Y, list(m))


def gd_random(ctx):
    r = ctx.rng
    for _ in range(ctx.n(500, 3000)):
        X = r.choice([2, 2, 2, 3, 4, 5, 7, 8, 9, 16, 25, 27, 125, 255, 256, 257, 1000])
        Y = r.choice([2, 2, 2, 3, 4, 5, 7, 8, 10, 16, 27, 256])
        n = r.choice([0, 1, 2, 3, 4, 6, 9, 15, 30, 60, 120])
        gd_session(ctx, r.choice(["78", "W"]), X, Y, message(ctx, X, n))


def gd_long(ctx):
    """many dictionary growth steps: every pointer-width change up to several hundred phrases"""
    r = ctx.rng
    for j in range(ctx.n(24, 120)):
        X = [2, 3, 4, 5, 26, 256][j % 6]
        Y = r.choice([2, 2, 3, 5, 10, 16])
        n = ctx.n(900, 2500)
        gd_session(ctx, "78" if (j // 6) % 2 else "W", X, Y, message(ctx, X, n))


# ---- long messages: the end-to-end guarantee, compared piece by piece ----
def pieces(v, n):
    v = np.asarray(v)
    if v.ndim != 1:
        raise ValueError("shape")
    v = v.astype(np.int64)
    step = max(1, -(-n // 40))
    return [len(v)] + [int(zlib.crc32(v[j:j + step].tobytes()) >> 2) for j in range(0, len(v), step)]


def far(ctx, name, code, msg, X, Y, spec):
    msg = np.asarray(msg, dtype=int).tolist()
    s = ctx.session(name, spec=spec, par={"kind": "W", "X": X, "Y": Y, "S": 1, "L": 1, "buf": [0]}, src=[])
    c = container(ctx, msg, X)
    s.call("far", lambda: code.decode(code.encode(c)), lambda v: pieces(v, len(msg)), want=pieces(msg, len(msg)))
    s.end()


def far_messages(ctx, X, n):
    r = ctx.np
    return [r.integers(0, X, n), np.zeros(n, int), np.tile(r.integers(0, X, 7), n // 7), np.repeat(r.integers(0, X, n // 50 + 1), 50)[:n], (r.random(n) < .02) * (X - 1)]


def gd_far(ctx):
    for j in range(ctx.n(1, 3)):
        for X, Y, n in ((256, 2, 160000), (2, 2, 60000), (5, 3, 40000), (1000, 10, 30000)):
            for m in far_messages(ctx, X, n):
                for cls in (komm.LempelZivWelchCode, komm.LempelZiv78Code):
                    if m.any() or n <= 60000:
                        far(ctx, f"far-{X}-{Y}-{n}", cls(X, Y), m, X, Y, "GrowingDictionaryTrace")


def sw_far(ctx):
    for j in range(ctx.n(1, 3)):
        for X, Y, n, S, L in ((256, 2, 8000, 4096, 18), (2, 2, 6000, 1000, 300), (5, 3, 6000, 70, 1000), (3, 10, 9000, 5000, 255)):
            for m in far_messages(ctx, X, n):
                for cls in (komm.LempelZiv77Code, komm.LempelZivSSCode):
                    buf = ctx.np.integers(0, X, S) if ctx.rng.random() < .5 else None
                    far(ctx, f"far-{X}-{Y}-{n}", cls(search_size=S, lookahead_size=L, source_cardinality=X, target_cardinality=Y, search_buffer=buf), m, X, Y, "SlidingWindowTrace")
