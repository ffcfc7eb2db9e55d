"""Drivers for finite-state machines and convolutional codes (C07-C13)."""
import itertools
import math

import komm
import numpy as np

from drivers import block
from drivers.block import container, nd, pbits, pdivmod, pmul, shape_for
from drivers.decoders import S_prob, all_words, badshapes, bits, ints, open_session, soft_container
from harness.drive import S_bool, S_int, S_ints, S_ints2, S_nd, S_none, Malformed

INFM = 100_000_000


def gcd(a, b):
    while b:
        a, b = b, pdivmod(a, b)[1]
    return a


def det_rank(P):
    """rank over GF(2)(X) of a polynomial matrix (fraction-free elimination)"""
    A = [list(r) for r in P]
    k, n, rank, row = len(A), len(A[0]), 0, 0
    for col in range(n):
        piv = next((i for i in range(row, k) if A[i][col]), None)
        if piv is None:
            continue
        A[row], A[piv] = A[piv], A[row]
        for i in range(row + 1, k):
            if A[i][col]:
                f, g = A[i][col], A[row][col]
                A[i] = [pmul(g, x) ^ pmul(f, y) for x, y in zip(A[i], A[row])]
        row += 1
        rank += 1
    return rank


def poly(r, deg):
    return r.randrange(2 ** (deg + 1))


def conv_code(r, maxsigma=5, maxk=3, maxn=4, fullrank=True, kind=None):
    """(code, P, Q) for a random code of one of the three classes"""
    while True:
        t = kind or r.choice(["ff", "ff", "fb", "fb", "low", "high"])
        if t == "low":
            n = r.randrange(1, maxn + 1)
            g = [poly(r, r.randrange(0, maxsigma + 1)) for _ in range(n)]
            P, Q = [g], [1]
            make = lambda: komm.LowRateConvolutionalCode(cont(r, g))
            sigma = max(x.bit_length() - 1 for x in g)
        elif t == "high":
            n = r.randrange(2, maxn + 1)
            h = [poly(r, r.randrange(0, maxsigma + 1)) for _ in range(n)]
            h[-1] |= 1
            P = [[h[-1] if i == j else (h[i] if j == n - 1 else 0) for j in range(n)] for i in range(n - 1)]
            Q = [h[-1]] * (n - 1)
            make = lambda: komm.HighRateConvolutionalCode(cont(r, h))
            sigma = max(x.bit_length() - 1 for x in h)
            if n - 1 > maxk:
                continue
        else:
            k = r.choice([1, 1, 1, 2, 2, 3])
            n = r.randrange(k, maxn + 1) if k < maxn else maxn
            if k > maxk or k > n:
                continue
            d = [r.randrange(0, maxsigma + 1) if k == 1 else r.randrange(0, max(2, maxsigma // k + 1)) for _ in range(k)]
            P = [[poly(r, d[i]) for _ in range(n)] for i in range(k)]
            Q = [1 if t == "ff" else poly(r, d[i]) | 1 for i in range(k)]
            sigma = sum(max(max(x.bit_length() for x in P[i]), Q[i].bit_length()) - 1 for i in range(k))
            make = (lambda: komm.ConvolutionalCode(cont(r, P))) if t == "ff" and r.random() < 0.7 else (lambda: komm.ConvolutionalCode(cont(r, P), cont(r, Q)))
        if sigma < 0 or sigma > maxsigma or not any(any(p) for p in P) or any(not any(p) for p in P):
            continue
        if fullrank and det_rank(P) < len(P):
            continue
        return make(), P, Q, t


def cont(r, a):
    return r.choice([lambda: a, lambda: np.array(a), lambda: tuple(map(tuple, a)) if isinstance(a[0], list) else tuple(a), lambda: np.asfortranarray(np.array(a, dtype=np.int32))])()


def abcd(code):
    A, B, C, D = code.state_space_representation()
    sg, k, n = code.degree, code.num_input_bits, code.num_output_bits
    sh = [(sg, sg), (k, sg), (sg, n), (k, n)]
    out = {}
    for key, X, s in zip("ABCD", (A, B, C, D), sh):
        X = np.asarray(X)
        if X.shape != s and not (X.size == 0 and 0 in s):
            raise Malformed(f"{key} has shape {X.shape}")
        out[key] = [[S_int(x) for x in row] for row in X.reshape(s)]
    return out


def conv_header(ctx, kind, code, P, Q, **extra):
    M = {"A": [], "B": [], "C": [], "D": []}
    ok, raw, _ = ctx.call(lambda: abcd(code), S_none)
    s = ctx.session(kind, n=len(P[0]), k=len(P), sigma=int(code.degree) if ok else 0, P=[[pbits(p) for p in row] for row in P], Q=[pbits(q) for q in Q], M=raw if ok else M, **extra)
    s.call("new", lambda: abcd(code), S_none)
    return s


def S_encstate(v):
    y, st = (np.asarray(a).astype(int) if np.asarray(a).dtype == bool else np.asarray(a) for a in v)
    return {"y": S_ints(y), "s": S_ints(st)}


def S_fsm(m):
    return {"T": S_ints2(m.transitions), "O": S_ints2(m.outputs)}


def S_gmat(v):
    return [[[pbits(int(x.numerator)), pbits(int(x.denominator))] for x in row] for row in np.asarray(v)]


def flat_arg(r, x, k):
    """the stream as containers of several kinds and shapes"""
    x = np.asarray(x, dtype=int)
    if r.random() < 0.25 and x.size:
        return x.reshape(-1, k)
    return container(r, x)


def coprime_rows(P, Q):
    for row, q in zip(P, Q):
        g = q
        for p in row:
            g = gcd(g, p)
        if g != 1:
            return False
    return True


def conv_numbers(s, code, P, Q):
    s.call("sizes", lambda: [code.num_input_bits, code.num_output_bits, code.degree], S_ints)
    s.call("gmat", lambda: code.generator_matrix, S_gmat)
    if coprime_rows(P, Q):
        s.call("nus", lambda: code.constraint_lengths, S_ints)
        s.call("overall", lambda: code.overall_constraint_length, S_int)
        s.call("memory", lambda: code.memory_order, S_int)


def conv_random(ctx):
    r = ctx.rng
    for _ in range(ctx.n(300, 4000)):
        code, P, Q, t = conv_code(r, maxsigma=r.choice([3, 5, 6]))
        s = conv_header(ctx, t, code, P, Q)
        n, k, sg = len(P[0]), len(P), code.degree
        steps = [lambda: conv_numbers(s, code, P, Q)]
        if sg + k <= ctx.n(6, 8):
            steps.append(lambda: s.call("fsm", lambda: code.finite_state_machine(), S_fsm))

        def enc():
            for _ in range(2):
                x = bits(r, (k * r.choice([0, 1, 2, 5, 9, 20]),))
                arg = flat_arg(r, x, k)
                s.call("encode", lambda: code.encode(arg), S_ints, x=x)
            x, st = bits(r, (k * r.randrange(0, 8),)), bits(r, (sg,))
            xa, sa = flat_arg(r, x, k), container(r, st)
            s.call("encstate", lambda: code.encode_with_state(xa, sa), S_encstate, x=x, s=st)
        steps.append(enc)

        def badstate():
            x = bits(r, (k,))
            for st in (np.zeros(sg + 1, dtype=int), np.zeros((1, sg), dtype=int)):
                s.call("badstate", lambda: code.encode_with_state(x, st), S_none)
        steps.append(badstate)
        steps.append(lambda: s.call("statespace", lambda: abcd(code), lambda v: v))
        r.shuffle(steps)
        for f in steps:
            f()
        s.end()


def conv_wide(ctx):
    """many output bits, many input bits, many states"""
    r = ctx.rng
    for it in range(ctx.n(10, 80)):
        shape = it % 3
        if shape == 0:
            n, k, d = r.randrange(9, 13), 1, r.randrange(0, 4)
        elif shape == 1:
            k = r.randrange(4, 7)
            n, d = r.randrange(k, k + 3), r.choice([0, 1])
        else:
            n, k, d = 2, 1, r.choice([8, 9] if not ctx.thorough else [8, 9, 10])
        Q = [poly(r, d) | 1 if r.random() < 0.5 else 1 for _ in range(k)]
        P = [[poly(r, d) for _ in range(n)] for _ in range(k)]
        if k > 3:
            P = [[p if r.random() < 0.5 and a != 2 else p & 1 for p in row] for a, row in enumerate(P)]
            Q = [q if a < 3 else 1 for a, q in enumerate(Q)]
        P[0][0] |= 1
        if det_rank(P) < k:
            continue
        code = komm.ConvolutionalCode(P, Q)
        if r.random() < 0.4 and all(q == 1 for q in Q) and k == 1:
            code = komm.LowRateConvolutionalCode(P[0])
        s = conv_header(ctx, "wide", code, P, Q)
        if code.degree + k <= 11:
            s.call("fsm", lambda: code.finite_state_machine(), S_fsm)
        x = bits(r, (k * 12,))
        s.call("encode", lambda: code.encode(x), S_ints, x=x)
        s.end()


def conv_long(ctx):
    """long streams and large memories (no machine)"""
    r = ctx.rng
    for _ in range(ctx.n(16, 200)):
        code, P, Q, t = conv_code(r, maxsigma=r.choice([8, 12]) if not ctx.thorough else r.choice([9, 14, 24]), maxk=2, maxn=4)
        s = conv_header(ctx, "long-" + t, code, P, Q)
        conv_numbers(s, code, P, Q)
        k = len(P)
        x = bits(r, (k * 70,))
        s.call("encode", lambda: code.encode(x), S_ints, x=x)
        s.end()


def conv_endless(ctx):
    """one call with thousands of blocks, judged window by window against the carried register"""
    r = ctx.rng
    for total in (1024, 2048, 4096, 4096, 4096, 4096, 8192, r.choice([4500, 8192, 9000])) + ((16384, 65536, 70000) if ctx.thorough else ()):
        code, P, Q, t = conv_code(r, maxsigma=r.choice([2, 4, 7]), maxk=2, maxn=3)
        s = conv_header(ctx, "endless-" + t, code, P, Q)
        k, n, sg = len(P), len(P[0]), code.degree
        x, st = bits(r, (k * total,)), bits(r, (sg,))
        ok, v = s.call("endless", lambda: code.encode_with_state(x, st), lambda v: [len(S_encstate(v)["y"]), len(S_encstate(v)["s"])], blocks=total)
        if ok:
            v = S_encstate(v)
            s.note("start", s=st)
            for a in range(0, total, 250):
                s.note("window", x=x[k * a:k * (a + 250)], y=v["y"][n * a:n * (a + 250)])
            s.note("finish", s=v["s"])
        s.end()


def conv_chunks(ctx):
    """every generated history of call sizes, carrying the returned state"""
    r = ctx.rng
    hist = ctx.gen("MC_Chunks")
    for h in hist:
        code, P, Q, t = conv_code(r, maxsigma=r.choice([2, 4]))
        s = conv_header(ctx, "chunks-" + t, code, P, Q)
        k, sg = len(P), code.degree
        for start in (np.zeros(sg, dtype=int), bits(r, (sg,))):
            s.note("start", s=start)
            st = start
            for b in h:
                b = b * r.choice([1, 1, 2])
                x = bits(r, (k * b,))
                xa, sa = flat_arg(r, x, k), st
                ok, v = s.call("step", lambda: code.encode_with_state(xa, sa), S_encstate, x=x)
                if not ok:
                    break
                st = v[1]
        s.end()


# ------------------------------------------------------------------------------ C08
def machine(r, maxn=5, maxx=3, maxy=4, moore=False, parallel=None):
    N, X, Y = r.randrange(1, maxn + 1), r.randrange(1, maxx + 1), r.randrange(1, maxy + 1)
    T = [[r.randrange(N) for _ in range(X)] for _ in range(N)]
    if parallel:
        for row in T:
            for x in range(1, X):
                if r.random() < 0.6:
                    row[x] = row[0]
    O = [r.randrange(Y) for _ in range(N)] if moore else [[r.randrange(Y) for _ in range(X)] for _ in range(N)]
    return T, O


def fsm_session(ctx, kind, T, O, moore=False, **extra):
    return ctx.session(kind, T=T, O=O, moore=moore, **extra)


def S_process(v):
    return {"y": S_nd(v[0]), "s": S_int(v[1])}


def S_process1(v):
    return {"y": S_ints(np.asarray(v[0])), "s": S_int(v[1])}


def fsm_process(ctx):
    r = ctx.rng
    hist = ctx.gen("MC_Chunks")
    for j in range(ctx.n(500, 6000)):
        moore = r.random() < 0.4
        T, O = machine(r, r.choice([2, 5, 9]), r.choice([2, 3, 5]), r.choice([2, 5]), moore, r.random() < 0.3)
        mk = komm.MooreMachine if moore else komm.MealyMachine
        m = mk(cont(r, T), cont(r, O))
        N, X = len(T), len(T[0])
        s = fsm_session(ctx, "moore" if moore else "mealy", T, O, moore)
        steps = [lambda: s.call("num", lambda: [m.num_states, m.num_input_symbols, m.num_output_symbols], S_ints)]
        if not moore:
            steps.append(lambda: s.call("inedges", lambda: m.input_edges, S_ints2))
            steps.append(lambda: s.call("outedges", lambda: m.output_edges, S_ints2))

        def proc():
            sh = r.choice([(0,), (1,), (4,), (11,), (2, 3), (1, 4), (2, 1, 2)])
            x = ints(r, sh, range(X))
            s0 = r.randrange(N)
            arg = r.choice([x, x.tolist(), x.astype(np.uint8), np.asfortranarray(x)])
            s.call("process", lambda: m.process(arg, s0), S_process, x=nd(x), s=s0)
        steps += [proc, proc]

        def stream():
            h = r.choice(hist)
            s0 = r.randrange(N)
            s.note("start", s=s0)
            for b in h:
                x = ints(r, (b * r.choice([1, 1, 3]),), range(X))
                arg = r.choice([x, x.tolist(), x.astype(np.int8)])
                ok, v = s.call("step", lambda: m.process(arg, s0), S_process1, x=x)
                if not ok:
                    break
                s0 = int(v[1])
        steps += [stream, stream]
        steps.append(lambda: s.call("tables", lambda: {"T": S_ints2(m.transitions), "O": S_ints(m.outputs) if moore else S_ints2(m.outputs)}, lambda v: v))
        r.shuffle(steps)
        for f in steps:
            f()
        s.end()


# ------------------------------------------------------------------------------ C09
def S_vit(scale, off=0):
    """metrics in units of 1/scale, less the common offset (exact: scale and off are dyadic)"""
    def f(v):
        xs, m = v
        m = np.asarray(m, dtype=float)
        if np.isnan(m).any():
            raise Malformed("nan metric")
        mi = []
        for x in m.tolist():
            y = (x - off) * scale
            if math.isinf(x) and x > 0:
                mi.append(INFM)
            elif abs(y - round(y)) > 1e-6 or abs(y) > 10**8:
                raise Malformed(f"metric {x}")
            else:
                mi.append(int(round(y)))
        return {"xs": S_ints2(xs), "m": mi}
    return f


def fsm_viterbi(ctx):
    r = ctx.rng
    for _ in range(ctx.n(500, 8000)):
        T, O = machine(r, r.choice([2, 3, 5]), r.choice([2, 3]), r.choice([2, 4]), False, r.random() < 0.5)
        m = komm.MealyMachine(cont(r, T), cont(r, O))
        N, Y = len(T), 1 + max(max(o) for o in O)
        s = fsm_session(ctx, "vit", T, O)
        for _ in range(3):
            Z = r.randrange(1, 4)
            vals = r.choice([[0, 1], [0, 0, 1, 2, 3], [-3, -1, 0, 2, 5], [0, 1, 2, INFM], list(range(-40, 40))])
            tab = [[r.choice(vals) for _ in range(Y)] for _ in range(Z)]
            L = r.choice([0, 1, 2, 3, 5, 8, 12])
            z = [r.randrange(Z) for _ in range(L)]
            iv = r.choice([None, [0], [0, INFM], [0, 1, 2, -2, INFM]])
            init = [0] * N if iv is None else [r.choice(iv) for _ in range(N)]
            scale = r.choice([1, 1, 4, 2.0**-20, 2.0**30])
            off = r.choice([0, 1, 1024]) if scale >= 1 else r.choice([0, 2.0**40])
            heavy = r.random() < 0.12      # totals that need more than 24 bits
            if heavy:
                tab = [[r.randrange(2**22, 2**23) for _ in range(Y)] for _ in range(Z)]
                scale, off = 1, 0
                L = r.choice([4, 6, 8])
                z = [r.randrange(Z) for _ in range(L)]
            f = lambda y, zz: math.inf if tab[int(zz)][y] >= INFM else off + tab[int(zz)][y] / scale
            obs = r.choice([list(z), np.array(z, dtype=int), np.array(z, dtype=float)]) if L else np.zeros(0, dtype=int)
            kw = {} if iv is None else {"initial_metrics": r.choice([list, np.array, np.float32 if heavy else np.array])([math.inf if v >= INFM else v / scale for v in init])}
            s.call("viterbi", lambda: m.viterbi(obs, f, **kw), S_vit(scale, off * L), z=z, tab=tab, init=init)
        s.end()


def fsm_viterbi_big(ctx):
    """machines with more states than fit in a byte"""
    r = ctx.rng
    for N in [r.randrange(257, 320)] + ([150, 400] if ctx.thorough else []):
        T = [[r.randrange(N) for _ in range(2)] for _ in range(N)]
        O = [[r.randrange(6) for _ in range(2)] for _ in range(N)]
        m = komm.MealyMachine(T, O)
        s = fsm_session(ctx, "vit-big", T, O)
        L = 4
        z = [r.randrange(2) for _ in range(L)]
        tab = [[r.randrange(40) for _ in range(6)] for _ in range(2)]
        init = [r.randrange(200) for _ in range(N)]
        s.call("viterbi", lambda: m.viterbi(z, lambda y, zz: tab[int(zz)][y], initial_metrics=init), S_vit(1), z=z, tab=tab, init=init)
        s.end()


def viterbi_witness(ctx):
    """large memories: the decoded message is at least as likely as the one that was sent"""
    r = ctx.rng
    for it in range(ctx.n(3, 24)):
        sg = r.choice([8, 9]) if it else 9
        g = [poly(r, sg) | 2**sg | 1, poly(r, sg) | 1] + [poly(r, sg)] * (it % 2)
        code = komm.ConvolutionalCode([g])
        h = r.randrange(10, 16)
        term = komm.TerminatedConvolutionalCode(code, h, "direct-truncation")
        s = term_header(ctx, "vdecw", term, code, h, "direct-truncation")
        for soft in (False, True):
            dec = komm.ViterbiDecoder(term, input_type="soft" if soft else "hard")
            u = bits(r, (h,))
            v = np.array(term.encode(u))
            v[r.sample(range(len(v)), r.choice([0, 1, 2]))] ^= 1
            if soft:
                v = (1 - 2 * v) * ints(r, v.shape, range(1, 9))
            sc = 2.0 ** r.choice([0, 14, -10]) if soft else 1
            s.call("vdecw", lambda: dec.decode(v * sc if soft else v), S_ints, x=v, soft=soft, sent=u)
        s.end()


def term_code(r, modes=("direct-truncation", "zero-termination"), maxsigma=3, maxh=5, maxk=2):
    while True:
        code, P, Q, t = conv_code(r, maxsigma=maxsigma, maxk=maxk, maxn=3)
        h = r.randrange(1, maxh + 1)
        mode = r.choice(modes)
        ok = True
        try:
            term = komm.TerminatedConvolutionalCode(code, h, mode)
        except ValueError:
            if mode == "tail-biting":
                continue
            raise
        return term, code, P, Q, h, mode


def term_header(ctx, kind, term, code, h, mode):
    fsm = code.finite_state_machine()
    tail = int(code.memory_order) if mode == "zero-termination" else 0
    return ctx.session(kind, spec="FsmTrace", T=np.asarray(fsm.transitions).tolist(), O=np.asarray(fsm.outputs).tolist(), moore=False,
                       n0=int(code.num_output_bits), k0=int(code.num_input_bits), h=h, tail=tail, zero=mode == "zero-termination")


def unique_tail(s):
    """only one tail leads from state 0 to state 0"""
    if not s.d["zero"]:
        return True
    T, c = s.d["T"], {0: 1}
    for _ in range(s.d["tail"]):
        d = {}
        for a, w in c.items():
            for b in T[a]:
                d[b] = d.get(b, 0) + w
        c = d
    return c.get(0) == 1


def received(r, term, soft):
    n, k = term.length, term.dimension
    sh = shape_for(r, n)
    q = int(np.prod(sh)) // n
    if r.random() < 0.5:
        x = np.array(term.encode(bits(r, (q, k)))).reshape(q, n)
        for row in x:
            row[r.sample(range(n), r.randrange(0, min(n, 4)))] ^= 1
    else:
        x = bits(r, (q, n))
    if soft:
        amp = ints(r, (q, n), r.choice([[1], [0, 1, 2, 3], list(range(20))]))
        x = (1 - 2 * x) * amp
    return x.reshape(sh)


def viterbi_decoder(ctx):
    """most likely message of terminated codes, hard and soft"""
    r = ctx.rng
    for _ in range(ctx.n(150, 2000)):
        term, code, P, Q, h, mode = term_code(r, maxsigma=4, maxh=r.choice([2, 5, 9]))
        s = term_header(ctx, "vdec-" + mode, term, code, h, mode)
        for soft in r.sample([False, True], 2) if unique_tail(s) else ():
            dec = komm.ViterbiDecoder(term, input_type="soft" if soft else "hard") if soft or r.random() < 0.5 else komm.ViterbiDecoder(term)
            for _ in range(2):
                x = received(r, term, soft)
                arg = soft_container(r, x) if soft else container(r, x)
                if soft and r.random() < 0.4:     # decisions do not depend on the scale of the soft values
                    arg = np.asarray(arg) * 2.0 ** r.choice([14, 30, -20])
                s.call("vdec", lambda: dec.decode(arg), S_nd, x=nd(x), soft=soft)
        s.end()
        if term.dimension <= 8 and term.length <= 18:
            dh, ds = komm.ViterbiDecoder(term), komm.ViterbiDecoder(term, input_type="soft")
            s = ctx.session("ml", spec="DecoderTrace", n=int(term.length), k=int(term.dimension), G=np.asarray(term.generator_matrix, dtype=int).tolist())
            s.call("facts", lambda: 0, S_none)
            x = received(r, term, False)
            s.call("nearest", lambda: dh.decode(x), S_nd, x=nd(x))
            y = received(r, term, True)
            s.call("soft-ml", lambda: ds.decode(y), S_nd, x=nd(y))
            badshapes(ctx, s, term, dh)
            s.end()


# ------------------------------------------------------------------------------ C10
def stream_decoder(ctx):
    r = ctx.rng
    hist = ctx.gen("MC_Chunks")
    r.shuffle(hist)
    per = 3
    j = 0
    for it in range(ctx.n(200, 3000)):
        code, P, Q, t = conv_code(r, maxsigma=r.choice([1, 2, 3]), maxk=2, maxn=3)
        k, n, sg = len(P), len(P[0]), code.degree
        fsm = code.finite_state_machine()
        tau = r.choice([1, 1, 2, 3, 5, 8])
        soft = r.random() < 0.4
        s0 = r.choice([0, 0, r.randrange(2**sg)])
        mult = r.choice([1, 2, 3])
        heavy = it % 12 == 5              # a long stream whose metrics outgrow its last values
        if heavy:
            mult, soft = 15, True
        sc = 2.0 ** r.choice([0, 0, 14, 30, -20])
        nb = 6 * mult
        st = [(s0 >> b) & 1 for b in range(sg)]
        x = np.array(code.encode_with_state(bits(r, (k * nb,)), st)[0]) if r.random() < 0.7 else bits(r, (n * nb,))
        noise = r.choice([0, 0, 0.1, 0.3])
        x = np.array([b ^ (r.random() < noise) for b in x.tolist()], dtype=int)
        if soft:
            x = (1 - 2 * x) * ints(r, x.shape, r.choice([[1], [0, 1, 2], [1, 5, 9]]))
            if heavy:
                x[: n * (nb - 40)] *= 2**20
        s = ctx.session("stream", T=np.asarray(fsm.transitions).tolist(), O=np.asarray(fsm.outputs).tolist(), moore=False, n0=n, k0=k,
                        tau=tau, soft=soft, s0=s0, stream=x)
        s.call("facts", lambda: 0, S_none)
        hs = []
        for _ in range(per):
            hs.append([b * mult for b in hist[j % len(hist)]])
            j += 1
        hs.append([nb])
        hs.append([1] * nb)
        r.shuffle(hs)
        for h in hs[: r.choice([3, 5])]:
            dec = komm.ViterbiStreamDecoder(code, traceback_length=tau, state=s0, input_type="soft" if soft else "hard")
            s.note("start", s=0)
            p = 0
            for b in h:
                y = x[p * n:(p + b) * n]
                arg = r.choice([y, y.tolist(), y.reshape(-1, n), y.astype(float) if soft else y.astype(np.uint8)])
                if soft and sc != 1:
                    arg = np.asarray(arg) * sc
                if not s.call("dec", lambda: dec.decode(arg), S_ints, x=y)[0]:
                    break
                p += b
        s.end()


# ------------------------------------------------------------------------------ C11
def S_post(v):
    v = np.asarray(v, dtype=float)
    if v.ndim != 2 or np.isnan(v).any() or (np.abs(v) > 2).any():
        raise Malformed(f"posteriors {v.shape}")
    return np.round(20000 * v).astype(int).tolist()


def fsm_fb(ctx):
    r = ctx.rng
    for _ in range(ctx.n(400, 6000)):
        T, O = machine(r, r.choice([2, 3, 4]), r.choice([2, 3]), r.choice([2, 3]), False, r.random() < 0.5)
        m = komm.MealyMachine(cont(r, T), cont(r, O))
        N, X, Y = len(T), len(T[0]), 1 + max(max(o) for o in O)
        s = fsm_session(ctx, "fb", T, O)
        for _ in range(3):
            Z = r.randrange(1, 4)
            zero = r.random() < 0.3
            tab = [[r.choice([0, 1, 2] if zero else [1, 2, 3]) for _ in range(Y)] for _ in range(Z)]
            L = r.choice([1, 2, 3, 4])
            z = [r.randrange(Z) for _ in range(L)]
            dist = lambda q, vals: r.choice(vals)
            pri = [[r.choice([1, 1, 2, 0] if r.random() < 0.3 else [1, 2]) for _ in range(X)] for _ in range(L)] if r.random() < 0.6 else [[1] * X for _ in range(L)]
            ini = r.choice([[1] * N, [int(a == 0) for a in range(N)], [r.choice([0, 1, 2]) for _ in range(N)]])
            fin = r.choice([[1] * N, [int(a == 0) for a in range(N)], [r.choice([0, 1, 2]) for _ in range(N)]])
            if any(sum(p) == 0 for p in pri) or not sum(ini) or not sum(fin):
                continue
            # some path must have positive weight
            tot = 0
            for s0 in range(N):
                for xs in itertools.product(range(X), repeat=L):
                    w, st = ini[s0], s0
                    for t, xx in enumerate(xs):
                        w *= pri[t][xx] * tab[z[t]][O[st][xx]]
                        st = T[st][xx]
                    tot += w * fin[st]
            if tot == 0 or tot >= 2**30:
                continue
            f = lambda y, zz: math.log(tab[int(zz)][y]) if tab[int(zz)][y] else -math.inf
            kw = {}
            norm = lambda v: np.array(v) / sum(v)
            if pri != [[1] * X] * L or r.random() < 0.3:
                kw["input_priors"] = np.array([norm(p) for p in pri])
            if ini != [1] * N or r.random() < 0.3:
                kw["initial_state_distribution"] = norm(ini)
            if fin != [1] * N or r.random() < 0.3:
                kw["final_state_distribution"] = norm(fin)
            kw = {a: r.choice([b, b.tolist()]) for a, b in kw.items()}
            obs = r.choice([z, np.array(z), np.array(z, dtype=float)])
            s.call("fb", lambda: m.forward_backward(obs, f, **kw), S_post, z=z, tab=tab, pri=pri, ini=ini, fin=fin)
        s.end()


def fsm_fb_extreme(ctx):
    """likelihoods, priors and distributions a * B^e with B = 2^60: the posteriors are those of the leading order"""
    r = ctx.rng
    B = 60 * math.log(2)
    for _ in range(ctx.n(150, 2000)):
        T, O = machine(r, r.choice([2, 3, 4]), r.choice([2, 3]), r.choice([2, 3]), False, r.random() < 0.3)
        m = komm.MealyMachine(cont(r, T), cont(r, O))
        N, X, Y = len(T), len(T[0]), 1 + max(max(o) for o in O)
        s = fsm_session(ctx, "fbx", T, O)
        for _ in range(2):
            Z = r.randrange(1, 4)
            es = r.choice([[0, 0, 1], [-3, 0, 2], [0, -1], [-20, 0, 20]])
            tab = [[[r.choice(es), r.choice([1, 2, 3])] for _ in range(Y)] for _ in range(Z)]
            L = r.choice([1, 2, 3, 4, 6])
            z = [r.randrange(Z) for _ in range(L)]
            # priors and distributions, as far as doubles reach
            vec = lambda q: r.choice([[[0, 1]] * q, [[r.choice([0, 0, -2, -4]), r.choice([1, 2])] for _ in range(q)]])
            pri, ini, fin = [vec(X) for _ in range(L)], vec(N), vec(N)
            num = lambda v: [a * 2.0 ** (60 * e) for e, a in v]
            f = lambda y, zz: tab[int(zz)][y][0] * B + math.log(tab[int(zz)][y][1])
            s.call("fbx", lambda: m.forward_backward(z, f, input_priors=np.array([num(p) for p in pri]), initial_state_distribution=num(ini), final_state_distribution=np.array(num(fin))),
                   S_post, z=z, tab=tab, pri=pri, ini=ini, fin=fin)
        s.end()
    # longer inputs, weights that are powers of B, impossible states and inputs (order NEVER) around one possible path
    NEVER = -10**6
    for _ in range(ctx.n(150, 1200)):
        N, X, Y = r.choice([2, 2, 3, 4]), r.choice([2, 2, 2, 3]), r.choice([2, 3, 4])
        part = [r.randrange(2) for _ in range(N)] if r.random() < 0.6 else [0] * N      # parts that never meet
        T = [[r.choice([b for b in range(N) if part[b] == part[a]]) for _ in range(X)] for a in range(N)]
        O = [[r.randrange(Y) for _ in range(X)] for _ in range(N)]
        m = komm.MealyMachine(cont(r, T), cont(r, O))
        N, X, Y = len(T), len(T[0]), 1 + max(max(o) for o in O)
        s = fsm_session(ctx, "fbxl", T, O)
        Z = r.randrange(1, 4)
        es = r.choice([[0, 1], [-1, 0, 1, 3], [-20, 0, 20], [-20, 20], [0, 100], [0, 40], [-7, 5]])
        tab = [[[r.choice(es), 1] for _ in range(Y)] for _ in range(Z)]
        L = r.choice([8, 12, 13, 14, 16, 18]) if X <= 2 else r.choice([7, 9, 11])
        z = [r.randrange(Z) for _ in range(L)]
        path = [r.randrange(N)]
        u = [r.randrange(X) for _ in range(L)]
        for x in u:
            path.append(T[path[-1]][x])

        def vec(q, keep):
            p = r.choice([0, 0.4, 0.8, 1])
            return [[0 if j == keep or r.random() >= p else NEVER, 1] for j in range(q)]
        pri, ini, fin = [vec(X, x) if r.random() < 0.2 else [[0, 1]] * X for x in u], vec(N, path[0]), vec(N, path[-1])
        num = lambda v: [a * 2.0 ** (60 * e) for e, a in v]
        f = lambda y, zz: tab[int(zz)][y][0] * B
        s.call("fbx", lambda: m.forward_backward(z, f, input_priors=np.array([num(p) for p in pri]), initial_state_distribution=num(ini), final_state_distribution=np.array(num(fin))),
               S_post, z=z, tab=tab, pri=pri, ini=ini, fin=fin)
        s.end()


def leading_counts(T, O, W, tab, z, pri, ini, fin):
    """largest coefficient met in the forward and backward recursions of leading orders (to stay within 31 bits)"""
    N, X, L = len(T), len(T[0]), len(z)

    def add(v, e, a):
        if v[0] is None or e > v[0]:
            return [e, a]
        return [e, v[1] + a] if e == v[0] else v
    big = [1, 1]
    al = [list(v) for v in ini]
    for t in range(L):
        nx = [[None, 0] for _ in range(N)]
        for s, x in itertools.product(range(N), range(X)):
            if al[s][0] is not None:
                w = tab[z[t]][O[s][x]]
                nx[T[s][x]] = add(nx[T[s][x]], al[s][0] + pri[t][x][0] + w[0], al[s][1] * pri[t][x][1] * w[1])
        al = nx
        big[0] = max([big[0]] + [v[1] for v in al])
    be = [list(v) for v in fin]
    for t in range(L - 1, -1, -1):
        nx = [[None, 0] for _ in range(N)]
        for s, x in itertools.product(range(N), range(X)):
            w, b = tab[z[t]][O[s][x]], be[T[s][x]]
            nx[s] = add(nx[s], b[0] + pri[t][x][0] + w[0], b[1] * pri[t][x][1] * w[1])
        be = nx
        big[1] = max([big[1]] + [v[1] for v in be])
    return big[0] * big[1] * N * X


def fsm_fb_long(ctx):
    """hundreds of steps; parts of the machine that never meet, ends and beginnings that cannot be reached"""
    r = ctx.rng
    B = 60 * math.log(2)
    NEVER = -10**6
    done = 0
    while done < ctx.n(24, 200):
        N, X, Y = r.choice([2, 2, 3, 4]), r.choice([1, 2, 2, 3]), r.choice([2, 3, 4])
        part = [r.randrange(2) for _ in range(N)] if r.random() < 0.7 else [0] * N
        T = [[r.choice([b for b in range(N) if part[b] == part[a]]) for _ in range(X)] for a in range(N)]
        O = [[r.randrange(Y) for _ in range(X)] for _ in range(N)]
        Y = 1 + max(max(o) for o in O)
        Z = r.randrange(1, 4)
        L = r.choice([63, 64, 65, 100, 101, 128, 130, 200, 256, 257, 300])
        es = r.choice([[0, 1, 2, 5, 7], [-1, 0, 1, 3], [-20, 0, 20], [0, 40, 17]])
        tab = [[[r.choice(es), 1] for _ in range(Y)] for _ in range(Z)]
        z = [r.randrange(Z) for _ in range(L)]
        u = [r.randrange(X) for _ in range(L)]
        path = [r.randrange(N)]
        for x in u:
            path.append(T[path[-1]][x])
        kind = r.randrange(3)
        pri = [[[0, 1]] * X if kind == 0 and r.random() < .7 else [[-r.choice([0, 1, 2, 3]), 1] for _ in range(X)] for _ in range(L)]

        def vec(keep):
            q = r.choice([0, .4, 1, 1])
            return [[0 if j == keep or r.random() >= q else NEVER, 1] for j in range(N)]
        ini, fin = vec(path[0]), vec(path[-1])
        if leading_counts(T, O, None, tab, z, pri, ini, fin) >= 2**29:
            continue
        done += 1
        m = komm.MealyMachine(cont(r, T), cont(r, O))
        s = fsm_session(ctx, "fblong", T, O)
        num = lambda v: [a * 2.0 ** (60 * e) for e, a in v]
        f = lambda y, zz: tab[int(zz)][y][0] * B
        s.call("fbx", lambda: m.forward_backward(z, f, input_priors=np.array([num(p) for p in pri]), initial_state_distribution=num(ini), final_state_distribution=np.array(num(fin))),
               S_post, z=z, tab=tab, pri=pri, ini=ini, fin=fin)
        s.end()


def bcjr(ctx):
    """log-ratios of the bit posteriors of terminated codes"""
    r = ctx.rng
    done = 0
    while done < ctx.n(150, 2000):
        term, code, P, Q, h, mode = term_code(r, maxsigma=3, maxh=4)
        n, k = int(term.length), int(term.dimension)
        if n > 14 or k > 6:
            continue
        done += 1
        soft = komm.BCJRDecoder(term, output_type="soft") if r.random() < 0.5 else komm.BCJRDecoder(term)
        hard = komm.BCJRDecoder(term, output_type="hard")
        s = ctx.session("bcjr-" + mode, spec="DecoderTrace", n=n, k=k, G=np.asarray(term.generator_matrix, dtype=int).tolist())
        s.call("facts", lambda: 0, S_none)
        for _ in range(3):
            sh = shape_for(r, n)
            q = int(np.prod(sh))
            ch = [(1, 2), (2, 1), (1, 1)] + ([(3, 1), (1, 3), (3, 2)] if n <= 10 else [])
            pairs = [r.choice(ch) for _ in range(q)]
            if r.random() < 0.4:
                w = np.array(term.encode(bits(r, (q // n, k)))).ravel()
                pairs = [(2, 1) if b == 0 else (1, 2) for b in w]
            li = np.log(np.array([a / b for a, b in pairs])).reshape(sh)
            arg = r.choice([li.copy(), li.tolist(), np.asfortranarray(li)])
            s.call("app", lambda: soft.decode(arg), S_prob, l=[list(p) for p in pairs], sh=list(sh))
            arg = li.copy()
            s.call("app-hard", lambda: hard.decode(arg), S_nd, l=[list(p) for p in pairs], sh=list(sh))
        # reliabilities eps * d: the L-values are those of the first order
        for _ in range(2):
            sh = shape_for(r, n)
            d = np.array([r.choice(r.choice([[-1, 0, 0, 0, 0, 1], [-3, -1, 0, 1, 2]])) for _ in range(int(np.prod(sh)))], dtype=int).reshape(sh)
            eps = r.choice([2.0**-14, 2.0**-20, 2.0**-26, 2.0**-30])
            ok, v = ctx.call(lambda: soft.decode(d * eps), S_none)[:2]

            def tiny(v):
                v = np.asarray(v, dtype=float)
                if not np.isfinite(v).all():
                    raise Malformed("not finite")
                return {"shape": list(v.shape), "d": np.round(np.clip(v / eps * 1000, -1e9, 1e9)).astype(int).ravel().tolist()}
            s.call("app-tiny", lambda: soft.decode(d * eps), tiny, l=d.ravel().tolist(), sh=list(sh))
            s.call("tiny-hard", lambda: hard.decode(d * eps), S_nd, l=d.ravel().tolist(), sh=list(sh))
        badshapes(ctx, s, term, soft)
        s.end()


# ------------------------------------------------------------------------------ C12
MODES = ("direct-truncation", "zero-termination", "tail-biting")


def term_session(ctx, r, kind, code, P, Q, h, mode, queries=True):
    term = komm.TerminatedConvolutionalCode(code, h, mode)
    M = abcd(code)
    df = {"t": "term", "n0": len(P[0]), "k0": len(P), "h": h, "sigma": int(code.degree), "mu": int(code.memory_order), "mode": mode, "M": M,
          "P": [[pbits(p) for p in row] for row in P], "Q": [pbits(q) for q in Q]}
    G = np.asarray(term.generator_matrix, dtype=int).tolist()
    fullrank = block.gf2_rank(G) == term.dimension
    if fullrank:
        s = block.header(ctx, kind, term, df)
    else:   # the map is not injective: no inverse, no check matrix
        s = ctx.session(kind + "-low", n=int(term.length), k=int(term.dimension), m=int(term.redundancy), G=G, H=[], **{"def": {**df, "t": "termlow"}})
        s.call("new", lambda: 0, S_none)
    block.sizes(s, term)
    steps = [lambda: maps_low(ctx, s, term) if not fullrank else block.mappings(ctx, s, term, 2)]
    if fullrank:
        steps.append(lambda: block.matrices(s, term))
        if queries and term.dimension <= 9 and term.redundancy <= 9:
            def q():
                block.facts(s, True, True)
                for x in r.sample(block.ALLQ, 4):
                    block.query(s, term, x)
            steps.append(q)
    r.shuffle(steps)
    for f in steps:
        f()
    s.end()


def maps_low(ctx, s, code):
    r = ctx.rng
    for _ in range(3):
        sh = shape_for(r, code.dimension)
        u = bits(r, sh)
        arg = container(r, u)
        s.call("encode", lambda: code.encode(arg), S_nd, x=nd(u))


def terminated(ctx):
    r = ctx.rng
    for it in range(ctx.n(150, 2000)):
        code, P, Q, t = conv_code(r, maxsigma=r.choice([2, 3, 4]), maxk=2, maxn=3)
        for mode in r.sample(MODES, 2) if it % 3 else MODES:
            h = r.choice([1, 2, 3, 4, 5, 7])
            if mode == "tail-biting":
                s = ctx.session("tb", n=1, k=1, m=0, G=[[1]], H=[], **{"def": {"t": "none"}})
                M = abcd(code)
                ok, _ = s.call("tbnew", lambda: komm.TerminatedConvolutionalCode(code, h, mode).generator_matrix, S_none,
                               M=M, n0=len(P[0]), k0=len(P), h=h, sigma=int(code.degree))
                s.end()
                if not ok:
                    continue
            term_session(ctx, r, mode, code, P, Q, h, mode)


def terminated_long(ctx):
    """messages of tens and hundreds of blocks"""
    r = ctx.rng
    for _ in range(ctx.n(70, 500)):
        short = r.random() < 0.5     # fewer blocks than the memory
        code, P, Q, t = conv_code(r, maxsigma=r.choice([5, 6, 7, 8] if short else [1, 2, 3, 4]), maxk=2, maxn=3)
        n0, k0, sigma = len(P[0]), len(P), int(code.degree)
        M = abcd(code)
        for mode in MODES:
            h = r.choice([1, 1, 2, 3, 4, 6]) if short else r.choice([20, 50, 90, 99, 100, 101, 120, 128, 129, 150, 200, 256, 257, 300]) // r.choice([1, k0])
            s = ctx.session("long-" + mode, n=1, k=1, m=0, G=[[1]], H=[], **{"def": {"t": "none"}})
            base = dict(M=M, n0=n0, k0=k0, h=h, sigma=sigma)
            try:
                term = komm.TerminatedConvolutionalCode(code, h, mode)
            except ValueError:
                if mode == "tail-biting":
                    s.end()
                    continue
                raise
            if mode == "tail-biting":
                try:
                    term.encode(np.zeros(h * k0, dtype=int))
                except ValueError:
                    s.end()
                    continue
            invertible = h * k0 <= 130
            for _ in range(3):
                p1 = r.choice([0.5, 0.5, 0.95, 0.02, 1])
                u = [int(r.random() < p1) for _ in range(h * k0)]
                arg = container(r, np.array(u))
                ok, v = s.call("tpath", lambda: term.encode(arg), S_ints, x=u, mode=mode, mu=int(code.memory_order), **base)
                if ok and invertible:
                    try:
                        term.generator_right_inverse
                    except Exception:
                        invertible = False
                    if invertible:
                        y = np.array(v)
                        s.call("tback", lambda: term.inverse_encode(y), S_ints, x=u)
            s.end()


def named_terminated(ctx):
    r = ctx.rng
    for P, Q in (([[0b111, 0b101]], [1]), ([[0o133, 0o171]], [1]), ([[0b1101, 0b1111]], [0b1101]), ([[0b1101, 0b1111, 0b1011]], [0b1101]),
                 ([[0b11, 0b10, 0b11], [0b10, 0b1, 0b1]], [1, 1]), ([[0b111, 0b101, 0b101]], [1]), ([[0b1, 0b0, 0b101], [0b0, 0b1, 0b111]], [0b111, 0b111])):
        code = komm.ConvolutionalCode(P, Q)
        for mode in MODES:
            for h in (1, 4, 6, 12):
                if mode == "tail-biting":
                    try:
                        komm.TerminatedConvolutionalCode(code, h, mode).generator_matrix
                    except ValueError:
                        continue
                term_session(ctx, r, "named-" + mode, code, P, Q, h, mode)


# ------------------------------------------------------------------------------ C13
def free_catastrophic(ctx):
    r = ctx.rng
    for it in range(ctx.n(300, 4000)):
        code, P, Q, t = conv_code(r, maxsigma=r.choice([2, 3, 4]))
        if r.random() < 0.35 and t in ("ff", "fb", "low"):   # force a common factor
            f = r.choice([0b11, 0b111, 0b101, 0b10])
            i = r.randrange(len(P))
            P = [[pmul(f, p) if a == i else p for p in row] for a, row in enumerate(P)]
            if sum(max(max(x.bit_length() for x in P[a]), Q[a].bit_length()) - 1 for a in range(len(P))) > 6:
                continue
            code = komm.ConvolutionalCode(P, Q)
        fsm = code.finite_state_machine()
        s = conv_header(ctx, "free-" + t, code, P, Q, T=np.asarray(fsm.transitions).tolist(), O=np.asarray(fsm.outputs).tolist())
        s.call("fsm", lambda: fsm, S_fsm)
        steps = [lambda: s.call("free", lambda: code.free_distance(), S_int), lambda: s.call("catastrophic", lambda: code.is_catastrophic(), S_bool)]
        r.shuffle(steps)
        for f in steps:
            f()
        s.end()


def free_large(ctx):
    """memories of 8 to 10 delays"""
    r = ctx.rng
    for g in [[0o561, 0o753], [poly(r, 8) | 257, poly(r, 8) | 1], [0o1167, 0o1545]] + ([[0o2335, 0o3661], [0o4335, 0o5723], [poly(r, 9) | 513, poly(r, 9), poly(r, 9)]] if ctx.thorough else []):
        code = komm.ConvolutionalCode([g])
        fsm = code.finite_state_machine()
        s = conv_header(ctx, "free-large", code, [g], [1], T=np.asarray(fsm.transitions).tolist(), O=np.asarray(fsm.outputs).tolist())
        s.call("fsm", lambda: fsm, S_fsm)
        s.call("free", lambda: code.free_distance(), S_int)
        s.end()
    for g in [[0o56721, 0o61713]]:
        code = komm.ConvolutionalCode([g])
        fsm = code.finite_state_machine()
        s = conv_header(ctx, "free-huge", code, [g], [1], T=np.asarray(fsm.transitions).tolist(), O=np.asarray(fsm.outputs).tolist())
        s.call("free", lambda: code.free_distance(), S_int)
        s.end()
    # heavy codewords: many outputs
    for _ in range(ctx.n(4, 30)):
        g = [poly(r, 2) | 4 for _ in range(r.randrange(10, 25))]
        code = r.choice([komm.LowRateConvolutionalCode, lambda x: komm.ConvolutionalCode([x])])(g)
        fsm = code.finite_state_machine()
        s = conv_header(ctx, "free-heavy", code, [g], [1], T=np.asarray(fsm.transitions).tolist(), O=np.asarray(fsm.outputs).tolist())
        s.call("free", lambda: code.free_distance(), S_int)
        s.end()


TABLE = [([0o5, 0o7], 5), ([0o64 >> 2, 0o74 >> 2], 6), ([0o23, 0o35], 7), ([0o53, 0o75], 8), ([0o133, 0o171], 10), ([0o5, 0o7, 0o7], 8), ([0o13, 0o15, 0o17], 10)]


def free_known(ctx):
    r = ctx.rng
    for g, d in TABLE + ([([0o247, 0o371], 10), ([0o561, 0o753], 12)] if ctx.thorough else []):
        for mk in (lambda: komm.ConvolutionalCode([g]), lambda: komm.LowRateConvolutionalCode(g)):
            code = mk()
            fsm = code.finite_state_machine()
            s = conv_header(ctx, "known", code, [g], [1], T=np.asarray(fsm.transitions).tolist(), O=np.asarray(fsm.outputs).tolist())
            s.call("free", lambda: code.free_distance(), S_int)
            s.call("catastrophic", lambda: code.is_catastrophic(), S_bool)
            s.end()
