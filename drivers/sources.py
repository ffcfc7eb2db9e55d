"""C26: Markov chains; C27: channels and sources."""
import itertools

import numpy as np

import komm
from drivers.mapping import layout
from harness.drive import Malformed, S_bool, S_int, S_ints, S_nd, S_set, S_sets, fxs, fxs2


def compose(r, D, idx, n):
    """a row of n weights summing to D, positive exactly on idx"""
    row = [0] * n
    for j in idx:
        row[j] = 1
    for _ in range(D - len(idx)):
        row[r.choice(idx)] += 1
    return row


def random_chain(ctx):
    r = ctx.rng
    n = r.choice([1, 2, 3, 4, 5, 6, 8, 9, 10, 12])
    D = r.choice([2, 4, 6, 10, 12])
    kind = r.randrange(7)
    idx = list(range(n))
    if kind == 0:      # sparse
        W = [compose(r, D, r.sample(idx, min(n, D, r.choice([1, 1, 2, 3]))), n) for _ in idx]
    elif kind == 1:    # dense
        W = [compose(r, D, r.sample(idx, min(n, D, r.randint(1, n))), n) for _ in idx]
    elif kind == 2:    # periodic: classes visited in turn
        d = r.randint(1, min(n, 4))
        part = [[j for j in idx if j % d == k] for k in range(d)]
        W = []
        for i in idx:
            nxt = part[(i + 1) % d]
            W.append(compose(r, D, r.sample(nxt, min(len(nxt), D, r.randint(1, 3))), n))
    elif kind in (3, 4):   # absorbing
        na = r.randint(1, max(1, n - 1))
        ab = r.sample(idx, na)
        direct = n - na > 4 or D > 6 or r.random() < .5
        W = []
        for i in idx:
            if i in ab:
                W.append([D if j == i else 0 for j in idx])
                continue
            others = r.sample(idx, min(n, D - 1, r.choice([1, 2, 3])))
            if direct:
                others = list(set(others) | {r.choice(ab)})
            W.append(compose(r, D, others[:D], n))
        if direct and any(W[i][i] == D and i not in ab for i in idx):
            pass
    elif kind == 5:    # one long cycle with a chord, the slowest to become positive
        W = [[0] * n for _ in idx]
        for i in idx:
            W[i][(i + 1) % n] = D
        if n > 1:
            i, j = r.choice(idx), r.choice(idx)
            W[i][(i + 1) % n] -= 1
            W[i][j] += 1
    else:              # several closed classes and leaks between them
        cut = r.randint(0, n)
        W = []
        for i in idx:
            pool = [j for j in idx if j >= cut] if i >= cut else idx
            W.append(compose(r, D, r.sample(pool, min(len(pool), D, r.choice([1, 2, 2]))), n))
    p = idx[:]
    if r.random() < .6:
        r.shuffle(p)
    return [[W[p[i]][p[j]] for j in idx] for i in idx], D


def slow(W, D):
    """upper bound on expected absorption times gets out of the recorded range"""
    n = len(W)
    ab = [i for i in range(n) if W[i][i] == D]
    t = [i for i in range(n) if i not in ab]
    return any(not any(W[i][a] for a in ab) for i in t) and (len(t) > 4 or D > 6)


OPS = ["num", "acc", "acc", "classes", "irr", "tr", "rec", "abs", "isabs", "per", "per", "aper", "reg", "prim", "stat", "visits", "time", "absprob", "sim", "until"]


def chain_call(ctx, s, C, W, D, op):
    r = ctx.rng
    n = len(W)
    x = r.randrange(n)

    def of_set(f):
        def g():
            v = f()
            out = set(v)
            v.clear()          # a returned set belongs to the caller
            return out
        return g

    def of_sets(f):
        def g():
            v = f()
            out = [set(a) for a in v]
            for a in v:
                a.clear()
            v.clear()
            return out
        return g
    if op == "num":
        s.call(op, lambda: C.num_states, S_int)
    elif op == "acc":
        s.call(op, of_set(lambda: C.accessible_states_from(x)), S_set, x=x)
    elif op == "classes":
        s.call(op, of_sets(lambda: C.communicating_classes()), S_sets)
    elif op == "irr":
        s.call(op, lambda: C.is_irreducible(), S_bool)
    elif op == "tr":
        s.call(op, of_set(lambda: C.transient_states()), S_set)
    elif op == "rec":
        s.call(op, of_set(lambda: C.recurrent_states()), S_set)
    elif op == "abs":
        s.call(op, of_set(lambda: C.absorbing_states()), S_set)
    elif op == "isabs":
        s.call(op, lambda: C.is_absorbing(), S_bool)
    elif op == "per":
        s.call(op, lambda: C.period(x), S_int, x=x)
    elif op == "aper":
        s.call(op, lambda: C.is_aperiodic(), S_bool)
    elif op == "reg":
        s.call(op, lambda: C.is_regular(), S_bool)
    elif op == "prim":
        s.call(op, lambda: C.index_of_primitivity(), S_int)
    elif op == "stat":
        s.call(op, lambda: C.stationary_distribution(), fxs(10**6))
    elif op == "visits":
        s.call(op, lambda: C.mean_number_of_visits(), fxs2(1000))
    elif op == "time":
        s.call(op, lambda: C.mean_time_to_absorption(), fxs(1000))
    elif op == "absprob":
        s.call(op, lambda: C.absorption_probabilities(), fxs2(10**6))
    elif op == "sim":
        k = r.choice([0, 1, 2, 10, 40])
        s.call(op, lambda: C.simulate(x, k), S_ints, x=x, steps=k)
    elif op == "until":
        s.call(op, lambda: C.simulate_until_absorption(x), S_ints, x=x)


def matrix_of(ctx, W, D):
    a = np.array(W) / D
    k = ctx.rng.randrange(5)
    if k == 0:
        return a.tolist()
    if k == 1:
        return np.asfortranarray(a)
    if k == 2 and D == 2 and all(x in (0, 2) for row in W for x in row):
        return np.array(W) // 2
    if k == 3:
        return tuple(tuple(x) for x in a.tolist())
    return a


def chains(ctx):
    r = ctx.rng
    for _ in range(ctx.n(900, 6000)):
        W, D = random_chain(ctx)
        C = komm.MarkovChain(matrix_of(ctx, W, D), rng=np.random.default_rng(r.getrandbits(32)))
        s = ctx.session("chain", W=W, D=D)
        sl = slow(W, D)
        for _ in range(r.randint(4, 14)):
            op = r.choice(OPS)
            if sl and op in ("visits", "time", "absprob"):
                continue
            chain_call(ctx, s, C, W, D, op)
        s.end()
    s = ctx.session("bad", W=[[1]], D=1)
    for m in ([[.5, .5]], [[1], [1]], [[.5, .6], [.5, .5]], [[1.5, -.5], [0, 1]], [1.0], [[.5, .5], [1, .1]], [[0, 0], [0, 1]]):
        s.call("bad", lambda: komm.MarkovChain(m), lambda v: 0)
    s.end()


def chains_small(ctx):
    """every pattern of positive entries on up to three states"""
    r = ctx.rng
    pats = []
    for n in (1, 2, 3):
        rows = [p for p in itertools.product((0, 1), repeat=n) if any(p)]
        pats += list(itertools.product(rows, repeat=n))
    for pat in pats:
        n = len(pat)
        D = 6
        W = [compose(r, D, [j for j in range(n) if row[j]], n) for row in pat]
        C = komm.MarkovChain(np.array(W) / D, rng=np.random.default_rng(r.getrandbits(32)))
        s = ctx.session("small", W=W, D=D)
        ops = sorted(set(OPS))
        r.shuffle(ops)
        for op in ops:
            chain_call(ctx, s, C, W, D, op)
        for x in range(n):
            s.call("per", lambda: C.period(x), S_int, x=x)
            s.call("acc", lambda: C.accessible_states_from(x), S_set, x=x)
        s.end()


TINY = 2.0**-28
GRAPH = ["num", "acc", "acc", "classes", "irr", "tr", "rec", "abs", "abs", "isabs", "isabs", "per", "aper", "reg", "prim", "sim"]


def circulant(r, m, D):
    """m equally visited states, one class"""
    c = [0] * m
    for k in {1 % m, *r.sample(range(m), min(m, r.choice([1, 1, 2])))}:
        c[k] = 1
    while sum(c) > D:
        c = [1 if k == 1 % m else 0 for k in range(m)]
    c[r.choice([k for k in range(m) if c[k]])] += D - sum(c)
    return [[c[(j - i) % m] for j in range(m)] for i in range(m)]


def chains_leaky(ctx):
    """groups of states joined, or left for absorbing states, only by transitions of tiny probability"""
    r = ctx.rng
    for _ in range(ctx.n(150, 1000)):
        D = r.choice([2, 4, 6, 10])
        absorbing = r.random() < .5
        sizes = [r.choice([1, 1, 2, 3]) for _ in range(r.choice([1, 2, 3] if absorbing else [2, 3]))]
        na = r.choice([1, 2, 3]) if absorbing else 0
        m = sum(sizes)
        n = m + na
        base = [[0] * n for _ in range(n)]
        eps = [[0] * n for _ in range(n)]
        groups, at = [], 0
        for z in sizes:
            for i, row in enumerate(circulant(r, z, D)):
                for j, w in enumerate(row):
                    base[at + i][at + j] = w
            groups.append(list(range(at, at + z)))
            at += z
        for i in range(m, n):
            base[i][i] = D
        for q, g in enumerate(groups):
            if absorbing:
                for j in r.sample(range(m, n), r.randint(1, na)):
                    eps[r.choice(g)][j] = r.randint(1, 9)
            else:
                eps[r.choice(g)][r.choice(groups[(q + 1) % len(groups)])] += r.randint(1, 9)
                if r.random() < .5:
                    eps[r.choice(g)][r.choice(groups[q - 1])] += r.randint(1, 9)
        p = list(range(n))
        r.shuffle(p)
        base = [[base[p[i]][p[j]] for j in range(n)] for i in range(n)]
        eps = [[eps[p[i]][p[j]] for j in range(n)] for i in range(n)]
        P = np.array(base) / D
        for i in range(n):
            P[i, int(np.argmax(P[i]))] -= sum(eps[i]) * TINY
        P += np.array(eps) * TINY
        W = (np.array(base) + np.array(eps)).tolist()
        C = komm.MarkovChain(P, rng=np.random.default_rng(r.getrandbits(32)))
        s = ctx.session("leaky", W=W, D=D, base=base, eps=eps)
        for op in r.sample(GRAPH, 8):
            chain_call(ctx, s, C, W, D, op)
        if absorbing:
            s.call("tabs", lambda: C.absorption_probabilities(), fxs2(10**6))
            s.call("ttime", lambda: C.mean_time_to_absorption() * (TINY * D), fxs(1000))
        else:
            s.call("tstat", lambda: C.stationary_distribution(), fxs(10**6))
        s.end()


def S_runs(v):
    v = np.asarray(v)
    if v.ndim != 1 or v.dtype.kind not in "iu":
        raise Malformed(f"{v.ndim} {v.dtype}")
    cut = np.flatnonzero(np.diff(v)) + 1
    b = [0, *cut.tolist(), len(v)]
    return [[int(v[i]), j - i] for i, j in zip(b[:-1], b[1:])]


def chains_long(ctx):
    """many states, long cycles, long paths, long waits"""
    r = ctx.rng
    lens = [60, 64, 65, 96, 100, 127, 128, 130] + [r.randint(20, 140) for _ in range(ctx.n(12, 60))]
    for n in lens:
        ch = []
        k = r.randrange(4)
        if k == 1:
            i = r.randrange(n)
            ch = [[i, (i + 2) % n]]
        elif k >= 2:
            d = r.choice([x for x in range(1, n + 1) if n % x == 0])
            for _ in range(r.randint(1, 3)):
                i = r.randrange(n)
                ch.append([i, (i + 1 + d * r.randrange(n // d)) % n])
        A = np.zeros((n, n))
        for i in range(n):
            A[i, (i + 1) % n] = 1
        for i, j in ch:
            A[i, j] = 1
        P = A / A.sum(axis=1, keepdims=True)
        C = komm.MarkovChain(P, rng=np.random.default_rng(r.getrandbits(32)))
        s = ctx.session("ring", W=[[1]], D=1, n=n, ch=ch)
        x = r.randrange(n)
        s.call("rper", lambda: C.period(x), S_int, x=x)
        s.call("racc", lambda: C.accessible_states_from(x), S_set, x=x)
        s.call("rclasses", lambda: C.communicating_classes(), S_sets)
        s.call("rirr", lambda: C.is_irreducible(), S_bool)
        s.call("rtr", lambda: C.transient_states(), S_set)
        s.call("rrec", lambda: C.recurrent_states(), S_set)
        s.call("rabs", lambda: C.absorbing_states(), S_set)
        s.call("raper", lambda: C.is_aperiodic(), S_bool)
        s.call("rreg", lambda: C.is_regular(), S_bool)
        s.call("rsim", lambda: C.simulate(x, 3 * n), S_ints, x=x, steps=3 * n)
        if k == 1 and n <= 70 and n % 2:
            s.call("rprim", lambda: C.index_of_primitivity(), S_int)
        if not ch:
            s.call("rstat", lambda: C.stationary_distribution(), fxs(10**6))
        s.end()
    for k in (11, 13, 15):
        C = komm.MarkovChain([[1 - 2.0**-k, 2.0**-k], [0, 1]], rng=np.random.default_rng(r.getrandbits(32)))
        s = ctx.session("wait", W=[[1, 1], [0, 1]], D=2, mean=2**k)
        s.call("runs", lambda: [C.simulate_until_absorption(0) for _ in range(6)], lambda v: [S_runs(x) for x in v])
        s.end()
    for n in (150, 300) if ctx.tier == "quick" else (150, 300, 600):
        P = np.eye(n, k=1)
        P[-1, -1] = 1
        C = komm.MarkovChain(P)
        x = r.randrange(n // 4)
        s = ctx.session("line", W=[[1]], D=1, n=n)
        s.call("line", lambda: C.simulate_until_absorption(x), S_ints, x=x)
        s.call("line", lambda: C.simulate_until_absorption(n - 1), S_ints, x=n - 1)
        s.call("ltime", lambda: C.mean_time_to_absorption(), lambda v: [S_int(int(round(a))) if abs(a - round(a)) < 1e-6 else -1 for a in np.asarray(v).tolist()])
        for y in (x, n - 1):
            s.call("lper", lambda: C.period(y), S_int, x=y)
            s.call("lacc", lambda: C.accessible_states_from(y), S_set, x=y)
        s.call("ltr", lambda: C.transient_states(), S_set)
        s.end()


def chains_wide(ctx):
    """symmetric walks on a few dozen states, possibly slow ones, with no, one or two absorbing ends, in any order of states"""
    r = ctx.rng
    for _ in range(ctx.n(14, 80)):
        n = r.randint(14, 36)
        D = r.choice([2, 4, 16])
        ends = r.choice([0, 1, 2, 2])
        W = [[0] * n for _ in range(n)]
        w = r.randint(1, max(1, D // 4)) if r.random() < .5 else D // 2
        for i in range(n):
            for j in (i - 1, i + 1):
                if 0 <= j < n:
                    W[i][j] = w
            W[i][i] = D - sum(W[i])
        if ends:
            W[0] = [D] + [0] * (n - 1)
        if ends == 2:
            W[-1] = [0] * (n - 1) + [D]
        p = list(range(n))
        if r.random() < .6:
            r.shuffle(p)
        W = [[W[p[i]][p[j]] for j in range(n)] for i in range(n)]
        C = komm.MarkovChain(matrix_of(ctx, W, D), rng=np.random.default_rng(r.getrandbits(32)))
        s = ctx.session("walk", W=W, D=D)
        for op in ("visits", "time", "absprob") if ends else ("stat", "reg", "prim"):
            chain_call(ctx, s, C, W, D, op)
        for op in r.sample(["acc", "classes", "irr", "tr", "rec", "abs", "isabs", "per", "aper"], 3):
            chain_call(ctx, s, C, W, D, op)
        s.end()


def chain_paths(ctx):
    """simulation: frequencies of transitions, and the same seed gives the same path"""
    r = ctx.rng
    for _ in range(ctx.n(60, 400)):
        W, D = random_chain(ctx)
        n = len(W)
        seed = r.getrandbits(32)
        C = komm.MarkovChain(np.array(W) / D, rng=np.random.default_rng(seed))
        C2 = komm.MarkovChain((np.array(W) / D).tolist(), rng=np.random.default_rng(seed))
        s = ctx.session("paths", W=W, D=D)
        cnt = np.zeros((n, n), dtype=int)
        for _ in range(6):
            x = r.randrange(n)
            k = r.choice([1, 3, 300])
            if r.random() < .3:
                ok1, a = s.call("until", lambda: C.simulate_until_absorption(x), S_ints, timeout=20, x=x)
                ok2, b = ctx.call(lambda: C2.simulate_until_absorption(x), S_ints)[:2]
            else:
                ok1, a = s.call("sim", lambda: C.simulate(x, k), S_ints, x=x, steps=k)
                ok2, b = ctx.call(lambda: C2.simulate(initial_state=x, steps=k), S_ints)[:2]
            s.note("same", v=ok1 == ok2 and (not ok1 or np.array_equal(a, b)))
            if ok1 and len(a) <= 400 and len(a) > 2 and k == 300:
                for u, v in zip(a[:-1], a[1:]):
                    cnt[u, v] += 1
        s.note("freq", v=cnt.tolist())
        s.end()
