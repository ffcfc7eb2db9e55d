"""C19, C20, C21: binary polynomials, finite fields, rational functions, bit conversions."""
import numpy as np

import komm
from harness.drive import Malformed, S_bits_of, S_bool, S_int, S_ints, S_str

BP = komm.BinaryPolynomial
BF = komm.BinaryPolynomialFraction


def bits(v):
    v = int(v)
    return [int(b) for b in bin(v)[:1:-1]] if v else []


def S_poly(v):
    if not isinstance(v, BP):
        raise Malformed(f"{type(v).__name__} instead of BinaryPolynomial")
    return S_bits_of(v.value)


def S_elem(v):
    if type(v).__name__ != "FiniteBifieldElement":
        raise Malformed(f"{type(v).__name__} instead of a field element")
    return S_poly(v.value)


def S_frac(v):
    if not isinstance(v, BF):
        raise Malformed(f"{type(v).__name__} instead of BinaryPolynomialFraction")
    return [S_poly(v.numerator), S_poly(v.denominator)]


def S_seq(f):
    def g(v):
        return [f(x) for x in v]
    return g


def rint(ctx, nbits):
    r = ctx.rng
    k = r.randrange(9)
    if k == 0:
        return 0
    if k == 1:
        return 1
    if k == 2:
        return 1 << r.randrange(nbits)
    if k == 3:
        return (1 << r.randint(1, nbits)) - 1
    if k == 4:
        return (1 << r.randrange(1, nbits)) | 1
    return r.getrandbits(r.randint(1, nbits))


def load_poly(ctx, s, regs, d, v):
    """one of the constructors denoting the polynomial of integer v"""
    r = ctx.rng
    b = bits(v)
    k = r.randrange(8)
    pad = b + [0] * r.randrange(4)
    if k == 0:
        fn = lambda: BP(v)
    elif k == 1:
        fn = lambda: BP(BP(v))
    elif k == 2:
        fn = lambda: BP(str(v))
    elif k == 3 and v < 2**63:
        fn = lambda: BP(np.int64(v))
    elif k == 4:
        p = pad or [0]
        fn = lambda: BP.from_coefficients(p)
    elif k == 5:
        p = np.array(pad or [0], dtype=r.choice([np.int64, np.uint8, bool, np.int8]))
        fn = lambda: BP.from_coefficients(p)
    elif k == 6 and v:
        ex = [j for j, x in enumerate(b) if x]
        r.shuffle(ex)
        ex2 = r.choice([list, tuple, np.array])(ex)
        ok, raw = s.call("exps", lambda: BP.from_exponents(ex2), S_poly, x=ex, d=d + 1)
        regs[d] = raw if ok else BP(v)
        return
    else:
        p = tuple(pad or [0])
        fn = lambda: BP.from_coefficients(p)
    ok, raw = s.call("ld", fn, S_poly, x=b, d=d + 1)
    regs[d] = raw if ok else BP(v)


def poly_ops(ctx, s, regs, steps, cap, heavy=True):
    r = ctx.rng
    for _ in range(steps):
        a, b, d = r.randrange(4), r.randrange(4), r.randrange(4)
        op = r.choice(["add", "add", "sub", "neg", "mul", "mul", "mul", "rmul", "pow", "shl", "shr", "quo", "quo", "mod",
                       "mod", "mod", "recip", "comp", "gcd", "gcd", "lcm", "xgcd", "divmod", "degree", "coeffs",
                       "exponents", "eq", "eqint", "hasheq", "int", "str", "irreducible", "primitive", "evalz", "ld", "alias"])
        A, B = regs[a], regs[b]
        da, db = A.value.bit_length(), B.value.bit_length()
        args = dict(a=a + 1, b=b + 1, d=d + 1)
        dest = None
        if op in ("add", "sub", "mul", "quo", "mod"):
            if op == "mul" and da + db > cap:
                continue
            f = {"add": lambda: A + B, "sub": lambda: A - B, "mul": lambda: A * B, "quo": lambda: A // B, "mod": lambda: A % B}[op]
            dest = s.call(op, f, S_poly, **args)
        elif op == "alias":
            # the operand itself, twice
            if 2 * da > cap:
                continue
            dest = s.call("mul", lambda: A * A, S_poly, a=a + 1, b=a + 1, d=d + 1)
        elif op == "neg":
            dest = s.call(op, lambda: -A, S_poly, **args)
        elif op == "rmul":
            e = r.choice([0, 1, 2, 3, -1, -2, 17])
            dest = s.call(op, lambda: e * A, S_poly, e=e, **args)
        elif op == "pow":
            e = r.choice([-1, 0, 1, 2, 3, 4, 5, 6, 7, 9, 12])
            if max(e, 0) * da > cap:
                continue
            dest = s.call(op, lambda: A**e, S_poly, e=e, **args)
        elif op in ("shl", "shr"):
            e = r.randrange(12)
            if op == "shl" and da + e > cap:
                continue
            dest = s.call(op, (lambda: A << e) if op == "shl" else (lambda: A >> e), S_poly, e=e, **args)
        elif op == "recip":
            e = r.choice([-1, -1, da, da + r.randrange(5), r.randrange(1, 12)])
            dest = s.call(op, (lambda: A.reciprocal()) if e == -1 else (lambda: A.reciprocal(e)), S_poly, e=e, **args)
        elif op == "comp":
            if max(da, 1) * max(db, 1) > cap:
                continue
            dest = s.call(op, lambda: A.evaluate(B), S_poly, **args)
        elif op in ("gcd", "lcm"):
            k = r.choice([1, 2, 2, 2, 3, 3, 4])
            xs = [r.randrange(4) for _ in range(k)]
            ps = [regs[x] for x in xs]
            if op == "lcm" and sum(p.value.bit_length() for p in ps) > cap:
                continue
            f = (lambda: BP.gcd(*ps)) if op == "gcd" else (lambda: BP.lcm(*ps))
            dest = s.call(op, f, S_poly, xs=[x + 1 for x in xs], **args)
        elif op == "ld":
            load_poly(ctx, s, regs, d, rint(ctx, min(cap // 2, 40)))
        elif op == "xgcd":
            s.call(op, lambda: BP.xgcd(A, B), S_seq(S_poly), **args)
        elif op == "divmod":
            s.call(op, lambda: divmod(A, B), S_seq(S_poly), **args)
        elif op == "degree":
            s.call(op, lambda: A.degree, S_int, **args)
        elif op == "coeffs":
            e = r.choice([-1, 0, 1, da, da + r.randrange(6), r.randrange(20)])
            s.call(op, (lambda: A.coefficients()) if e == -1 else (lambda: A.coefficients(width=e)), S_ints, e=e, **args)
        elif op == "exponents":
            s.call(op, lambda: A.exponents(), S_ints, **args)
        elif op == "eq":
            s.call(op, lambda: A == B, S_bool, **args)
            s.call(op, lambda: not (A != B), S_bool, **args)
        elif op == "eqint":
            v = r.choice([A.value, B.value, A.value ^ 1])
            s.call(op, lambda: A == v, S_bool, x=bits(v), **args)
        elif op == "hasheq":
            s.call(op, lambda: hash(A) == hash(B), S_bool, **args)
            s.call(op, lambda: len({A, B}) == (1 if A == B else 2), S_bool, a=a + 1, b=a + 1)
        elif op == "int":
            s.call(op, lambda: int(A), S_bits_of, **args)
        elif op == "str":
            s.call(op, lambda: str(A), S_str, **args)
        elif op in ("irreducible", "primitive"):
            if da > 26:
                continue
            s.call(op, (lambda: A.is_irreducible()) if op == "irreducible" else (lambda: A.is_primitive()), S_bool, **args)
        elif op == "evalz":
            x = r.choice([-3, -2, -1, 0, 1, 2, 3, 5])
            if da > 13 and x not in (-1, 0, 1):
                continue
            s.call(op, lambda: A.evaluate(komm.Integer(x)).value, S_int, x=x, **args)
        if dest is not None:
            ok, raw = dest
            if ok:
                regs[d] = raw
    for a in range(4):
        s.call("dump", lambda: regs[a], S_poly, a=a + 1)


def poly_machine(ctx):
    for _ in range(ctx.n(1200, 12000)):
        cap = ctx.rng.choice([8, 16, 32, 64, 64, 130])
        s = ctx.session("poly", kind="poly", m=[])
        regs = [None] * 4
        for d in range(4):
            load_poly(ctx, s, regs, d, rint(ctx, min(cap // 2, 40) if ctx.rng.random() < .8 else cap))
        poly_ops(ctx, s, regs, ctx.rng.randint(4, 25), cap)
        s.end()


def poly_exhaustive(ctx):
    """every polynomial up to a degree: tests, views, and all small pairs"""
    top = ctx.n(9, 12)
    for v in range(1 << top):
        s = ctx.session("small", kind="poly", m=[])
        p = BP(v)
        s.call("ld", lambda: p, S_poly, x=bits(v), d=1)
        s.call("irreducible", lambda: p.is_irreducible(), S_bool, a=1)
        s.call("primitive", lambda: p.is_primitive(), S_bool, a=1)
        s.call("recip", lambda: p.reciprocal(), S_poly, a=1, e=-1, d=2)
        s.call("degree", lambda: p.degree, S_int, a=1)
        s.call("exponents", lambda: p.exponents(), S_ints, a=1)
        s.call("coeffs", lambda: p.coefficients(), S_ints, a=1, e=-1)
        s.end()
    w = ctx.n(4, 5)
    for x in range(1 << w):
        for y in range(1 << w):
            s = ctx.session("pair", kind="poly", m=[])
            a, b = BP(x), BP(y)
            s.call("ld", lambda: a, S_poly, x=bits(x), d=1)
            s.call("ld", lambda: b, S_poly, x=bits(y), d=2)
            s.call("mul", lambda: a * b, S_poly, a=1, b=2, d=3)
            s.call("divmod", lambda: divmod(a, b), S_seq(S_poly), a=1, b=2)
            s.call("xgcd", lambda: BP.xgcd(a, b), S_seq(S_poly), a=1, b=2)
            s.call("gcd", lambda: BP.gcd(a, b), S_poly, xs=[1, 2], d=3)
            s.call("lcm", lambda: BP.lcm(a, b), S_poly, xs=[1, 2], d=3)
            s.call("comp", lambda: a.evaluate(b), S_poly, a=1, b=2, d=3)
            s.end()


def py_mod(a, m):
    dm = m.bit_length()
    while a.bit_length() >= dm:
        a ^= m << (a.bit_length() - dm)
    return a


def py_mul(a, b):
    v = 0
    while b:
        if b & 1:
            v ^= a
        a <<= 1
        b >>= 1
    return v


def py_irred(p):
    """trial division by x^(2^k)-x gcds (driver side, only to pick interesting moduli)"""
    m = p.bit_length() - 1
    if m < 1:
        return False
    h = 2
    for k in range(1, m + 1):
        h = py_mod(py_mul(h, h), p)
        if k <= m // 2:
            a, b = p, h ^ py_mod(2, p)
            while b:
                a, b = b, py_mod(a, b)
            if a != 1:
                return False
    return h == py_mod(2, p)


def poly_tests(ctx):
    """irreducibility and primitivity at larger degrees, on irreducible, nearly irreducible and composite input"""
    r = ctx.rng
    for _ in range(ctx.n(500, 5000)):
        s = ctx.session("tests", kind="poly", m=[])
        top = 20 if r.random() < .8 else 28
        for _ in range(2):
            k = r.randrange(5)
            m = r.randint(2, top)
            if k <= 1:
                v = 0
                while not py_irred(v):
                    v = (1 << m) | r.getrandbits(m) | 1
            elif k == 2:
                # two irreducible factors of the same degree
                h = max(1, m // 2)
                f = []
                while len(f) < 2:
                    q = (1 << h) | r.getrandbits(h)
                    if py_irred(q):
                        f.append(q)
                v = py_mul(f[0], f[r.randrange(2)])
            elif k == 3:
                # irreducible but X is not a generator: divides X^e + 1 for a proper divisor e
                cands = [0b11111, 0b1001001, 0b111010111, 0b100111001, 0b1111111 + 0, 0b1011100010101 & 0, 0b11111111111, 0b1111111111111]
                v = r.choice([c for c in cands if c])
            else:
                v = rint(ctx, m + 1)
            p = BP(v)
            s.call("ld", lambda: p, S_poly, x=bits(v), d=1)
            s.call("irreducible", lambda: p.is_irreducible(), S_bool, a=1)
            s.call("primitive", lambda: p.is_primitive(), S_bool, a=1)
        s.end()


def poly_large(ctx):
    """degrees in the hundreds and thousands"""
    r = ctx.rng
    for _ in range(ctx.n(40, 300)):
        n = r.choice([100, 150, 250]) if not ctx.thorough else r.choice([100, 250, 400])
        s = ctx.session("large", kind="poly", m=[])
        x, y, g = r.getrandbits(n), r.getrandbits(n // 2), r.getrandbits(n // 4)
        a, b, g = BP(x), BP(y), BP(g)
        s.call("ld", lambda: a, S_poly, x=bits(x), d=1)
        s.call("ld", lambda: b, S_poly, x=bits(y), d=2)
        s.call("ld", lambda: g, S_poly, x=bits(g.value), d=3)
        s.call("divmod", lambda: divmod(a, b), S_seq(S_poly), a=1, b=2)
        ok, ab = s.call("mul", lambda: b * g, S_poly, a=2, b=3, d=2)
        s.call("mod", lambda: a % ab, S_poly, a=1, b=2, d=1)
        s.call("gcd", lambda: BP.gcd(ab, g), S_poly, xs=[2, 3], d=4)
        s.call("xgcd", lambda: BP.xgcd(ab, g), S_seq(S_poly), a=2, b=3)
        s.call("recip", lambda: g.reciprocal(), S_poly, a=3, e=-1, d=4)
        s.call("exponents", lambda: g.exponents(), S_ints, a=3)
        s.end()
    # very high degree: the machine terminates with a Bezout identity (checked through a small gcd chain)
    for n in ctx.n([1500], [1500, 2500]):
        s = ctx.session("huge", kind="poly", m=[])
        x, y = (1 << n) | 1, (1 << (n // 3)) | 3
        a, b = BP(x), BP(y)
        s.call("ld", lambda: a, S_poly, x=bits(x), d=1)
        s.call("ld", lambda: b, S_poly, x=bits(y), d=2)
        s.call("add", lambda: a + b, S_poly, a=1, b=2, d=3)
        s.call("degree", lambda: a.degree, S_int, a=1)
        s.call("exponents", lambda: a.exponents(), S_ints, a=1)
        u, v = BP((1 << 40) - 1), BP((1 << 27) - 3)
        s.call("ld", lambda: u, S_poly, x=bits(u.value), d=3)
        s.call("ld", lambda: v, S_poly, x=bits(v.value), d=4)
        s.call("xgcd", lambda: BP.xgcd(u, v), S_seq(S_poly), a=3, b=4)
        ok, t = s.call("mul", lambda: u * b, S_poly, a=3, b=2, d=3)
        s.end()
        # consecutive remainders of degree one less each time: the longest Euclidean chain
        f0, f1 = 1, 2
        for _ in range(n - 2):
            f0, f1 = f1, (f1 << 1) ^ f0
        s = ctx.session("chain", kind="poly", m=[])
        s.call("ld", lambda: BP(1), S_poly, x=[1], d=1)
        p, q = BP(f1), BP(f0)
        # d = 1 and s p + t q = 1 recorded through the implementation's own products
        ok, raw = s.call("ld", lambda: BP.xgcd(p, q)[0], S_poly, x=[1], d=2)
        s.call("ld", lambda: (lambda t: BP(py_mul(t[1].value, f1) ^ py_mul(t[2].value, f0)))(BP.xgcd(p, q)), S_poly, x=[1], d=3)
        s.end()


def poly_many(ctx):
    """gcd and lcm of up to ten operands with shared factors; evaluation at degrees in the hundreds"""
    r = ctx.rng
    pool = [0b10, 0b11, 0b111, 0b1011, 0b1101, 0b10011, 0b11001, 0b11111]
    for _ in range(ctx.n(80, 600)):
        s = ctx.session("many", kind="poly", m=[])
        base = r.choice([1, r.choice(pool), py_mul(r.choice(pool), r.choice(pool))])
        regs = []
        for d in range(10):
            v = base
            for f in r.sample(pool, r.choice([1, 2, 3, 3, 4])):
                v = py_mul(v, f)
            if r.random() < .04:
                v = 0
            regs.append(BP(v))
            s.call("ld", lambda: regs[d], S_poly, x=bits(v), d=d + 1)
        for _ in range(4):
            k = r.choice([3, 5, 6, 7, 8, 10])
            xs = [r.randrange(10) for _ in range(k)] if r.random() < .3 else r.sample(range(10), k)
            s.call("gcd", lambda: BP.gcd(*[regs[x] for x in xs]), S_poly, xs=[x + 1 for x in xs], a=1, b=1, d=1)
            ok, raw = s.call("ld", lambda: regs[0], S_poly, x=bits(regs[0].value), d=1)
        s.end()
    for it in range(ctx.n(14, 80)):
        n = r.choice([63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 400, 513, 600])
        f = r.choice([(1 << n) | 1, (1 << n) | r.getrandbits(n), (1 << (n + 1)) - 1, (1 << n) | (1 << (n // 2)) | r.getrandbits(4)])
        s = ctx.session("evaluations", kind="huge", m=[])
        s.call("ld", lambda: BP(f), S_poly, x=bits(f), d=1)
        for h in (0b10, 0b11, r.choice([0b100, 0b111, 0b1101, 0b10000])):
            s.call("ld", lambda: BP(h), S_poly, x=bits(h), d=2)
            s.call("comp", lambda: BP(f).evaluate(BP(h)), S_poly, a=1, b=2, d=3)
        s.end()
        if n > 260:
            continue
        m = r.choice([3, 4, 5, 8, 12] if n < 140 else [3, 4])
        p = r.choice(irreducibles(m)) if m < 12 else 0b1000001010011
        F = komm.FiniteBifield(m, p)
        s = ctx.session("evaluations", kind="field", m=bits(p))
        for x in (1, 2, r.getrandbits(m)):
            s.call("ld", lambda: F(x), S_elem, x=bits(x), d=1)
            s.call("evalp", lambda: BP(f).evaluate(F(x)), S_elem, x=bits(f), a=1, b=1, d=2)
        s.end()


def poly_huge(ctx):
    """degrees in the thousands, far beyond machine words, judged in residue fields"""
    r = ctx.rng
    for j in range(ctx.n(14, 120)):
        s = ctx.session("residues", kind="huge", m=[])
        top = r.choice([600, 1100, 2100, 4200, 5000, 9000]) if j else 9000
        n = top // 2
        mk = lambda w: r.choice([lambda: r.getrandbits(w) | 1 << (w - 1), lambda: r.getrandbits(w) | 1 << (w - 1) | 1, lambda: (1 << w) - 1, lambda: 1 << (w - 1) | r.getrandbits(8), lambda: r.getrandbits(w)])()
        x, y = mk(n + r.randrange(-90, 90)), mk(n // r.choice([1, 1, 2, 10]) + r.randrange(60))
        regs = [BP(x), BP(y), BP(1), BP(0)]
        s.call("ld", lambda: regs[0], S_poly, x=bits(x), d=1)
        s.call("ld", lambda: regs[1], S_poly, x=bits(y), d=2)
        s.call("ld", lambda: regs[2], S_poly, x=[1], d=3)
        s.call("mul", lambda: regs[1] * regs[0], S_poly, a=2, b=1, d=4)
        ok, z = s.call("mul", lambda: regs[0] * regs[1], S_poly, a=1, b=2, d=3)
        if ok:
            regs[2] = z
            s.call("degree", lambda: z.degree, S_int, a=3)
            s.call("hdivmod", lambda: divmod(z, regs[1]), S_seq(S_poly), a=3, b=2)
            ok, w = s.call("add", lambda: z + BP(y >> 7), S_poly, a=3, b=4, d=4) if False else (True, z)
            s.call("recip", lambda: z.reciprocal(), S_poly, a=3, e=-1, d=4)
            regs[3] = z.reciprocal()
            s.call("hdivmod", lambda: divmod(regs[3], regs[0]), S_seq(S_poly), a=4, b=1)
            s.call("eq", lambda: regs[3] == z, S_bool, a=4, b=3)
            s.call("exponents", lambda: z.exponents(), S_ints, a=3)
            s.call("coeffs", lambda: z.coefficients(), S_ints, a=3, e=-1)
        s.call("hdivmod", lambda: divmod(regs[0], regs[1]), S_seq(S_poly), a=1, b=2)
        e = r.choice([2, 3, 5, 7])
        small = BP(mk(max(2, top // e)))
        s.call("ld", lambda: small, S_poly, x=bits(small.value), d=4)
        s.call("pow", lambda: small**e, S_poly, a=4, e=e, d=4)
        if top <= 2100:
            g = mk(r.choice([1, 40, 200, 300]))
            u, v = py_mul(mk(top // 3), g), py_mul(mk(top // 3 + r.randrange(-50, 50)), g)
            U, V = BP(u), BP(v)
            s.call("ld", lambda: U, S_poly, x=bits(u), d=1)
            s.call("ld", lambda: V, S_poly, x=bits(v), d=2)
            if u and v:
                def run():
                    d, a, b = BP.xgcd(U, V)
                    return [d, a, b, U // d, V // d]
                s.call("hxgcd", run, S_seq(S_poly), a=1, b=2)
                ok, d0 = s.call("ld", lambda: BP.gcd(U, V), S_poly, x=bits(BP.xgcd(U, V)[0].value), d=3)
            f = mk(r.choice([20, 45]))
            h = mk(40)
            s.call("ld", lambda: BP(f), S_poly, x=bits(f), d=1)
            s.call("ld", lambda: BP(h), S_poly, x=bits(h), d=2)
            s.call("comp", lambda: BP(f).evaluate(BP(h)), S_poly, a=1, b=2, d=3)
        s.end()


def py_powmod(a, e, p):
    y = 1
    while e:
        if e & 1:
            y = py_mod(py_mul(y, a), p)
        a = py_mod(py_mul(a, a), p)
        e >>= 1
    return y


def primes_of(n):
    out, d = set(), 2
    while d * d <= n:
        while n % d == 0:
            out.add(d)
            n //= d
        d += 1
    return sorted(out | ({n} if n > 1 else set()))


def py_minpoly(beta, p):
    """minimal polynomial over GF(2) of an element of GF(2)[X]/(p)"""
    f, y = [1], beta                      # coefficients in the field, lowest first
    while True:
        g = [0] + f
        for j, x in enumerate(f):
            g[j] ^= py_mod(py_mul(x, y), p)
        f = g
        y = py_mod(py_mul(y, y), p)
        if y == beta:
            return sum(x << j for j, x in enumerate(f))


def random_irreducible(r, m):
    while True:
        v = (1 << m) | r.getrandbits(m) | 1
        if py_irred(v):
            return v


def poly_orders(ctx):
    """irreducible polynomials whose root misses exactly one prime of the group order; products of factors
    whose degrees hide from all but one of the divisors tried"""
    r = ctx.rng
    prim = {}
    for m in range(3, ctx.n(19, 25)):
        n = 2**m - 1
        p = random_irreducible(r, m)
        while any(py_powmod(2, n // q, p) == 1 for q in primes_of(n)):
            p = random_irreducible(r, m)
        s = ctx.session("orders", kind="poly", m=[])
        todo = [p]
        for q in primes_of(n):
            f = py_minpoly(py_powmod(2, q, p), p)
            todo.append(f)
        for v in todo:
            P = BP(v)
            s.call("ld", lambda: P, S_poly, x=bits(v), d=1)
            s.call("primitive", lambda: P.is_primitive(), S_bool, a=1)
            s.call("irreducible", lambda: P.is_irreducible(), S_bool, a=1)
        s.end()
    degrees = [6, 8, 9, 10, 12, 12, 12, 14, 15, 16, 18, 18, 20, 24, 28, 30, 36, 42, 60]
    for m in degrees * ctx.n(2, 8):
        s = ctx.session("hidden", kind="poly", m=[])
        for q in primes_of(m):
            e = m // q
            ds = [d for d in range(1, e + 1) if e % d == 0]
            only = [d for d in ds if all(m // o % d for o in primes_of(m) if o != q)]   # seen by this quotient alone
            for pick in [ds, ds, ds] + [only] * 2 * bool(only):
                fs, left = set(), m
                tries = 0
                while left and tries < 200:
                    tries += 1
                    if not any(d <= left for d in pick):
                        break
                    d = r.choice([d for d in pick if d <= left])
                    f = r.choice([2, 3]) if d == 1 else 7 if d == 2 else random_irreducible(r, d)
                    if f in fs and r.random() < .9:
                        continue
                    fs.add(f) if f not in fs else fs.add((f, tries))
                    left -= d
                if left:
                    continue
                v = 1
                for f in fs:
                    v = py_mul(v, f[0] if isinstance(f, tuple) else f)
                P = BP(v)
                s.call("ld", lambda: P, S_poly, x=bits(v), d=1)
                s.call("irreducible", lambda: P.is_irreducible(), S_bool, a=1)
        P = BP(random_irreducible(r, m))
        s.call("ld", lambda: P, S_poly, x=bits(P.value), d=1)
        s.call("irreducible", lambda: P.is_irreducible(), S_bool, a=1)
        s.end()


def integers(ctx):
    r = ctx.rng
    I = komm.Integer
    for _ in range(ctx.n(40, 400)):
        s = ctx.session("integers", kind="poly", m=[])
        for _ in range(12):
            x, y = r.randint(-300, 300), r.randint(-40, 40)
            f = r.choice(["add", "sub", "mul", "rmul", "neg"])
            g = {"add": lambda: I(x) + I(y), "sub": lambda: I(x) - I(y), "mul": lambda: I(x) * I(y),
                 "rmul": lambda: y * I(x), "neg": lambda: -I(x)}[f]
            s.call("intop", g, lambda v: S_int(v.value), x=x, y=y, f=f)
            s.call("intdiv", lambda: divmod(I(x), I(y)), lambda v: [S_int(v[0].value), S_int(v[1].value)], x=x, y=y)
            s.call("intdiv", lambda: (I(x) // I(y), I(x) % I(y)), lambda v: [S_int(v[0].value), S_int(v[1].value)], x=x, y=y)
        s.end()


# ---------------------------------------------------------------- fields
IRRED = {}


def irreducibles(m):
    if m not in IRRED:
        IRRED[m] = [p for p in range(1 << m, 2 << m) if py_irred(p)]
    return IRRED[m]


def field_new(ctx, m, p):
    if p is None:
        return komm.FiniteBifield(m)
    return komm.FiniteBifield(m, ctx.rng.choice([p, BP(p)]) if ctx.rng.random() < .7 else None) if False else \
        komm.FiniteBifield(m, modulus=ctx.rng.choice([p, BP(p)]))


def field_ops(ctx, s, F, m, p, steps):
    r = ctx.rng
    regs = [F(0)] * 4

    def load(d):
        v = r.choice([0, 1, 2 if m > 1 else 1, r.getrandbits(m), r.getrandbits(m), r.getrandbits(m), (1 << m) - 1])
        ok, raw = s.call("ld", (lambda: F(v)) if r.random() < .5 else (lambda: F(BP(v))), S_elem, x=bits(v), d=d + 1)
        if ok:
            regs[d] = raw
    for d in range(4):
        load(d)
    for _ in range(steps):
        a, b, d = r.randrange(4), r.randrange(4), r.randrange(4)
        A, B = regs[a], regs[b]
        op = r.choice(["add", "sub", "neg", "mul", "mul", "mul", "div", "div", "inv", "inv", "pow", "pow", "pow", "rmul", "evalp",
                       "log", "conj", "minpoly", "eq", "hasheq", "ld", "roots"])
        args = dict(a=a + 1, b=b + 1, d=d + 1)
        dest = None
        if op in ("add", "sub", "mul", "div"):
            f = {"add": lambda: A + B, "sub": lambda: A - B, "mul": lambda: A * B, "div": lambda: A / B}[op]
            dest = s.call(op, f, S_elem, **args)
        elif op == "neg":
            dest = s.call(op, lambda: -A, S_elem, **args)
        elif op == "inv":
            dest = s.call(op, lambda: A.inverse(), S_elem, **args)
        elif op == "pow":
            e = r.choice([0, 1, 2, 3, -1, -2, -3, r.randint(0, 2**m + 2), -r.randint(1, 2**m), 2**m - 1, 2**m - 2, 2**m, 1 - 2**m])
            if abs(e) >= 2**30:
                continue
            dest = s.call(op, lambda: A**e, S_elem, e=e, **args)
        elif op == "rmul":
            e = r.choice([0, 1, 2, 3, -1, -4])
            dest = s.call(op, lambda: e * A, S_elem, e=e, **args)
        elif op == "evalp":
            v = r.getrandbits(r.randint(1, 12))
            dest = s.call(op, lambda: BP(v).evaluate(A), S_elem, x=bits(v), **args)
        elif op == "log":
            if m > 7:
                continue
            s.call(op, lambda: A.logarithm(B), S_int, **args)
        elif op == "conj":
            if m <= 14:
                s.call(op, lambda: A.conjugates(), S_seq(S_elem), **args)
        elif op == "minpoly":
            if m <= 12:
                s.call(op, lambda: A.minimal_polynomial(), S_poly, **args)
        elif op == "eq":
            s.call(op, lambda: A == B, S_bool, **args)
        elif op == "hasheq":
            s.call(op, lambda: hash(A) == hash(B), S_bool, **args)
        elif op == "roots":
            if m > 5:
                continue
            try:
                from komm._algebra.FiniteBifield import find_roots
            except ImportError:   # an internal helper: nothing to check when it is gone
                continue
            if r.random() < .5:
                cs = [F(r.getrandbits(m)) for _ in range(r.randint(1, 4))] + [F(r.randint(1, 2**m - 1))]
            elif r.random() < .5:
                # few terms and many roots: X^e + t^e times a power of X
                e = r.choice([x for x in range(1, 2**m) if (2**m - 1) % x == 0] + [2**m - 1])
                cs = [F(0)] * r.randrange(2) + [F(r.randint(1, 2**m - 1))**e] + [F(0)] * (e - 1) + [F(r.choice([1, 1, r.randint(1, 2**m - 1)]))]
            else:
                # a product of linear factors, repeated or not
                cs = [F(r.randint(1, 2**m - 1))]
                for _ in range(r.randint(1, min(8, 2**m))):
                    t = F(r.getrandbits(m))
                    cs = [(cs[j - 1] if j else F(0)) + (cs[j] * t if j < len(cs) else F(0)) for j in range(len(cs) + 1)]
            s.call(op, lambda: find_roots(F, cs), S_seq(S_elem), x=[bits(c.value.value) for c in cs], all=True)
        elif op == "ld":
            load(d)
        if dest is not None and dest[0]:
            regs[d] = dest[1]
    for a in range(4):
        s.call("dump", lambda: regs[a], S_elem, a=a + 1)


def field_info(ctx, s, F, p):
    s.call("modulus", lambda: F.modulus, S_poly)
    s.call("order", lambda: F.order, S_bits_of)
    s.call("char", lambda: F.characteristic, S_int)
    s.call("zero", lambda: F.zero, S_elem)
    s.call("one", lambda: F.one, S_elem)


def field_machine(ctx):
    r = ctx.rng
    for _ in range(ctx.n(900, 9000)):
        m = r.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 10, 12])
        if r.random() < .3:
            p, F = None, komm.FiniteBifield(m)
            p = F.modulus.value
        else:
            p = r.choice(irreducibles(m))
            F = field_new(ctx, m, p)
        s = ctx.session("field", kind="field", m=bits(p))
        field_info(ctx, s, F, p)
        field_ops(ctx, s, F, m, p, r.randint(5, 20))
        # another field of the same degree: equality of fields, refusal to mix
        q = r.choice(irreducibles(m) + [p])
        G = komm.FiniteBifield(m, q)
        s.call("fieldeq", lambda: F == G, S_bool, x=bits(q))
        if p == q:
            s.call("ld", lambda: F(1) + G(1), S_elem, x=[], d=1)
        else:
            f = r.choice([lambda: F(1) + G(1), lambda: F(1) * G(1), lambda: F(1) - G(1), lambda: F(1) / G(1)])
            s.call("mixed", f, S_elem)
        s.end()


def field_tables(ctx):
    """whole multiplication/inverse tables of small fields, every modulus"""
    for m in ctx.n([1, 2, 3, 4], [1, 2, 3, 4, 5, 6]):
        for p in irreducibles(m):
            F = komm.FiniteBifield(m, p)
            for x in range(1 << m):
                s = ctx.session("table", kind="field", m=bits(p))
                A = F(x)
                s.call("ld", lambda: A, S_elem, x=bits(x), d=1)
                s.call("inv", lambda: A.inverse(), S_elem, a=1, d=4)
                s.call("conj", lambda: A.conjugates(), S_seq(S_elem), a=1)
                s.call("minpoly", lambda: A.minimal_polynomial(), S_poly, a=1)
                s.call("pow", lambda: A**(2**m - 1), S_elem, a=1, e=2**m - 1, d=4)
                s.call("pow", lambda: A**-2, S_elem, a=1, e=-2, d=4)
                for y in range(1 << m):
                    B = F(y)
                    s.call("ld", lambda: B, S_elem, x=bits(y), d=2)
                    s.call("mul", lambda: A * B, S_elem, a=1, b=2, d=3)
                    s.call("div", lambda: A / B, S_elem, a=1, b=2, d=3)
                    s.call("log", lambda: A.logarithm(B), S_int, a=1, b=2)
                s.end()
    # invalid moduli are refused, defaults are primitive
    for m in range(1, 25):
        s = ctx.session("defaults", kind="poly", m=[])
        s.call("defaultmod", lambda: komm.FiniteBifield(m).modulus, S_poly, x=m)
        s.end()
    for m in range(1, ctx.n(6, 9)):
        s = ctx.session("moduli", kind="poly", m=[])
        good = set(irreducibles(m))
        for v in range(4 << m):
            if v in good:
                s.call("ld", lambda: komm.FiniteBifield(m, v).modulus, S_poly, x=bits(v), d=1)
            else:
                s.call("badnew", lambda: komm.FiniteBifield(m, v), lambda x: 0)
        s.end()
    s = ctx.session("moduli", kind="poly", m=[])
    for v in (0, -1, -3):
        s.call("badnew", lambda: komm.FiniteBifield(v), lambda x: 0)
        s.call("badnew", lambda: komm.FiniteBifield(v, 1), lambda x: 0)
    s.end()


def field_large(ctx):
    r = ctx.rng
    for _ in range(ctx.n(30, 200)):
        m = r.choice([16, 20, 24, 32, 33, 61, 64, 65, 80])
        p = 0
        while not py_irred(p):
            p = (1 << m) | r.getrandbits(r.choice([8, m - 1])) | 1
        F = komm.FiniteBifield(m, p)
        s = ctx.session("fieldlarge", kind="field", m=bits(p))
        x, y = r.getrandbits(m), r.getrandbits(m) | 1
        a, b = F(x), F(y)
        field_info(ctx, s, F, p)
        s.call("ld", lambda: a, S_elem, x=bits(x), d=1)
        s.call("ld", lambda: b, S_elem, x=bits(y), d=2)
        s.call("mul", lambda: a * b, S_elem, a=1, b=2, d=3)
        s.call("div", lambda: a / b, S_elem, a=1, b=2, d=3)
        s.call("inv", lambda: b.inverse(), S_elem, a=2, d=3)
        s.call("pow", lambda: b**-3, S_elem, a=2, e=-3, d=3)
        s.call("pow", lambda: b**77, S_elem, a=2, e=77, d=3)
        s.end()
    # orbits of squaring and logarithms where whole tables are out of reach
    for m in list(range(8, 25)) + [30, 32, 36, 48, 61, 64]:
        for _ in range(ctx.n(1, 5)):
            if m <= 24 and r.random() < .5:
                F = komm.FiniteBifield(m)
                p = F.modulus.value
            else:
                p = random_irreducible(r, m)
                F = komm.FiniteBifield(m, p)
            s = ctx.session("orbits", kind="field", m=bits(p))
            n = 2**m - 1
            subs = [n // (2**d - 1) for d in range(1, m) if m % d == 0]
            xs = [2, r.getrandbits(m) or 1, py_powmod(r.getrandbits(m) | 1, r.choice(subs), p)]
            for x in xs:
                a = F(x)
                s.call("ld", lambda: a, S_elem, x=bits(x), d=1)
                s.call("conj", lambda: a.conjugates(), S_seq(S_elem), a=1)
                s.call("minpoly", lambda: a.minimal_polynomial(), S_poly, a=1)
                s.call("inv", lambda: a.inverse(), S_elem, a=1, d=3)
            if m <= 11:
                e = r.randrange(2**m)
                g = r.choice([2, xs[1]])
                y, G = F(py_powmod(g, e, p)), F(g)
                s.call("ld", lambda: y, S_elem, x=bits(y.value.value), d=1)
                s.call("ld", lambda: G, S_elem, x=bits(g), d=2)
                s.call("log", lambda: y.logarithm(G), S_int, a=1, b=2)
            s.end()


def fractions(ctx):
    r = ctx.rng
    for _ in range(ctx.n(900, 8000)):
        s = ctx.session("frac", kind="frac", m=[])
        regs = [BF(0)] * 4
        cap = r.choice([10, 20, 40])

        def load(d):
            n, q = rint(ctx, cap // 3), rint(ctx, cap // 3)
            k = r.randrange(5)
            if k == 0:
                ok, raw = s.call("ld", lambda: BF(n), S_frac, x=[bits(n), [1]], d=d + 1)
            elif k == 1:
                ok, raw = s.call("ld", lambda: BF(BP(n), BP(q)), S_frac, x=[bits(n), bits(q)], d=d + 1)
            elif k == 2:
                g = rint(ctx, 5)
                n2, q2 = py_mul(n, g), py_mul(q, g)
                ok, raw = s.call("ld", lambda: BF(n2, q2), S_frac, x=[bits(n2), bits(q2)], d=d + 1)
            else:
                ok, raw = s.call("ld", lambda: BF(n, q), S_frac, x=[bits(n), bits(q)], d=d + 1)
            if ok:
                regs[d] = raw
        for d in range(4):
            load(d)
        s.call("zero", lambda: BF(1).ambient.zero, S_frac)
        s.call("one", lambda: BF(1).ambient.one, S_frac)
        for _ in range(r.randint(4, 14)):
            a, b, d = r.randrange(4), r.randrange(4), r.randrange(4)
            A, B = regs[a], regs[b]
            args = dict(a=a + 1, b=b + 1, d=d + 1)
            size = lambda x: x.numerator.value.bit_length() + x.denominator.value.bit_length()
            op = r.choice(["add", "sub", "mul", "div", "inv", "neg", "rmul", "pow", "evalp", "eq", "eq", "ld"])
            dest = None
            if op in ("add", "sub", "mul", "div"):
                if size(A) + size(B) > 3 * cap:
                    op, d = "ld", (a if size(A) > size(B) else b)
                else:
                    f = {"add": lambda: A + B, "sub": lambda: A - B, "mul": lambda: A * B, "div": lambda: A / B}[op]
                    dest = s.call(op, f, S_frac, **args)
            elif op == "inv":
                dest = s.call(op, lambda: A.inverse(), S_frac, **args)
            elif op == "neg":
                dest = s.call(op, lambda: -A, S_frac, **args)
            elif op == "rmul":
                e = r.choice([0, 1, 2, 3, -1, -2])
                dest = s.call(op, lambda: e * A, S_frac, e=e, **args)
            elif op == "pow":
                e = r.choice([-3, -2, -1, 0, 1, 2, 3, 5])
                if abs(e) * size(A) <= 3 * cap:
                    dest = s.call(op, lambda: A**e, S_frac, e=e, **args)
            elif op == "evalp":
                v = r.getrandbits(4)
                if size(A) <= cap:
                    dest = s.call(op, lambda: BP(v).evaluate(A), S_frac, x=bits(v), **args)
            elif op == "eq":
                s.call(op, lambda: A == B, S_bool, **args)
            if op == "ld":
                load(d)
            if dest is not None and dest[0]:
                regs[d] = dest[1]
        for a in range(4):
            s.call("dump", lambda: regs[a], S_frac, a=a + 1)
        s.end()


# ---------------------------------------------------------------- bit conversions
def S_intnd(v):
    """integers of any size and shape, as digit sequences"""
    if isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_)):
        return {"shape": [], "d": [S_bits_of(v)]}
    if not isinstance(v, np.ndarray):
        raise Malformed(f"{type(v).__name__} instead of integer or array")
    return {"shape": list(v.shape), "d": [S_bits_of(x) for x in v.ravel().tolist()]}


def S_bitnd(v):
    if not isinstance(v, np.ndarray):
        raise Malformed(f"{type(v).__name__} instead of array")
    return {"shape": list(v.shape), "d": [S_int(x) for x in v.ravel().tolist()]}


SHAPES = [(), (), (1,), (3,), (5,), (0,), (2, 3), (1, 1), (3, 1, 2), (2, 0), (2, 2, 2, 2), (4, 1)]


def int_array(ctx, vals, shape):
    """the same integers in various containers and layouts"""
    r = ctx.rng
    top = max(vals, default=0)
    if shape == ():
        v = vals[0]
        opts = [lambda: v]
        if v < 2**63:
            opts += [lambda: np.int64(v), lambda: np.array(v)]
        if v < 2**8:
            opts += [lambda: np.uint8(v)]
        if v < 2**64:
            opts += [lambda: np.uint64(v)]
        return r.choice(opts)()
    a = np.array(vals, dtype=object).reshape(shape)
    opts = [lambda: a, lambda: a.tolist()] if a.size else [lambda: np.zeros(shape, dtype=int)]
    for dt, lim in ((np.int64, 63), (np.uint8, 8), (np.int8, 7), (np.uint16, 16), (np.int32, 31), (np.uint64, 64)):
        if top < 2**lim:
            opts.append(lambda dt=dt: a.astype(dt))
            opts.append(lambda dt=dt: np.asfortranarray(a.astype(dt)))
            if a.ndim >= 1 and a.size:
                opts.append(lambda dt=dt: np.repeat(a.astype(dt), 2, axis=-1)[..., ::2])
    return r.choice(opts)()


def bit_array(ctx, flat, shape):
    r = ctx.rng
    a = np.array(flat, dtype=int).reshape(shape)
    opts = [lambda: a, lambda: a.astype(bool), lambda: a.astype(np.uint8), lambda: a.astype(np.int8), lambda: np.asfortranarray(a)]
    if a.size:
        opts += [lambda: a.tolist(), lambda: tuple(map(tuple, a)) if a.ndim == 2 else a.tolist(),
                 lambda: np.repeat(a, 2, axis=-1)[..., ::2], lambda: np.flip(np.flip(a, -1).copy(), -1)]
    return r.choice(opts)()


def bit_conversions(ctx):
    r = ctx.rng
    for _ in range(ctx.n(1500, 12000)):
        s = ctx.session("bits")
        shape = r.choice(SHAPES)
        n = int(np.prod(shape, dtype=int))
        w = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 70, 100, 128, 130]) if r.random() < .9 else r.choice([0, 200, 300, 255, 256, 257, 511, 512, 513])
        if r.random() < .02:      # widths in the thousands
            w = r.choice([1000, 1023, 1024, 1025, 1026, 1033, 1041, 2047, 2048, 2049, 4096, 4097]) + r.choice([0, 0, 1, 8])
        order = r.choice(["LSB-first", "MSB-first"])
        kw = {} if order == "LSB-first" and r.random() < .5 else {"bit_order": order}
        def val():
            k = r.randrange(6)
            if w == 0:
                return 0
            return [0, (1 << w) - 1, 1 << (w - 1), r.getrandbits(w), r.getrandbits(w), r.getrandbits(r.randint(1, w))][k]
        vals = [val() for _ in range(n)]
        if r.random() < .15:
            vals = [v << r.randrange(5) | r.getrandbits(2) for v in vals]      # does not fit: low bits are printed
            fits = False
        else:
            fits = True
        X = {"shape": list(shape), "d": [bits(v) for v in vals]}
        inp = int_array(ctx, vals, shape)
        ok, raw = s.call("i2b", lambda: komm.int_to_bits(inp, w, **kw), S_bitnd, x=X, w=w, order=order)
        if ok and (w > 0 or shape != ()):
            if fits:
                s.call("rt", lambda: komm.bits_to_int(raw, **kw), S_intnd, x=X)
        if w > 0:
            flat = [int(b) for b in np.array([[r.randrange(2) for _ in range(w)] for _ in range(n)]).ravel()] if n else []
            if r.random() < .3 and n:
                # one word with the top bit, the rest small
                flat = [0] * (n * w)
                for a in range(n):
                    flat[a * w + r.randrange(w)] = 1
            bshape = tuple(shape) + (w,)
            binp = bit_array(ctx, flat, bshape)
            keep = np.array(binp, copy=True)
            Y = {"shape": list(bshape), "d": flat}
            ok, raw = s.call("b2i", lambda: komm.bits_to_int(binp, **kw), S_intnd, x=Y, order=order)
            if ok:
                s.call("rt", lambda: komm.int_to_bits(raw, w, **kw), S_bitnd, x=Y)
            s.note("same", v=bool(np.array_equal(keep, np.array(binp))))
        if r.random() < .05:
            s.call("bad", lambda: komm.bits_to_int([1, 0, 1], bit_order="lsb"), lambda v: 0)
            s.call("bad", lambda: komm.int_to_bits(5, 3, bit_order="MSB"), lambda v: 0)
            s.call("bad", lambda: komm.int_to_bits([5, 6], 3, bit_order="MSB"), lambda v: 0)
            s.call("bad", lambda: komm.bits_to_int([[1, 0, 1]], bit_order=""), lambda v: 0)
        s.end()


def bit_exhaustive(ctx):
    """every integer at every small width, alone and as one array"""
    for w in range(1, ctx.n(8, 11)):
        for order in ("LSB-first", "MSB-first"):
            s = ctx.session("small")
            vals = list(range(1 << w))
            X = {"shape": [1 << w], "d": [bits(v) for v in vals]}
            ok, raw = s.call("i2b", lambda: komm.int_to_bits(range(1 << w), width=w, bit_order=order), S_bitnd, x=X, w=w, order=order)
            s.call("rt", lambda: komm.bits_to_int(raw, order), S_intnd, x=X)
            for v in vals:
                b = [v >> j & 1 for j in range(w)]
                s.call("b2i", lambda: komm.bits_to_int(b, bit_order=order), S_intnd, x={"shape": [w], "d": b}, order=order)
                s.call("i2b", lambda: komm.int_to_bits(v, w, order), S_bitnd, x={"shape": [], "d": [bits(v)]}, w=w, order=order)
            s.end()
