-------------------------------- MODULE Poly --------------------------------
(* The Euclidean ring GF(2)[X] and what is built on it.  Polynomials are     *)
(* coefficient sequences without leading zeros (index j: X^(j-1)); zero is   *)
(* the empty sequence.                                                       *)
EXTENDS Gf2, TLC

T1(p) == TLCEval(p)
PZ == <<>>
P1 == <<1>>
PX == <<0, 1>>
RECURSIVE PowS(_, _)
PowS(p, e) == IF e = 0 THEN P1
              ELSE LET h == T1(PowS(p, e \div 2)) q == T1(MulS(h, h)) IN IF e % 2 = 1 THEN T1(MulS(q, p)) ELSE q
RECURSIVE GcdS(_, _)
GcdS(a, b) == IF b = PZ THEN a ELSE GcdS(b, T1(ModS(a, b)))
LcmS(a, b) == IF a = PZ \/ b = PZ THEN PZ ELSE QuoS(MulS(a, b), GcdS(a, b))
RECURSIVE GcdAll(_), LcmAll(_), ProdAll(_)
GcdAll(ps) == IF Len(ps) = 1 THEN ps[1] ELSE GcdAll(<<T1(GcdS(ps[1], ps[2]))>> \o SubSeq(ps, 3, Len(ps)))
LcmAll(ps) == IF Len(ps) = 1 THEN ps[1] ELSE LcmAll(<<T1(LcmS(ps[1], ps[2]))>> \o SubSeq(ps, 3, Len(ps)))
ProdAll(ps) == IF Len(ps) = 1 THEN ps[1] ELSE ProdAll(<<T1(MulS(ps[1], ps[2]))>> \o SubSeq(ps, 3, Len(ps)))
RevS(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
(* composition p(q) *)
RECURSIVE CompAux(_, _, _, _)
CompAux(p, q, j, acc) == IF j = 0 THEN acc ELSE CompAux(p, q, j - 1, T1(AddS(MulS(acc, q), IF p[j] = 1 THEN P1 ELSE PZ)))
CompS(p, q) == CompAux(p, q, Len(p), PZ)
(* value at an integer *)
RECURSIVE EvalZAux(_, _, _, _)
EvalZAux(p, x, j, acc) == IF j = 0 THEN acc ELSE EvalZAux(p, x, j - 1, acc * x + p[j])
EvalZ(p, x) == EvalZAux(p, x, Len(p), 0)

(* ---- arithmetic modulo m ---- *)
MulM(a, b, m) == T1(ModS(MulS(a, b), m))
RECURSIVE PowM(_, _, _)
PowM(a, e, m) == IF e = 0 THEN ModS(P1, m)
                 ELSE LET h == T1(PowM(a, e \div 2, m)) q == T1(MulM(h, h, m)) IN IF e % 2 = 1 THEN T1(MulM(q, a, m)) ELSE q
RECURSIVE SqrM(_, _, _)
SqrM(a, t, m) == IF t = 0 THEN a ELSE SqrM(MulM(a, a, m), t - 1, m)      \* a^(2^t)
RECURSIVE EvalMAux(_, _, _, _, _)
EvalMAux(f, a, m, j, acc) == IF j = 0 THEN acc
                             ELSE EvalMAux(f, a, m, j - 1, T1(AddS(MulM(acc, a, m), IF f[j] = 1 THEN ModS(P1, m) ELSE PZ)))
EvalM(f, a, m) == EvalMAux(f, a, m, Len(f), PZ)                        \* f(a) in GF(2)[X]/(m)
RECURSIVE ConjAux(_, _, _)
ConjAux(a, m, acc) == IF \E j \in 1..Len(acc) : acc[j] = a THEN acc ELSE ConjAux(MulM(a, a, m), m, Append(acc, a))
Conjugates(a, m) == ConjAux(a, m, <<>>)                                  \* a, a^2, a^4, ...
RECURSIVE LogAux(_, _, _, _, _)
LogAux(y, a, base, m, e) == IF y = a THEN e
                            ELSE IF e > 0 /\ y = P1 THEN -1
                            ELSE IF e > 0 /\ y = PZ THEN -1
                            ELSE LogAux(MulM(y, base, m), a, base, m, e + 1)
LogM(a, base, m) == LogAux(P1, a, base, m, 0)                            \* least e with base^e = a, or -1

(* ---- irreducibility and primitivity ---- *)
(* by definition: no polynomial of smaller positive degree divides p *)
Divisors(p) == {q \in UNION {[1..l -> {0, 1}] : l \in 2..(((Len(p) - 1) \div 2) + 1)} : q[Len(q)] = 1 /\ ModS(p, q) = PZ}
IrreducibleDef(p) == Len(p) >= 2 /\ Divisors(p) = {}
IsPrimeN(n) == n > 1 /\ \A d \in 2..(n - 1) : d * d > n \/ n % d # 0
PrimeDivs(n) == {q \in 2..n : n % q = 0 /\ IsPrimeN(q)}
(* Rabin's criterion, for degrees where the definition is too expensive *)
IrreducibleRabin(p) == LET m == Len(p) - 1 IN
    /\ m >= 1
    /\ SqrM(ModS(PX, p), m, p) = ModS(PX, p)
    /\ \A q \in PrimeDivs(m) : GcdS(p, AddS(SqrM(ModS(PX, p), m \div q, p), ModS(PX, p))) = P1
Irreducible(p) == IF Len(p) <= 7 THEN IrreducibleDef(p) ELSE IrreducibleRabin(p)
(* X generates the multiplicative group *)
RECURSIVE OrdAux(_, _, _)
OrdAux(y, m, e) == IF y = P1 THEN e ELSE OrdAux(T1(ModS(ShiftS(y, 1), m)), m, e + 1)
OrderX(m) == OrdAux(ModS(PX, m), m, 1)
RECURSIVE LeastFactor(_, _)
LeastFactor(n, d) == IF d * d > n THEN n ELSE IF n % d = 0 THEN d ELSE LeastFactor(n, d + 1)
RECURSIVE FactorSet(_)
FactorSet(n) == IF n = 1 THEN {} ELSE LET d == LeastFactor(n, 2) IN {d} \cup FactorSet(n \div d)
Primitive(p) == /\ Irreducible(p) /\ p # PX
                /\ LET nn == Pow(2, Len(p) - 1) - 1 IN
                   \A q \in FactorSet(nn) : PowM(ModS(PX, p), nn \div q, p) # P1

(* ---- residues of long polynomials, packed ---- *)
SX == INSTANCE SequencesExt
Moduli == <<8219, 16417, 32771>>      \* irreducible, of degrees 13, 14, 15 (MC_Euclid)
ResG(cs, g, x30) == SX!FoldLeft(LAMBDA acc, w : FMul(acc, x30, g) ^^ ModP(w, g), 0, RevS(cs))
Res(f, t) == LET cs == TLCEval(PackC(f)) g == Moduli[t] x == TLCEval(FPow(2, 30, g)) IN ResG(cs, g, x)   \* 30 coefficients at a time
MulR(x, y, t) == FMul(x, y, Moduli[t])

(* ---- rational functions: pairs <<n, d>>, d # 0 ---- *)
FracOK(v) == v[2] # PZ /\ GcdS(v[1], v[2]) = P1
FracEq(x, y) == MulS(x[1], y[2]) = MulS(y[1], x[2])
FAdd(x, y) == <<AddS(MulS(x[1], y[2]), MulS(y[1], x[2])), MulS(x[2], y[2])>>
FracMul(x, y) == <<MulS(x[1], y[1]), MulS(x[2], y[2])>>
FInv(x) == <<x[2], x[1]>>
FPowN(x, e) == IF e >= 0 THEN <<PowS(x[1], e), PowS(x[2], e)>> ELSE <<PowS(x[2], -e), PowS(x[1], -e)>>
RECURSIVE FEvalAux(_, _, _, _)
FEvalAux(p, x, j, acc) == IF j = 0 THEN acc
                          ELSE LET y == FracMul(acc, x) IN FEvalAux(p, x, j - 1, T1(IF p[j] = 1 THEN FAdd(y, <<P1, P1>>) ELSE y))
Reduce(x) == LET g == T1(GcdS(x[1], x[2])) IN <<QuoS(x[1], g), QuoS(x[2], g)>>
FEval(p, x) == FEvalAux(p, x, Len(p), <<PZ, P1>>)
=============================================================================
