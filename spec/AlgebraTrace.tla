---------------------------- MODULE AlgebraTrace ----------------------------
(* A register machine over GF(2)[X] (kind "poly"), over GF(2)[X]/(m) (kind   *)
(* "field") or over the rational functions (kind "frac").  The state is the  *)
(* register file as the specification computes it; every event is one        *)
(* operation of the implementation on its own register file, with the        *)
(* observed result.  The final dumps compare the two files.                  *)
EXTENDS Poly, TraceKit
VARIABLES c, i, regs
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
A(e) == regs[e.a]
B(e) == regs[e.b]
Args(e) == [j \in 1..Len(e.xs) |-> regs[e.xs[j]]]
M == S.m
MaxOf(xs) == CHOOSE x \in Range(xs) : \A y \in Range(xs) : y <= x
ShrS(p, s) == IF s >= Len(p) THEN PZ ELSE SubSeq(p, s + 1, Len(p))
OfExps(xs) == Trim([j \in 1..(IF xs = <<>> THEN 0 ELSE MaxOf(xs) + 1) |-> IF \E t \in 1..Len(xs) : xs[t] = j - 1 THEN 1 ELSE 0])
Recip(p, w) == IF w = -1 THEN Trim(RevS(p)) ELSE Trim(RevS(PadS(p, w)))
ExpsOf(p) == SelectSeq([j \in 1..Len(p) |-> j - 1], LAMBDA t : p[t + 1] = 1)
RECURSIVE BinStr(_, _)
BinStr(p, j) == IF j = 0 THEN "" ELSE (IF p[j] = 1 THEN "1" ELSE "0") \o BinStr(p, j - 1)
StrOf(p) == "0b" \o (IF p = PZ THEN "0" ELSE BinStr(p, Len(p)))

(* ---- polynomials too long to multiply here: identities are checked in three residue fields, degrees exactly ---- *)
HugeOp(e, v) == \* v : the observed value, a trimmed sequence
    CASE e.op = "mul" -> (IF A(e) = PZ \/ B(e) = PZ THEN v = PZ ELSE Len(v) = Len(A(e)) + Len(B(e)) - 1)
                         /\ \A t \in 1..3 : Res(v, t) = MulR(Res(A(e), t), Res(B(e), t), t)
      [] e.op = "pow" -> Len(v) = (IF A(e) = PZ THEN (IF e.e = 0 THEN 1 ELSE 0) ELSE (Len(A(e)) - 1) * e.e + 1)
                         /\ \A t \in 1..3 : Res(v, t) = FPow(Res(A(e), t), e.e, Moduli[t])
      [] e.op = "comp" -> Len(v) = (IF A(e) = PZ THEN 0 ELSE (Len(A(e)) - 1) * (Len(B(e)) - 1) + 1)
                         /\ \A t \in 1..3 : Res(v, t) = EvalF(A(e), Res(B(e), t), Moduli[t])
HugeDivBad(e) ==
    LET q == Trim(e.v[1]) r == Trim(e.v[2]) a == A(e) b == B(e) IN
    Viol("divmod", /\ q = e.v[1] /\ r = e.v[2] /\ Len(r) < Len(b)
                   /\ Len(q) = (IF Len(a) < Len(b) THEN 0 ELSE Len(a) - Len(b) + 1)
                   /\ \A t \in 1..3 : (MulR(Res(q, t), Res(b, t), t) ^^ Res(r, t)) = Res(a, t))
(* e.v: d, s, t and the quotients of both operands by d; e.r their remainders *)
HugeXgcdBad(e) ==
    LET R(j, t) == Res(e.v[j], t) IN
    Viol("xgcd", Len(e.v) = 5 /\ \A t \in 1..3 : MulR(R(1, t), R(4, t), t) = Res(A(e), t) /\ MulR(R(1, t), R(5, t), t) = Res(B(e), t))
    \cup Viol("bezout", Len(e.v[2]) <= Len(B(e)) /\ Len(e.v[3]) <= Len(A(e))
                        /\ \A t \in 1..3 : (MulR(R(2, t), Res(A(e), t), t) ^^ MulR(R(3, t), Res(B(e), t), t)) = R(1, t))

(* ---- operations whose result goes to a register: <<defined?, value>> ---- *)
PolyOp(e) ==
    CASE e.op = "ld" -> <<TRUE, Trim(e.x)>>
      [] e.op = "exps" -> <<TRUE, OfExps(e.x)>>
      [] e.op \in {"add", "sub"} -> <<TRUE, AddS(A(e), B(e))>>
      [] e.op = "neg" -> <<TRUE, A(e)>>
      [] e.op = "mul" -> <<TRUE, MulS(A(e), B(e))>>
      [] e.op = "rmul" -> <<TRUE, IF e.e % 2 = 1 THEN A(e) ELSE PZ>>
      [] e.op = "pow" -> <<e.e >= 0, IF e.e >= 0 THEN PowS(A(e), e.e) ELSE PZ>>
      [] e.op = "shl" -> <<TRUE, ShiftS(A(e), e.e)>>
      [] e.op = "shr" -> <<TRUE, ShrS(A(e), e.e)>>
      [] e.op = "quo" -> <<B(e) # PZ, IF B(e) = PZ THEN PZ ELSE QuoS(A(e), B(e))>>
      [] e.op = "mod" -> <<B(e) # PZ, IF B(e) = PZ THEN PZ ELSE ModS(A(e), B(e))>>
      [] e.op = "recip" -> <<TRUE, Recip(A(e), e.e)>>
      [] e.op = "comp" -> <<TRUE, CompS(A(e), B(e))>>
      [] e.op = "gcd" -> <<TRUE, GcdAll(Args(e))>>
      [] e.op = "lcm" -> <<TRUE, LcmAll(Args(e))>>
FieldOp(e) ==
    CASE e.op = "ld" -> <<TRUE, Trim(e.x)>>
      [] e.op \in {"add", "sub"} -> <<TRUE, AddS(A(e), B(e))>>
      [] e.op = "neg" -> <<TRUE, A(e)>>
      [] e.op = "mul" -> <<TRUE, MulM(A(e), B(e), M)>>
      [] e.op = "rmul" -> <<TRUE, IF e.e % 2 = 1 THEN A(e) ELSE PZ>>
      [] e.op = "pow" -> <<e.e >= 0 \/ A(e) # PZ, IF e.e >= 0 THEN PowM(A(e), e.e, M) ELSE PZ>>
      [] e.op = "evalp" -> <<TRUE, EvalM(e.x, A(e), M)>>
FracOp(e) ==
    CASE e.op = "ld" -> <<Trim(e.x[2]) # PZ, IF Trim(e.x[2]) = PZ THEN <<PZ, P1>> ELSE <<Trim(e.x[1]), Trim(e.x[2])>> >>
      [] e.op \in {"add", "sub"} -> <<TRUE, FAdd(A(e), B(e))>>
      [] e.op = "neg" -> <<TRUE, A(e)>>
      [] e.op = "mul" -> <<TRUE, FracMul(A(e), B(e))>>
      [] e.op = "div" -> <<B(e)[1] # PZ, IF B(e)[1] = PZ THEN <<PZ, P1>> ELSE FracMul(A(e), FInv(B(e)))>>
      [] e.op = "inv" -> <<A(e)[1] # PZ, IF A(e)[1] = PZ THEN <<PZ, P1>> ELSE FInv(A(e))>>
      [] e.op = "rmul" -> <<TRUE, IF e.e % 2 = 1 THEN A(e) ELSE <<PZ, P1>> >>
      [] e.op = "pow" -> <<e.e >= 0 \/ A(e)[1] # PZ, IF e.e < 0 /\ A(e)[1] = PZ THEN <<PZ, P1>> ELSE FPowN(A(e), e.e)>>
      [] e.op = "evalp" -> <<TRUE, FEval(e.x, A(e))>>

(* ---- field division: checked through the product it must satisfy ---- *)
DivBad(e, num, den) ==
    IF den = PZ THEN Viol("division-by-zero-accepted", Refused(e))
    ELSE IF ~e.ok THEN {"raised"}
    ELSE Viol("quotient", Len(e.v) < Len(M) /\ MulM(Trim(e.v), den, M) = num)
NegPowBad(e) == IF ~e.ok THEN {"raised"}
                ELSE Viol("negative-power", Len(e.v) < Len(M) /\ MulM(Trim(e.v), PowM(A(e), -e.e, M), M) = P1)

(* polynomials with coefficients in the field, by Horner *)
FieldElems == {Trim(p) : p \in [1..(Len(M) - 1) -> {0, 1}]}
RECURSIVE EvalF2Aux(_, _, _, _)
EvalF2Aux(f, y, j, acc) == IF j = 0 THEN acc ELSE EvalF2Aux(f, y, j - 1, T1(AddS(MulM(acc, y, M), f[j])))
EvalF2(f, y) == EvalF2Aux(f, y, Len(f), PZ)

QueryBad(e) ==
    CASE e.op = "badnew" -> Viol("invalid-accepted", Refused(e))
      [] e.op = "mixed" -> Viol("mixed-fields-accepted", Refused(e))
      [] e.op = "negshift" -> Viol("invalid-accepted", Refused(e))
      [] e.op = "log" -> LET l == LogM(A(e), B(e), M) IN
                         IF l = -1 THEN Viol("logarithm-of-non-power", Refused(e))
                         ELSE IF ~e.ok THEN {"raised"} ELSE Viol("logarithm", e.v = l)
      [] e.op = "hdivmod" -> IF ~e.ok THEN {"raised"} ELSE HugeDivBad(e)
      [] e.op = "hxgcd" -> IF ~e.ok THEN {"raised"} ELSE HugeXgcdBad(e)
      [] e.op = "divmod" -> IF B(e) = PZ THEN Viol("division-by-zero-accepted", Refused(e))
                            ELSE IF ~e.ok THEN {"raised"} ELSE Viol("divmod", e.v = DivModS(A(e), B(e)))
      [] e.op = "intdiv" -> IF e.y = 0 THEN Viol("division-by-zero-accepted", Refused(e))
                            ELSE IF ~e.ok THEN {"raised"}
                            ELSE Viol("integer-division", e.v[1] * e.y + e.v[2] = e.x /\ (IF e.y > 0 THEN e.v[2] \in 0..(e.y - 1) ELSE e.v[2] \in (e.y + 1)..0))
      [] ~e.ok -> {"raised"}
      [] e.op = "dump" -> Viol("register-changed", e.v = regs[e.a])
      [] e.op = "degree" -> Viol("degree", e.v = Len(A(e)) - 1)
      [] e.op = "coeffs" -> Viol("coefficients", e.v = (IF e.e = -1 THEN (IF A(e) = PZ THEN <<0>> ELSE A(e)) ELSE PadS(A(e), e.e)))
      [] e.op = "exponents" -> Viol("exponents", e.v = ExpsOf(A(e)))
      [] e.op = "eq" -> Viol("equality", e.v = (IF S.kind = "frac" THEN FracEq(A(e), B(e)) ELSE A(e) = B(e)))
      [] e.op = "eqint" -> Viol("equality", e.v = (A(e) = Trim(e.x)))
      [] e.op = "hasheq" -> Viol("hash", A(e) = B(e) => e.v)
      [] e.op = "int" -> Viol("integer-value", e.v = A(e))
      [] e.op = "str" -> Viol("string", e.v = StrOf(A(e)))
      [] e.op = "irreducible" -> Viol("irreducible", e.v = Irreducible(A(e)))
      [] e.op = "primitive" -> Viol("primitive", e.v = Primitive(A(e)))
      [] e.op = "evalz" -> Viol("evaluation", e.v = EvalZ(A(e), e.x))
      [] e.op = "xgcd" -> LET d == GcdS(A(e), B(e)) IN
                          Viol("xgcd", e.v[1] = d) \cup Viol("bezout", AddS(MulS(e.v[2], A(e)), MulS(e.v[3], B(e))) = d)
      [] e.op = "intop" -> Viol("integer-ring", e.v = (CASE e.f = "add" -> e.x + e.y [] e.f = "sub" -> e.x - e.y
                                                          [] e.f = "mul" -> e.x * e.y [] e.f = "rmul" -> e.x * e.y [] e.f = "neg" -> - e.x
                                                          [] e.f = "pow" -> Pow(e.x, e.y)))
      \* ---- fields ----
      [] e.op = "modulus" -> Viol("modulus", e.v = M)
      [] e.op = "defaultmod" -> Viol("default-modulus", Len(e.v) = e.x + 1 /\ Primitive(e.v))
      [] e.op = "order" -> Viol("order", e.v = Mono(Len(M) - 1))
      [] e.op = "char" -> Viol("characteristic", e.v = 2)
      [] e.op = "zero" -> Viol("zero", e.v = (IF S.kind = "frac" THEN <<PZ, P1>> ELSE PZ))
      [] e.op = "one" -> Viol("one", e.v = (IF S.kind = "frac" THEN <<P1, P1>> ELSE P1))
      [] e.op = "fieldeq" -> Viol("field-equality", e.v = (M = e.x))
      [] e.op = "conj" -> Viol("conjugates", e.v = Conjugates(A(e), M))
      [] e.op = "minpoly" -> Viol("minimal-polynomial", /\ EvalM(e.v, A(e), M) = PZ
                                                        /\ e.v # PZ /\ Len(e.v) - 1 = Len(Conjugates(A(e), M)))
      [] e.op = "roots" -> Viol("roots", /\ \A j \in 1..Len(e.v) : EvalF2(e.x, e.v[j]) = PZ
                                         /\ Cardinality(Range(e.v)) = Len(e.v)
                                         /\ e.all => Len(e.v) = Cardinality({y \in FieldElems : EvalF2(e.x, y) = PZ}))

IsReg(e) == e.op \in {"ld", "exps", "add", "sub", "neg", "mul", "rmul", "pow", "shl", "shr", "quo", "mod", "recip", "comp", "gcd", "lcm", "div", "inv", "evalp"}
Expect(e) == CASE S.kind \in {"poly", "huge"} -> PolyOp(e) [] S.kind = "field" -> FieldOp(e) [] S.kind = "frac" -> FracOp(e)
Solved(e) == S.kind = "field" /\ (e.op \in {"div", "inv"} \/ (e.op = "pow" /\ e.e < 0 /\ A(e) # PZ))
SolvedBad(e) == CASE e.op = "div" -> DivBad(e, A(e), B(e))
                  [] e.op = "inv" -> DivBad(e, P1, A(e))
                  [] e.op = "pow" -> NegPowBad(e)
ValueBad(e, w) ==
    IF S.kind = "frac" THEN Viol("value", FracEq(e.v, w)) \cup Viol("not-lowest-terms", FracOK(e.v))
    ELSE IF e.v = w THEN {}
    ELSE IF e.op = "lcm" /\ Len(e.xs) # 2 /\ e.v = QuoS(ProdAll(Args(e)), GcdAll(Args(e))) THEN {"lcm-is-product-over-gcd"}
    ELSE {"value"}

Init == c \in 1..Len(Cases) /\ i = 0 /\ regs = (IF Cases[c].kind = "frac" THEN [j \in 1..10 |-> <<PZ, P1>>] ELSE [j \in 1..10 |-> PZ])
Step(bad, new) == /\ bad # {} => Reject(c, i + 1, bad)
                  /\ (i + 1 = Len(Ev)) => Accept(c)
                  /\ i' = i + 1 /\ c' = c /\ regs' = new
(* a solved value is unique in a field, so the observed one is the true one when accepted *)
Next == /\ i < Len(Ev)
        /\ IF S.kind = "huge" /\ E.op \in {"mul", "pow", "comp"} THEN
                (IF ~E.ok THEN Step({"raised"}, regs)
                 ELSE LET v == T1(Trim(E.v)) bad == Viol("value", v = E.v /\ HugeOp(E, v)) IN Step(bad, IF bad = {} THEN [regs EXCEPT ![E.d] = v] ELSE regs))
           ELSE IF Solved(E) THEN LET bad == SolvedBad(E) IN
                             Step(bad, IF E.ok /\ bad = {} THEN [regs EXCEPT ![E.d] = Trim(E.v)] ELSE regs)
           ELSE IF IsReg(E) THEN
                LET w == T1(Expect(E)) IN
                IF ~ w[1] THEN Step(Viol("invalid-accepted", Refused(E)), regs)
                ELSE IF ~E.ok THEN Step({"raised"}, regs)
                ELSE LET bad == ValueBad(E, w[2]) IN
                     Step(bad, IF bad = {} THEN [regs EXCEPT ![E.d] = IF S.kind = "frac" THEN T1(Reduce(w[2])) ELSE w[2]]
                               ELSE IF bad = {"lcm-is-product-over-gcd"} THEN [regs EXCEPT ![E.d] = E.v]
                               ELSE regs)
           ELSE Step(QueryBad(E), regs)
=============================================================================
