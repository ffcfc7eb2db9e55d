------------------------------- MODULE Euclid -------------------------------
(* The extended Euclidean algorithm as a machine, the ring axioms, and the   *)
(* field GF(2)[X]/(m) as a machine stepping through the powers of X.         *)
EXTENDS Poly
CONSTANTS MaxLen, FieldLen
VARIABLES phase, a, b, r0, s0, t0, r1, s1, t1, pw, seen
vars == <<phase, a, b, r0, s0, t0, r1, s1, t1, pw, seen>>

Polys(L) == {<<>>} \cup {p \in UNION {[1..l -> {0, 1}] : l \in 1..L} : p[Len(p)] = 1}
EuclidInit == /\ phase = "euclid" /\ a \in Polys(MaxLen) /\ b \in Polys(MaxLen)
              /\ r0 = a /\ s0 = P1 /\ t0 = PZ /\ r1 = b /\ s1 = PZ /\ t1 = P1
              /\ pw = <<>> /\ seen = 0
FieldInit == /\ phase = "field" /\ a \in {p \in Polys(FieldLen) : IrreducibleDef(p)} /\ b = <<>>
             /\ r0 = <<>> /\ s0 = <<>> /\ t0 = <<>> /\ r1 = <<>> /\ s1 = <<>> /\ t1 = <<>>
             /\ pw = ModS(PX, a) /\ seen = 1
Init == EuclidInit \/ FieldInit
Divide == /\ phase = "euclid" /\ r1 # PZ
          /\ LET q == QuoS(r0, r1) IN
             /\ r0' = r1 /\ s0' = s1 /\ t0' = t1
             /\ r1' = AddS(r0, MulS(q, r1)) /\ s1' = AddS(s0, MulS(q, s1)) /\ t1' = AddS(t0, MulS(q, t1))
          /\ UNCHANGED <<phase, a, b, pw, seen>>
Power == /\ phase = "field" /\ pw # P1 /\ pw # PZ /\ seen <= Pow(2, Len(a))
         /\ pw' = ModS(ShiftS(pw, 1), a) /\ seen' = seen + 1
         /\ UNCHANGED <<phase, a, b, r0, s0, t0, r1, s1, t1>>
Next == Divide \/ Power
Spec == Init /\ [][Next]_vars

Divides(d, p) == IF d = PZ THEN p = PZ ELSE ModS(p, d) = PZ
Bezout == phase = "euclid" => /\ r0 = AddS(MulS(s0, a), MulS(t0, b))
                              /\ r1 = AddS(MulS(s1, a), MulS(t1, b))
CommonDivisors == phase = "euclid" =>
    \A d \in Polys(3) : (Divides(d, a) /\ Divides(d, b)) <=> (Divides(d, r0) /\ Divides(d, r1))
AtEnd == (phase = "euclid" /\ r1 = PZ) =>
    /\ r0 = GcdS(a, b) /\ GcdS(a, b) = GcdS(b, a) /\ GcdAll(<<a, b, a>>) = r0
    /\ (a # PZ /\ b # PZ) => /\ MulS(LcmS(a, b), r0) = MulS(a, b)
                                 /\ Divides(a, LcmS(a, b)) /\ Divides(b, LcmS(a, b))
    /\ Divides(r0, a) /\ Divides(r0, b)
Ring == (phase = "euclid" /\ r0 = a /\ r1 = b) =>
    /\ MulS(a, b) = MulS(b, a) /\ AddS(a, b) = AddS(b, a) /\ AddS(a, a) = PZ
    /\ MulS(AddS(a, b), b) = AddS(MulS(a, b), MulS(b, b))
    /\ b # PZ => /\ AddS(MulS(QuoS(a, b), b), ModS(a, b)) = a /\ DegS(ModS(a, b)) < DegS(b)
    /\ CompS(a, PX) = a /\ CompS(a, P1) = ModS(a, <<1, 1>>)
    /\ PowS(a, 3) = MulS(a, MulS(a, a))
    /\ RevS(RevS(a)) = a
    /\ \A t \in 1..3 : LET c == MulS(PowS(a, 3), ShiftS(PowS(b, 2), 7)) IN
           /\ Res(c, t) = MulR(FPow(Res(a, t), 3, Moduli[t]), MulR(FPow(2, 7, Moduli[t]), FPow(Res(b, t), 2, Moduli[t]), t), t)
           /\ Res(CompS(a, ShiftS(b, 5)), t) = EvalF(a, Res(ShiftS(b, 5), t), Moduli[t])
           /\ \A j \in 1..3 : j # t => Res(Trim(Unpack(Moduli[j], 17)), t) # 0
Rabin == (phase = "euclid" /\ b = PZ /\ Len(a) >= 2) => (IrreducibleDef(a) <=> IrreducibleRabin(a))
(* powers of X: their number is the order; it is 2^m - 1 exactly for primitive moduli *)
Orders == (phase = "field" /\ pw = P1) =>
    /\ (Pow(2, Len(a) - 1) - 1) % seen = 0
    /\ Primitive(a) <=> (seen = Pow(2, Len(a) - 1) - 1)
    /\ seen = OrderX(a)
FieldAxioms == (phase = "field" /\ pw # PZ) =>
    /\ LET inv == PowM(pw, Pow(2, Len(a) - 1) - 2, a) IN MulM(pw, inv, a) = P1
    /\ SqrM(pw, Len(a) - 1, a) = pw
    /\ LET cj == Conjugates(pw, a) IN
       /\ (Len(a) - 1) % Len(cj) = 0
       \* the minimal polynomial is the unique irreducible polynomial vanishing at pw
       /\ Cardinality({f \in Polys(Len(a)) : IrreducibleDef(f) /\ EvalM(f, pw, a) = PZ}) = 1
       /\ \A f \in Polys(Len(a)) : (IrreducibleDef(f) /\ EvalM(f, pw, a) = PZ) => Len(f) - 1 = Len(cj)
    /\ LogM(pw, PX, a) = (IF pw = P1 THEN 0 ELSE seen) \/ Len(a) = 2
=============================================================================
