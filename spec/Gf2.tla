-------------------------------- MODULE Gf2 --------------------------------
(* Polynomials over GF(2), in two representations: coefficient sequences of  *)
(* any length (index j is the coefficient of X^(j-1)) and integers (packed,  *)
(* for degrees below 31).  Finite-field elements are packed polynomials.     *)
EXTENDS LinearCode, TLC

(* ---- coefficient sequences ---- *)
RECURSIVE TrimAux(_, _)
TrimAux(p, l) == IF l = 0 THEN <<>> ELSE IF p[l] = 1 THEN SubSeq(p, 1, l) ELSE TrimAux(p, l - 1)
Trim(p) == TrimAux(p, Len(p))                 \* canonical form: no leading zeros
DegS(p) == Len(Trim(p)) - 1                   \* degree, -1 for zero
At0(p, j) == IF j >= 1 /\ j <= Len(p) THEN p[j] ELSE 0
MaxI(a, b) == IF a > b THEN a ELSE b
AddS(p, q) == Trim([j \in 1..MaxI(Len(p), Len(q)) |-> (At0(p, j) + At0(q, j)) % 2])
ShiftS(p, s) == IF p = <<>> THEN <<>> ELSE [j \in 1..(Len(p) + s) |-> At0(p, j - s)]
RECURSIVE ConvAux(_, _, _, _, _, _)
ConvAux(p, q, j, a, hi, acc) == IF a > hi THEN acc % 2 ELSE ConvAux(p, q, j, a + 1, hi, IF p[a] = 1 THEN acc + q[j - a + 1] ELSE acc)
MinI(a, b) == IF a < b THEN a ELSE b
MulS(p, q) == IF p = <<>> \/ q = <<>> THEN <<>>
              ELSE Trim([j \in 1..(Len(p) + Len(q) - 1) |-> ConvAux(p, q, j, MaxI(1, j - Len(q) + 1), MinI(Len(p), j), 0)])
(* remainder and quotient by schoolbook division; g trimmed and nonzero *)
RECURSIVE DivAux(_, _, _)
DivAux(r, g, quo) == LET d == Len(r) - Len(g) IN
    IF d < 0 THEN <<quo, r>>
    ELSE DivAux(TLCEval(TrimAux([j \in 1..(Len(r) - 1) |-> IF j > d THEN (r[j] + g[j - d]) % 2 ELSE r[j]], Len(r) - 1)), g,
                TLCEval(IF quo = <<>> THEN [j \in 1..(d + 1) |-> IF j = d + 1 THEN 1 ELSE 0] ELSE [quo EXCEPT ![d + 1] = 1]))
DivModS(p, g) == DivAux(Trim(p), Trim(g), <<>>)
ModS(p, g) == DivModS(p, g)[2]
QuoS(p, g) == DivModS(p, g)[1]
PadS(p, w) == [j \in 1..w |-> At0(p, j)]
Mono(d) == [j \in 1..(d + 1) |-> IF j = d + 1 THEN 1 ELSE 0]
XnPlus1(nn) == [j \in 1..(nn + 1) |-> IF j = 1 \/ j = nn + 1 THEN 1 ELSE 0]

(* ---- packed ---- *)
RECURSIVE DegP(_)
DegP(x) == IF x = 0 THEN -1 ELSE 1 + DegP(x \div 2)
RECURSIVE MulPAux(_, _, _)
MulPAux(a, b, acc) == IF b = 0 THEN acc ELSE MulPAux(2 * a, b \div 2, IF b % 2 = 1 THEN acc ^^ a ELSE acc)
MulP(a, b) == MulPAux(a, b, 0)
RECURSIVE ModPAux(_, _, _, _)
ModPAux(r, g, dg, d) == IF d < dg THEN r
                        ELSE ModPAux(IF (r \div Pow(2, d)) % 2 = 1 THEN r ^^ (g * Pow(2, d - dg)) ELSE r, g, dg, d - 1)
ModP(r, g) == ModPAux(r, g, DegP(g), DegP(r))
FMul(a, b, p) == ModP(MulP(a, b), p)          \* product in GF(2)[X]/(p)
RECURSIVE FPow(_, _, _)
FPow(a, e, p) == IF e = 0 THEN ModP(1, p)
                 ELSE IF e % 2 = 1 THEN FMul(a, FPow(a, e - 1, p), p)
                 ELSE LET h == FPow(a, e \div 2, p) IN FMul(h, h, p)
(* value of the polynomial with coefficient sequence f at the field element a *)
RECURSIVE EvalAux(_, _, _, _, _)
EvalAux(f, a, p, j, acc) == IF j = 0 THEN acc ELSE EvalAux(f, a, p, j - 1, FMul(acc, a, p) ^^ f[j])
EvalF(f, a, p) == EvalAux(f, a, p, Len(f), 0)
RECURSIVE OrderAux(_, _, _, _)
OrderAux(a, p, y, e) == IF y = 1 THEN e ELSE OrderAux(a, p, FMul(y, a, p), e + 1)
OrderF(a, p) == OrderAux(a, p, a, 1)          \* multiplicative order of a # 0
RECURSIVE CycloAux(_, _, _)
CycloAux(x, nn, acc) == IF x \in acc THEN acc ELSE CycloAux((2 * x) % nn, nn, acc \cup {x})
Cyclotomic(x, nn) == CycloAux(x % nn, nn, {})
=============================================================================
