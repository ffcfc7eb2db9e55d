------------------------------- MODULE SeqLib -------------------------------
(* Binary and complex sequences, their correlations and their generators.    *)
(* Complex numbers with integer parts are pairs <<re, im>>.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Polar(b) == [j \in 1..Len(b) |-> 1 - 2 * b[j]]
Cx(r) == [j \in 1..Len(r) |-> <<r[j], 0>>]
(* x * conj(y) *)
MulC(x, y) == <<x[1] * y[1] + x[2] * y[2], x[2] * y[1] - x[1] * y[2]>>
AddC(x, y) == <<x[1] + y[1], x[2] + y[2]>>
RECURSIVE ACAux(_, _, _, _)
ACAux(x, l, n, acc) == IF n > Len(x) THEN acc
    ELSE ACAux(x, l, n + 1, IF n - l \in 1..Len(x) THEN AddC(acc, MulC(x[n], x[n - l])) ELSE acc)
AutoCorr(x, l) == IF Abs(l) >= Len(x) THEN <<0, 0>> ELSE ACAux(x, l, 1, <<0, 0>>)
RECURSIVE CCAux(_, _, _, _)
CCAux(x, l, n, acc) == IF n > Len(x) THEN acc
    ELSE CCAux(x, l, n + 1, AddC(acc, MulC(x[n], x[((n - 1 - l) % Len(x)) + 1])))
CycCorr(x, l) == CCAux(x, l % Len(x), 1, <<0, 0>>)
(* the same for plain integers (fast path for polar sequences) *)
RECURSIVE CRAux(_, _, _, _, _)
CRAux(x, y, l, n, acc) == IF n > Len(x) THEN acc
    ELSE CRAux(x, y, l, n + 1, acc + x[n] * y[((n - 1 - l) % Len(x)) + 1])
CrossR(x, y, l) == CRAux(x, y, l, 1, 0)
RECURSIVE ARAux(_, _, _, _)
ARAux(x, l, n, acc) == IF n > Len(x) THEN acc
    ELSE ARAux(x, l, n + 1, IF n - l \in 1..Len(x) THEN acc + x[n] * x[n - l] ELSE acc)
AutoR(x, l) == IF Abs(l) >= Len(x) THEN 0 ELSE ARAux(x, l, 1, 0)
(* ---- run-length form: <<value, length>>; correlations by overlapping runs   *)
RECURSIVE RunEnd(_, _)
RunEnd(q, j) == IF j = 0 THEN 0 ELSE q[j][2] + RunEnd(q, j - 1)
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Overlap(a0, a1, b0, b1) == MaxI(0, MinI(a1, b1) - MaxI(a0, b0))
RECURSIVE RunAux(_, _, _, _, _)
RunAux(q, l, a, b, acc) == IF a > Len(q) THEN acc
    ELSE IF b > Len(q) THEN RunAux(q, l, a + 1, 1, acc)
    ELSE LET o == Overlap(RunEnd(q, a - 1), RunEnd(q, a), RunEnd(q, b - 1) + l, RunEnd(q, b) + l)
             m == MulC(q[a][1], q[b][1]) IN RunAux(q, l, a, b + 1, AddC(acc, <<o * m[1], o * m[2]>>))
RunAuto(q, l) == RunAux(q, l, 1, 1, <<0, 0>>)
RunCyc(q, l) == LET L == RunEnd(q, Len(q)) k == l % L IN AddC(RunAuto(q, k), RunAuto(q, k - L))
(* ---- shift registers: p[t] (t in 1..n) is the coefficient of X^t, p0 = 1;  *)
(* r[j] is bit j; bit n is the output, the new bit enters at bit 1            *)
RECURSIVE XorTaps(_, _, _, _)
XorTaps(p, r, t, acc) == IF t > Len(p) THEN acc ELSE XorTaps(p, r, t + 1, (acc + p[t] * r[t]) % 2)
ShiftReg(p, r) == <<XorTaps(p, r, 1, 0)>> \o SubSeq(r, 1, Len(r) - 1)
Out(r) == r[Len(r)]
(* the recurrence of p: s[t + n] = sum over taps of s[t + n - tap] *)
RECURSIVE XorBack(_, _, _, _, _)
XorBack(p, s, m, t, acc) == IF t > Len(p) THEN acc ELSE XorBack(p, s, m, t + 1, (acc + p[t] * s[m - t]) % 2)
Recurs(p, s) == \A m \in (Len(p) + 1)..Len(s) : s[m] = XorBack(p, s, m, 1, 0)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
LfsrOK(p, r0, s) == LET n == Len(p) L == Pow2(n) - 1 IN
    /\ Len(s) = L
    /\ \A j \in 1..n : j <= L => s[j] = r0[n + 1 - j]
    /\ Recurs(p, s)
(* residues of X^e modulo the polynomial with taps p, as registers of n bits  *)
(* (least power first)                                                       *)
MulX(p, a) == LET n == Len(p) top == a[n] IN
    [j \in 1..n |-> IF j = 1 THEN top ELSE (a[j - 1] + top * p[j - 1]) % 2]
RECURSIVE MulPAux(_, _, _, _, _)
MulPAux(p, a, b, j, acc) == IF j > Len(p) THEN acc
    ELSE MulPAux(p, TLCEval(MulX(p, a)), b, j + 1, IF b[j] = 1 THEN TLCEval([k \in 1..Len(p) |-> (acc[k] + a[k]) % 2]) ELSE acc)
MulP(p, a, b) == MulPAux(p, a, b, 1, [k \in 1..Len(p) |-> 0])
OneP(p) == [k \in 1..Len(p) |-> IF k = 1 THEN 1 ELSE 0]
RECURSIVE PowP(_, _, _)
PowP(p, a, e) == IF e = 0 THEN OneP(p) ELSE IF e % 2 = 1 THEN MulP(p, a, PowP(p, a, e - 1)) ELSE PowP(p, TLCEval(MulP(p, a, a)), e \div 2)
RECURSIVE PrimesAux(_, _, _)
PrimesAux(n, d, acc) == IF n = 1 THEN acc ELSE IF d * d > n THEN acc \cup {n}
    ELSE IF n % d = 0 THEN PrimesAux(n \div d, d, acc \cup {d}) ELSE PrimesAux(n, d + 1, acc)
Primes(n) == PrimesAux(n, 2, {})
Primitive(p) == LET n == Len(p) N == Pow2(n) - 1 x == MulX(p, OneP(p)) IN
    /\ p[n] = 1
    /\ PowP(p, x, N) = OneP(p)
    /\ \A f \in Primes(N) : N > 1 => PowP(p, x, N \div f) # OneP(p)
(* ---- Walsh-Hadamard *)
RECURSIVE BitDot(_, _)
BitDot(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE ((a % 2) * (b % 2) + BitDot(a \div 2, b \div 2)) % 2
HRow(L, k) == [j \in 1..L |-> 1 - 2 * BitDot(k, j - 1)]
SignChanges(s) == Cardinality({j \in 1..(Len(s) - 1) : s[j] # s[j + 1]})
RECURSIVE XorN(_, _)
XorN(a, b) == IF a = 0 /\ b = 0 THEN 0 ELSE ((a + b) % 2) + 2 * XorN(a \div 2, b \div 2)
RECURSIVE RevBits(_, _, _)
RevBits(k, w, acc) == IF w = 0 THEN acc ELSE RevBits(k \div 2, w - 1, 2 * acc + (k % 2))
RECURSIVE Width(_)
Width(L) == IF L = 1 THEN 0 ELSE 1 + Width(L \div 2)
SeqIdx(L, k) == RevBits(XorN(k, k \div 2), Width(L), 0)
SeqRow(L, k) == HRow(L, SeqIdx(L, k))
Barker(L) == CASE L = 2 -> <<0, 1>> [] L = 3 -> <<0, 0, 1>> [] L = 4 -> <<0, 0, 1, 0>> [] L = 5 -> <<0, 0, 0, 1, 0>>
               [] L = 7 -> <<0, 0, 0, 1, 1, 0, 1>> [] L = 11 -> <<0, 0, 0, 1, 1, 1, 0, 1, 1, 0, 1>>
               [] L = 13 -> <<0, 0, 0, 0, 0, 1, 1, 0, 0, 1, 0, 1, 0>>
(* ---- Zadoff-Chu: phases in units of one L-th of a turn *)
Tri(n, L) == LET m == n % (2 * L) IN ((m * (m + 1)) \div 2) % L
ZcPhase(L, q, n) == ((-(q % L)) * Tri(n, L)) % L
(* the same for 0 <= n < L, with smaller intermediate numbers (equality checked by MC_Sequences) *)
ZcPhaseAt(L, q, n) == ((-(q % L)) * (((n * (n + 1)) \div 2) % L)) % L
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
(* cyclic autocorrelation: L times a root of unity, or zero *)
ZcPeak(L, q, l) == (q * (l % L)) % L = 0
ZcCorrPhase(L, q, l0) == LET l == l0 % L IN (q * ((((l - 1) * l) \div 2) % L)) % L
=============================================================================
