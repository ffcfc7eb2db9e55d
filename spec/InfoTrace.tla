------------------------------ MODULE InfoTrace ------------------------------
(* Values are recorded in Q20; "b" is the base as a pair num/den ("e" is       *)
(* recorded as the convergent 271801/99990, off by one part in 10^9).          *)
EXTENDS Info, TraceKit
VARIABLES c, i
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
INF == 2000000000
NAN == 2000000001
Tol == 48
LogBase(b) == Log2(b[1]) - Log2(b[2])
(* v, in base b, is the quantity that is h in bits: v * log2(b) = h *)
IsVal(v, b, h, tol) == LET L == LogBase(b) a == Abs(v) l == Abs(L) IN
    /\ v # INF /\ v # -INF /\ v # NAN
    /\ (a <= 64 * ONE)
    /\ IF L = ONE THEN Abs(v - h) <= tol
       ELSE Abs(Mul20(v, L) - h) <= tol + ((3 * a) \div ONE) + (l \div ONE)
Exp20(k) == IF k > 30 THEN 0 ELSE IF k >= 20 THEN (IF k = 20 THEN 1 ELSE 0) ELSE 2^(20 - k)
(* laws with probabilities 2^-a: sum 2^-a (b - a) *)
RECURSIVE ExpSum(_, _, _)
ExpSum(a, b, k) == IF k = 0 THEN 0 ELSE (b[k] - a[k]) * Exp20(a[k]) + ExpSum(a, b, k - 1)
BinRows(k, w, D) == CASE k = "bsc" -> << <<D - w, w>>, <<w, D - w>> >>
                      [] k = "bec" -> << <<D - w, 0, w>>, <<0, D - w, w>> >>
                      [] k = "z" -> << <<D, 0>>, <<w, D - w>> >>
MOf(e) == IF e.k = "dmc" THEN e.M ELSE BinRows(e.k, e.w, e.D)
(* A capacity between what the witness input law p achieves and the bound the *)
(* witness output law q gives; slack: the iterative algorithm stops after 1000 *)
(* steps, when it is within log(inputs)/1000 of the capacity.                  *)
CapOK(e) == LET M == MOf(e) D == e.D
                lo == Mutual(e.p, e.K, M, D) hi == UpperBound(e.q, e.F, M, D)
                slack == IF e.k = "dmc" THEN (Log2(Len(M)) \div 1000) ELSE 0
                L == LogBase(e.b)
                v == IF L = ONE THEN e.v ELSE Mul20(e.v, L) IN
    /\ e.v # INF /\ e.v # NAN /\ Abs(e.v) <= 64 * ONE
    /\ v >= lo - slack - Tol /\ v <= hi + Tol
(* x is recorded in units of 2^-15; the binary entropy increases on [0, 1/2] *)
HinvOK(x, h) == /\ x >= 0 /\ x <= 16384
                /\ (x > 0 => BinEntropy(x - 1, 32768) <= h + Tol)
                /\ (x < 16384 => h <= BinEntropy(x + 1, 32768) + Tol)
Bad(e) ==
    CASE e.op = "bad" -> Viol("invalid-accepted", Refused(e))
      [] ~e.ok -> {"raised"}
      [] e.op = "H" -> Viol("entropy", IsVal(e.v, e.b, Entropy(e.W, e.D), Tol))
      [] e.op = "Hb" -> Viol("binary-entropy", IsVal(e.v, <<2, 1>>, BinEntropy(e.w, e.D), Tol))
      [] e.op = "Hinv" -> Viol("binary-entropy-inverse", HinvOK(e.v, MulDiv(e.h, ONE, e.hd)))
      [] e.op = "Hround" -> Viol("binary-entropy-inverse", Abs(e.v - MulDiv(e.h, ONE, e.hd)) <= Tol)
      [] e.op = "KL" -> IF AbsCont(e.W, e.V) THEN Viol("relative-entropy", IsVal(e.v, e.b, Divergence(e.W, e.D, e.V, e.F), Tol))
                        ELSE Viol("infinite-divergence", e.v = (IF LogBase(e.b) > 0 THEN INF ELSE -INF))
      [] e.op = "KLx" -> Viol("relative-entropy", Abs(e.v - ExpSum(e.a, e.bx, Len(e.a))) <= 2000)
      [] e.op = "Hx" -> Viol("entropy", Abs(e.v - ExpSum(e.a, [k \in 1..Len(e.a) |-> 2 * e.a[k]], Len(e.a))) <= 2000)
      (* 2^t times the entropy of (2^-t, 1 - 2^-t): t + log2(e) up to O(2^-t); past double precision the second term may be missing *)
      [] e.op = "Hs" -> Viol("entropy", e.v >= (e.t * ONE) + (IF e.t <= 48 THEN 1512775 - 48 ELSE -48) /\ e.v <= (e.t * ONE) + 1512775 + 48)
      [] e.op = "Hz" -> Viol("entropy", Abs(e.v - (e.t * ONE)) <= 48)
      [] e.op = "KLinf" -> Viol("infinite-divergence", e.v = INF)
      [] e.op = "MI" -> Viol("mutual-information", IsVal(e.v, e.b, Mutual(e.p, e.K, MOf(e), e.D), 2 * Tol))
      [] e.op = "C" -> Viol("capacity", CapOK(e))
Init == c \in 1..Len(Cases) /\ i = 0
Next == /\ i < Len(Ev)
        /\ LET bad == Bad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ (i + 1 = Len(Ev)) => Accept(c)
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
