----------------------------- MODULE SignalTrace -----------------------------
(* A session is a processing chain: the specification keeps the current array *)
(* and applies each operation to it; the implementation's output is compared, *)
(* and is what the next operation was given.                                  *)
EXTENDS Signal, TraceKit
VARIABLES c, i, x
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
A(e) == Ax(x.shape, e.ax)
Apply(e) == CASE e.op = "compress" -> Compress(x, A(e), e.f, e.off)
              [] e.op = "expand" -> Expand(x, A(e), e.f, e.off)
              [] e.op = "conv" -> Convolve(x, A(e), e.h, e.mode)
              [] OTHER -> x
AbsI(v) == IF v < 0 THEN -v ELSE v
(* spectrum in units 1/1000, time step a/b; frequencies in millionths *)
FtOK(e) == LET y == Dft(x, A(e), e.n) tol == (e.a * Weight1(x)) + (e.b * 20) IN
    /\ e.v.shape = y.shape /\ Len(e.v.d) = Len(y.d)
    /\ \A k \in 1..Len(y.d) : \A t \in 1..2 : AbsI(e.v.d[k][t] * e.b * 20 - e.a * y.d[k][t]) <= tol
    /\ Len(e.v.f) = e.n
    /\ \A k \in 1..e.n : AbsI(e.v.f[k] * e.n * e.a - 1000000 * ((k - 1) - (e.n \div 2)) * e.b) <= e.n * e.a
(* sparse signals: entries <<position, value, scale>>, at most one product per position of the output *)
Sparse(e) == {<<a[1] + b[1] - ConvOff(e.n, e.m, e.mode), a[2] * b[2], a[3] + b[3]>> : a \in {e.x[j] : j \in 1..Len(e.x)}, b \in {e.h[j] : j \in 1..Len(e.h)}}
Inside(e) == {t \in Sparse(e) : t[1] >= 0 /\ t[1] < ConvLen(e.n, e.m, e.mode)}
SparseOK(e) == /\ e.len = ConvLen(e.n, e.m, e.mode) /\ Len(e.v) = Cardinality(Inside(e)) /\ {e.v[j] : j \in 1..Len(e.v)} = Inside(e)
(* an impulse of height e.w at e.p, e.n points (a power of two), time step e.a/e.b: magnitudes and phases in units of 1/n turn *)
ImpulseOK(e) == /\ Len(e.v.d) = Len(e.k) /\ e.v.len = e.n
    /\ \A j \in 1..Len(e.k) : /\ e.v.d[j][1] = (1000 * e.w * e.a) \div e.b
                               /\ e.v.d[j][2] = (-((e.k[j] - (e.n \div 2)) % e.n) * e.p) % e.n
                               /\ AbsI(e.v.f[j] - ((e.k[j] - (e.n \div 2)) * e.b)) <= 0
Bad(e) ==
    CASE e.op = "bad" -> Viol("invalid-accepted", Refused(e))
      [] ~e.ok -> {"raised"}
      [] e.op \in {"compress", "expand", "conv"} ->
            LET y == Apply(e) IN
            Viol("input-modified", e.unmod)
            \cup (IF e.v.shape # y.shape THEN {"shape"} ELSE Viol("samples", e.v.d = y.d))
            \cup Viol("element-type", e.op = "conv" \/ e.same)
      [] e.op = "sconv" -> Viol("samples", SparseOK(e))
      [] e.op = "ift" -> Viol("spectrum", ImpulseOK(e))
      [] e.op = "ft" -> Viol("input-modified", e.unmod) \cup Viol("spectrum", FtOK(e))
Init == c \in 1..Len(Cases) /\ i = 0 /\ x = Cases[c].x
Next == /\ i < Len(Ev)
        /\ LET bad == Bad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ (i + 1 = Len(Ev)) => Accept(c)
        /\ i' = i + 1 /\ UNCHANGED c
        /\ x' = IF E.op \in {"bad", "ft"} THEN x ELSE Apply(E)
=============================================================================
