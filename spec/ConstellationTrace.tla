------------------------- MODULE ConstellationTrace -------------------------
EXTENDS Constellations, TraceKit
VARIABLES c, i, P
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
Exact == S.exact
Tol == IF Exact THEN 0 ELSE 2
NearPt(p, q) == Len(p) = Len(q) /\ \A j \in 1..Len(p) : Abs(p[j] - q[j]) <= Tol
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
N == S.N                                           \* dimension as the library counts it
MaxDiff(r) == LET m == {Abs(r[j]) : j \in 1..Len(r)} \cup {Abs(x) : x \in UNION {{p[j] : j \in 1..Len(p)} : p \in {P[1], P[Len(P)]}}} IN CHOOSE x \in m : \A y \in m : y <= x
IsNearest(k, r) == k \in 0..(Len(P) - 1) /\ LET m == TLCEval(D2(P[k + 1], r) - (IF Exact THEN 0 ELSE 16 * MaxDiff(r) + 16)) IN
                                                \A a \in 1..Len(P) : m <= D2(P[a], r)
(* v is the smallest squared distance between two points, within t *)
IsMinPair(v, t) == /\ \A a \in 1..(Len(P) - 1) : \A b \in (a + 1)..Len(P) : v <= D2(P[a], P[b]) + t
                   /\ \E a \in 1..(Len(P) - 1) : \E b \in (a + 1)..Len(P) : v >= D2(P[a], P[b]) - t
Ones == [a \in 1..Len(P) |-> 1]
WT(e) == IF e.w = <<>> THEN Ones ELSE e.w
MeanBad(e) == LET w == WT(e) T == Tot(w, 1, 0) IN
    \/ Len(e.v) # Len(P[1])
    \/ \E j \in 1..Len(P[1]) : Abs(e.v[j] * T - 100 * WSum(w, [a \in 1..Len(P) |-> P[a][j]])) > (IF Exact THEN T ELSE 200 * T)
MaxC == LET m == UNION {{Abs(p[j]) : j \in 1..Len(p)} : p \in {P[a] : a \in 1..Len(P)}} IN CHOOSE x \in m : \A y \in m : y <= x
EnergyOK(e) == LET w == WT(e) T == Tot(w, 1, 0)
                   n == [a \in 1..Len(P) |-> Norm2(P[a])]
                   s == WSum(w, n)
               IN Abs(e.v * T - s) <= (IF Exact THEN T ELSE T * (4 * MaxC + 8))
(* M points equally spaced on a circle of radius A, in increasing order of    *)
(* angle, once around, starting at t: equal norms, equal inner and positive   *)
(* cross products of neighbours, and one upward crossing of the real axis     *)
Dot(p, q) == p[1] * q[1] + p[2] * q[2]
Crs(p, q) == p[1] * q[2] - p[2] * q[1]
RingOK(q, M, A, t) ==
    LET nx(a) == q[(a % M) + 1]
        slack == 6 * A + 20
    IN /\ Len(q) = M
       /\ \A a \in 1..M : /\ Abs(Norm2(q[a]) - A * A) <= slack
                         /\ Abs(Dot(q[a], nx(a)) - Dot(q[1], nx(1))) <= 2 * slack
                         /\ (M > 2 => Crs(q[a], nx(a)) > 0)
       /\ Cardinality({a \in 1..M : q[a][2] < 0 /\ nx(a)[2] >= 0}) = 1
       /\ NearPt(q[1], Polar(A, t))
Bad(e) ==
    CASE e.op = "bad" -> Viol("invalid-accepted", Refused(e))
      [] ~e.ok -> {"raised"}
      [] e.op = "points" -> Viol("points", Len(e.v) = Len(P) /\ \A a \in 1..Len(P) : NearPt(e.v[a], P[a]))
      [] e.op = "ring" -> Viol("points", RingOK(e.v, e.M, e.A, e.t))
      [] e.op = "order" -> Viol("order", e.v = Len(P))
      [] e.op = "dim" -> Viol("dimension", e.v = N)
      [] e.op = "i2s" -> Viol("shape", e.v.shape = Append(Front(e.x.shape), Last(e.x.shape) * N))
                         \cup Viol("symbols", Len(e.v.d) = Len(e.x.d) /\ \A a \in 1..Len(e.x.d) : NearPt(e.v.d[a], P[e.x.d[a] + 1]))
      [] e.op = "ci" -> Viol("shape", e.v.shape = Append(Front(e.x.shape), Last(e.x.shape) \div N))
                        \cup Viol("not-nearest", Len(e.v.d) = Len(e.x.d) /\ \A a \in 1..Len(e.x.d) : IsNearest(e.v.d[a], e.x.d[a]))
      [] e.op = "back" -> Viol("not-inverse", e.v = e.x)
      [] e.op = "cs" -> Viol("shape", e.v.shape = e.x.shape)
                        \cup Viol("not-nearest", Len(e.v.d) = Len(e.x.d) /\ \A a \in 1..Len(e.x.d) :
                               \E k \in 1..Len(P) : NearPt(e.v.d[a], P[k]) /\ IsNearest(k - 1, e.x.d[a]))
      [] e.op = "mean" -> Viol("mean", ~MeanBad(e))
      [] e.op = "energy" -> Viol("mean-energy", EnergyOK(e))
      [] e.op = "mind" -> Viol("minimum-distance", IsMinPair(e.v, IF Exact THEN 1 ELSE 200 + e.v \div 10))
      [] e.op = "post" -> LET n == Len(P) IN
                          Viol("shape", e.v.shape = Append(Front(e.x.shape), (Last(e.x.shape) \div N) * n))
                          \cup Viol("posteriors", Len(e.v.d) = Len(e.x.d) * n /\ \A a \in 1..Len(e.x.d) :
                                 PostOK(PostW(P, WT(e), e.x.d[a]), SubSeq(e.v.d, (a - 1) * n + 1, a * n)))
      [] e.op = "same" -> Viol("argument-modified", e.v)
Init == c \in 1..Len(Cases) /\ i = 0 /\ P = PointsOf(Cases[c].def)
Next == /\ i < Len(Ev)
        /\ LET bad == Bad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ (i + 1 = Len(Ev)) => Accept(c)
        /\ i' = i + 1 /\ UNCHANGED <<c, P>>
=============================================================================
