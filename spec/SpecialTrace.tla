----------------------------- MODULE SpecialTrace -----------------------------
(* Each event is one call on an array of points; every value is compared with *)
(* the definition in Special.                                                 *)
EXTENDS Special, TraceKit
VARIABLES c, i
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
Close(u, v, tol) == FAbs(u - v) <= tol
INF == 2000000000
(* x as fixed point from the rational n/d, |x| < 8 *)
FX(n, d) == FFrac(n, d)
(* points <<n, d>>; values <<Q(x) in Q24, x e^(x^2/2) Q(x) in Q24 (0 if x < 2)>> *)
QOK(t, v) == CASE t[2] = 0 -> v[1] = (IF t[1] > 0 THEN 0 ELSE F1)
               [] t[1] >= 2 * t[2] -> Close(v[2], XMills(FFrac(t[2] * t[2], t[1] * t[1])), 100)
                                      /\ (IF t[1] < 8 * t[2] THEN Close(v[1], GTail(FX(t[1], t[2])), 40) ELSE v[1] = 0)
               [] OTHER -> IF t[1] <= -8 * t[2] THEN Close(v[1], F1, 1) ELSE Close(v[1], GTail(FX(t[1], t[2])), 100)
(* y = k / 2^20; v the inverse in Q24; relative tolerance through the density *)
InvOK(k, v) == CASE k = 0 -> v = INF [] k = 1048576 -> v = -INF
                 [] OTHER -> FAbs(v) < 8 * F1 /\ Close(GTail(v), 16 * k, 120)
(* round trip at x = n/d through the implementation's own (separately judged) tail *)
RoundOK(t, v) == FAbs(v) < INF /\ Close(v, (t[1] * 1048576) \div t[2], 20)
MarcumOK(e, j) == LET t == e.pts[j] IN Close(e.v.d[j], IF t[3] = 0 THEN F1 ELSE Marcum(e.m, t[1], t[2], t[3], t[4]), 400)
(* finite odds *)
PlusOK(t, v) == LET o == SumOdds(t[1], t[2], t[3], t[4]) IN FAbs(v) < INF /\ FAbs(v - LnRatio(o[1], o[2])) <= 24
(* large magnitudes: sa, sb signs, difference of the magnitudes n/d; the recorded value is sign * result - smaller magnitude, in Q20 *)
LargeOK(t, v) == FAbs(v) < INF /\ FAbs(v + (IF t[1] >= 60 * t[2] THEN 0 ELSE Soft(FFrac(t[1], t[2])))) <= 24
(* infinities and zeros: 9 stands for infinity, otherwise small integers; exact integer results *)
Sgn(z) == IF z > 0 THEN 1 ELSE IF z < 0 THEN -1 ELSE 0
EdgeVal(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE IF FAbs(x) = 9 THEN Sgn(x) * y ELSE Sgn(y) * x
EdgeOK(t, v) == LET w == EdgeVal(t[1], t[2]) IN v = IF FAbs(w) = 9 THEN Sgn(w) * INF ELSE w * 1048576
All(e, ok(_, _)) == Len(e.v.d) = Len(e.pts) /\ \A j \in 1..Len(e.pts) : ok(e.pts[j], e.v.d[j])
Bad(e) ==
    CASE e.op = "bad" -> Viol("invalid-accepted", Refused(e))
      [] ~e.ok -> {"raised"}
      [] OTHER -> Viol("shape", e.v.shape = e.dims)
            \cup Viol("input-modified", e.unmod)
            \cup CASE e.op = "q" -> Viol("gaussian-tail", All(e, QOK))
                   [] e.op = "inv" -> Viol("inverse-tail", All(e, InvOK))
                   [] e.op = "round" -> Viol("inverse-tail", All(e, RoundOK))
                   [] e.op = "marcum" -> Viol("marcum", Len(e.v.d) = Len(e.pts) /\ \A j \in 1..Len(e.pts) : MarcumOK(e, j))
                   [] e.op = "plus" -> Viol("boxplus", All(e, PlusOK))
                   [] e.op = "large" -> Viol("boxplus", All(e, LargeOK))
                   [] e.op = "edge" -> Viol("boxplus-infinite", All(e, EdgeOK))
Init == c \in 1..Len(Cases) /\ i = 0
Next == /\ i < Len(Ev)
        /\ LET bad == Bad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ (i + 1 = Len(Ev)) => Accept(c)
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
