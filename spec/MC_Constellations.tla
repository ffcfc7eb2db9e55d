------------------------- MODULE MC_Constellations -------------------------
(* Closed-form decision rules against the definition "a nearest point", on   *)
(* every received point of a grid, and the geometry of the families.         *)
EXTENDS Constellations
CONSTANTS R
VARIABLES def, r
PamD == {[kind |-> "pam", M |-> m, delta |-> 4] : m \in 2..6}
QamD == {[kind |-> "qam", Mi |-> a, Mq |-> b, di |-> x, dq |-> y, t |-> 0] : a \in {2, 3, 4}, b \in {2, 4}, x \in {2, 4}, y \in {2, 6}}
AskD == {[kind |-> "ask", M |-> m, A |-> 4, t |-> 0] : m \in 2..4}
OrthD == {[kind |-> "orth", M |-> 2, A |-> 4], [kind |-> "biorth", M |-> 4, A |-> 4], [kind |-> "biorth", M |-> 2, A |-> 4], [kind |-> "simplex", M |-> 2, A |-> 8]}
CrossD == {[kind |-> "cross", M |-> 32, k |-> 5, delta |-> 2, t |-> 0], [kind |-> "cross", M |-> 128, k |-> 7, delta |-> 2, t |-> 0]}
PskD == {[kind |-> "psk", M |-> 4, A |-> 4, t |-> z] : z \in {0, 240, 480, 720}}
Defs == PamD \cup QamD \cup AskD \cup OrthD \cup CrossD \cup PskD
P == PointsOf(def)
Dim == Len(P[1])
Init == def \in Defs /\ r = [j \in 1..Len(PointsOf(def)[1]) |-> -R]
Bump(j) == r[j] < R /\ r' = [r EXCEPT ![j] = @ + 1] /\ UNCHANGED def
Next == \E j \in 1..Dim : Bump(j)
Nearest(i) == D2(P[i + 1], r) = MinD2(P, r)
Clip(x, hi) == IF x < 0 THEN 0 ELSE IF x > hi THEN hi ELSE x
PamRule(x, M, delta) == Clip(RoundDiv(2 * x + (M - 1) * delta, 2 * delta), M - 1)
ArgMaxRule(s) == (CHOOSE a \in 1..Len(s) : \A b \in 1..Len(s) : s[b] <= s[a] /\ (s[b] = s[a] => a <= b)) - 1
Rules ==
    CASE def.kind = "pam" -> Nearest(PamRule(r[1], def.M, def.delta))
      [] def.kind = "qam" -> Nearest(def.Mq * PamRule(r[1], def.Mi, def.di) + PamRule(r[2], def.Mq, def.dq))
      [] def.kind = "ask" -> Nearest(Clip(RoundDiv(r[1], def.A), def.M - 1))
      [] def.kind \in {"orth", "simplex"} -> Nearest(ArgMaxRule(r))
      [] def.kind = "biorth" -> Nearest(ArgMaxRule(r \o [j \in 1..Len(r) |-> -r[j]]))
      [] OTHER -> TRUE
Geometry == (r = [j \in 1..Dim |-> -R]) =>
    /\ Cardinality({P[a] : a \in 1..Len(P)}) = Len(P)
    /\ CASE def.kind = "pam" -> MinPair(P) = def.delta * def.delta /\ 12 * WSum([a \in 1..Len(P) |-> 1], [a \in 1..Len(P) |-> Norm2(P[a])]) = Len(P) * def.delta * def.delta * (def.M * def.M - 1)
         [] def.kind = "cross" -> /\ Len(P) = def.M /\ MinPair(P) = def.delta * def.delta
                                  /\ 192 * WSum([a \in 1..Len(P) |-> 1], [a \in 1..Len(P) |-> Norm2(P[a])]) = Len(P) * def.delta * def.delta * (31 * def.M - 32)
         [] def.kind \in {"orth", "simplex"} -> MinPair(P) = 2 * def.A * def.A
         [] def.kind = "qam" -> MinPair(P) = (IF def.di < def.dq THEN def.di * def.di ELSE def.dq * def.dq)
         [] OTHER -> TRUE
Mapping == (r = [j \in 1..Dim |-> -R]) => \A a \in 1..Len(P) : MinD2(P, P[a]) = 0
=============================================================================
