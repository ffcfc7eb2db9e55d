------------------------------- MODULE MC_Free -------------------------------
(* FreeDistance and Catastrophic, which are computed on the trellis, against *)
(* polynomial theory and against enumeration, for all small rate 1/N         *)
(* feedforward encoders.                                                     *)
EXTENDS Conv
CONSTANTS N, Deg, L
VARIABLES g, T, O
vars == <<g, T, O>>
Polys == {Trim(Unpack(x, Deg + 1)) : x \in 0..(Pow(2, Deg + 1) - 1)}
Sg == RowDeg(<<g>>, <<<<1>>>>, 1)
Tof(gg, sg) == [s \in 1..Pow(2, sg) |-> [x \in 1..2 |-> Pack(RefReg(<<gg>>, <<<<1>>>>, <<Unpack(s - 1, sg)>>, <<x - 1>>)[1])]]
Oof(gg, sg) == [s \in 1..Pow(2, sg) |-> [x \in 1..2 |-> Pack(RefOut(<<gg>>, <<<<1>>>>, <<Unpack(s - 1, sg)>>, <<x - 1>>))]]
Init == \E gg \in [1..N -> Polys] : /\ \E j \in 1..N : gg[j] # <<>>
            /\ g = gg /\ LET sg == RowDeg(<<gg>>, <<<<1>>>>, 1) IN T = Tof(gg, sg) /\ O = Oof(gg, sg)
Next == UNCHANGED vars
RECURSIVE GcdS(_, _)
GcdS(a, b) == IF b = <<>> THEN a ELSE GcdS(b, ModS(a, b))
RECURSIVE GcdAll(_, _)
GcdAll(j, acc) == IF j > N THEN acc ELSE GcdAll(j + 1, IF acc = <<>> THEN g[j] ELSE IF g[j] = <<>> THEN acc ELSE GcdS(acc, g[j]))
Gcd == GcdAll(1, <<>>)
(* Massey-Sain: catastrophic iff the gcd of the generators is not a power of D *)
MasseySain == Catastrophic(T, O) = (Wt(Gcd) # 1)
(* the free distance is the least weight of u(D) g(D) / gcd over nonzero polynomials u ... *)
WtOf(u) == Sum([j \in 1..N |-> Wt(MulS(u, QuoS(g[j], Gcd)))])
Enum == LET W == {WtOf(Trim(Unpack(x, L))) : x \in 1..(Pow(2, L) - 1)} IN CHOOSE w \in W : \A v \in W : w <= v
FreeRight == FreeDistance(T, O, N) = Enum
=============================================================================
