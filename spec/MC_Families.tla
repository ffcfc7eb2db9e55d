---------------------------- MODULE MC_Families ----------------------------
(* The family definitions used to judge the code imply the parameters the    *)
(* documentation promises: one state per member of each family.              *)
EXTENDS Families, TLC
CONSTANTS MU
VARIABLES fam
Tuples(r) == LET RECURSIVE T(_) T(x) == IF x = Pow(2, r) THEN <<>> ELSE <<Unpack(x, r)>> \o T(x + 1) IN T(1)
SimplexG(r) == LET t == Tuples(r) IN [a \in 1..r |-> [j \in 1..Len(t) |-> t[j][a]]]
Kernel(H, nn) == SelectSeq([x \in 1..Pow(2, nn) |-> x - 1], LAMBDA x : \A a \in 1..Len(H) : Dot2(H[a], Unpack(x, nn)) = 0)
RMG(rho, mu) == LET I == Monos(rho, mu) RECURSIVE L(_) L(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<MonoRow(x, mu)>> \o L(s \ {x}) IN L(I)
PolarG(mu) == [a \in 1..Pow(2, mu) |-> [j \in 1..Pow(2, mu) |-> KronBit(a - 1, j - 1)]]
Fams == {<<"hamming", r, 0>> : r \in 2..MU} \cup {<<"simplex", r, 0>> : r \in 2..(MU + 1)}
        \cup {<<"rm", r, rho>> : r \in 1..(MU + 1), rho \in 0..MU} \cup {<<"polar", r, 0>> : r \in 1..(MU + 1)}
        \cup {<<"lexi", nn, d>> : nn \in 1..(2 * MU + 1), d \in 1..(2 * MU + 1)}
        \cup {<<"cld", a, b, cc, z>> : a \in 0..3, b \in 0..3, cc \in 0..2, z \in 0..1}
Init == fam \in {f \in Fams : (f[1] = "rm" => f[3] < f[2]) /\ (f[1] = "lexi" => f[3] <= f[2])}
Next == UNCHANGED fam
Spec == Init /\ [][Next]_fam
r == fam[2]
Dist(w) == MinDist(w)
HammingOK == fam[1] = "hamming" => LET nn == Pow(2, r) - 1 w == Kernel(SimplexG(r), nn) IN
               Len(w) = Pow(2, nn - r) /\ Dist(w) = 3
               /\ HistOf(CosetWeights({Pack(Col(SimplexG(r), j)) : j \in 1..nn}), nn) = [x \in 1..(nn + 1) |-> IF x = 1 THEN 1 ELSE IF x = 2 THEN nn ELSE 0]
SimplexOK == fam[1] = "simplex" => LET w == Span(PackRows(SimplexG(r))) IN \A j \in 2..Len(w) : Pop(w[j]) = Pow(2, r - 1)
RMOK == fam[1] = "rm" => LET G == RMG(fam[3], r) D == RMG(r - fam[3] - 1, r) IN
          Dist(Span(PackRows(G))) = Pow(2, r - fam[3]) /\ Rank(G) = Len(G)
          /\ \A a \in 1..Len(G), b \in 1..Len(D) : Dot2(G[a], D[b]) = 0 /\ Len(G) + Len(D) = Pow(2, r)
PolarOK == fam[1] = "polar" => Rank(PolarG(r)) = Pow(2, r)
LexiOK == fam[1] = "lexi" => LET g == Greedy(r, fam[3]) IN
            Pow(2, RankOf(g)) = Len(g) /\ \A a \in 1..Len(g) : \A b \in 1..Len(g) : a = b \/ Pop(g[a] ^^ g[b]) >= fam[3]
LexiBasisOK == fam[1] = "lexi" => LET g == Greedy(r, fam[3]) b == LexiBasis(r, fam[3]) sp == Span(b) IN
            {sp[j] : j \in 1..Len(sp)} = {g[j] : j \in 1..Len(g)}
RemOK == fam = <<"hamming", 2, 0>> => \A y \in 0..127 : \A g \in 2..20 : RemI(Unpack(y, 7), g, DegP(g)) = ModP(y, g)
CldOK == fam[1] = "cld" => LET a == fam[2] b == fam[3] cc == fam[4] nn == a + b + cc + fam[5] IN
           (a > 0 /\ b > 0) \/ (a > 0 /\ cc > 0) \/ (b > 0 /\ cc > 0) => CldBy(a, b, cc, fam[5], BinTab) = CldOf(TwoDim(a, b, cc, nn), nn)
PascalOK == fam = <<"hamming", 2, 0>> => \A nn \in 0..12 : BinRow(nn, 10007) = [w \in 1..(nn + 1) |-> BinTab[nn + 1][w] % 10007]
=============================================================================
