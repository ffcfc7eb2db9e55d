---------------------------- MODULE MC_Decoders ----------------------------
(* Model of the decoders as machines.  Each initial state is one decoder and *)
(* one received word; the machine takes one decision per step.               *)
EXTENDS Decoders, TLC
VARIABLES alg, par, x, e, u, st
vars == <<alg, par, x, e, u, st>>
CONSTANT Deep
RMs == {<<0,1>>, <<0,2>>, <<1,2>>, <<0,3>>, <<1,3>>, <<2,3>>, <<1,4>>} \cup (IF Deep THEN {<<2,4>>, <<0,4>>, <<3,4>>} ELSE {})
BCHs == {<<11,3>>, <<11,7>>, <<19,3>>, <<19,5>>, <<19,7>>} \cup (IF Deep THEN {<<37,3>>, <<37,5>>} ELSE {})
WagN == IF Deep THEN 2..5 ELSE 2..4
WagV == {-2, -1, 0, 1, 3}
Mus == {1, 2, 3}
(* Reed-Muller generator in the documented order: higher degrees first *)
RECURSIVE OrderSets(_)
OrderSets(C) == IF C = {} THEN <<>> ELSE LET I == CHOOSE I \in C : \A J \in C : Cardinality(J) <= Cardinality(I) IN <<I>> \o OrderSets(C \ {I})
RMOrder(rho, mu) == OrderSets(Monos(rho, mu))
RMG(rho, mu) == LET o == RMOrder(rho, mu) IN [a \in 1..Len(o) |-> MonoRow(o[a], mu)]
Patterns(n, t) == {v \in [1..n -> {0, 1}] : Cardinality({j \in 1..n : v[j] = 1}) <= t}
Supp(n, t) == {T \in SUBSET (1..n) : Cardinality(T) <= t}
Ind(T, n) == [j \in 1..n |-> IF j \in T THEN 1 ELSE 0]
Radius(rho, mu) == (Pow(2, mu - rho) - 1) \div 2
SynOf(T, nn, d2, p) == [a \in 1..d2 |-> LET RECURSIVE A(_, _) A(Q, acc) == IF Q = {} THEN acc ELSE LET j == CHOOSE j \in Q : TRUE IN A(Q \ {j}, acc ^^ FPow(2, (j - 1) * a, p)) IN A(T, 0)]
InitReed == \E q \in RMs : LET n == Pow(2, q[2]) t == Radius(q[1], q[2]) G == RMG(q[1], q[2]) IN
            \E w \in (IF q[2] <= 3 THEN [1..Len(G) -> {0, 1}] ELSE {[a \in 1..Len(G) |-> 0], [a \in 1..Len(G) |-> 1], [a \in 1..Len(G) |-> a % 2]}) :
            \E v \in Patterns(n, t) :
               alg = "reed" /\ par = <<q[1], q[2], w, G, [a \in 1..Len(G) |-> RMOrder(q[1], q[2])[a]]>> /\ e = v
               /\ x = XorV(VecMat(w, G, n), v) /\ u = <<>> /\ st = <<>>
InitBch == \E q \in BCHs : LET nn == Pow(2, DegP(q[1])) - 1 IN
           \E T \in Supp(nn, (q[2] - 1) \div 2) : LET s == SynOf(T, nn, q[2] - 1, q[1]) IN
               alg = "bch" /\ par = <<q[1], q[2], s>> /\ e = Ind(T, nn) /\ x = <<>> /\ u = <<>>
               /\ st = BInit(s)
InitWag == \E n \in WagN : \E r \in [1..n -> WagV] : alg = "wagner" /\ par = <<n>> /\ x = r /\ e = <<>> /\ u = <<>> /\ st = <<>>
InitSC == \E mu \in Mus : \E F \in SUBSET (0..(Pow(2, mu) - 1)) : \E w \in [1..Pow(2, mu) -> {0, 1}] :
          (\A a \in F : w[a + 1] = 0) /\ (mu = 3 => (Deep /\ Cardinality(F) >= 5) \/ (Cardinality(F) = 4 /\ \A a \in (0..7) \ F : w[a + 1] = 1)) /\ alg = "sc" /\ par = <<mu, F, w>> /\ x = PolarWord(w) /\ e = <<>> /\ u = <<>> /\ st = <<>>
Init == InitReed \/ InitBch \/ InitWag \/ InitSC
StepReed == alg = "reed" /\ Len(u) < Len(par[4]) /\
            LET a == Len(u) + 1 b == Majority(x, par[5][a], par[2]) IN
            u' = Append(u, b) /\ x' = (IF b = 1 THEN XorV(x, par[4][a]) ELSE x) /\ UNCHANGED <<alg, par, e, st>>
StepBch == alg = "bch" /\ st.j < par[2] - 1 /\ st' = BStep(st, par[3], par[1]) /\ UNCHANGED <<alg, par, x, e, u>>
StepSC == alg = "sc" /\ Len(u) < Pow(2, par[1]) /\
          LET i == Len(u)
              l == [j \in 1..Len(x) |-> IF x[j] = 0 THEN <<3, 1>> ELSE <<1, 3>>]
              pr == SCPair(u, l)
          IN u' = Append(u, IF i \in par[2] THEN 0 ELSE IF pr[1] < pr[2] THEN 1 ELSE 0) /\ UNCHANGED <<alg, par, x, e, st>>
StepWag == alg = "wagner" /\ u = <<>> /\ u' \in WagnerWords(x) /\ UNCHANGED <<alg, par, x, e, st>>
Next == StepReed \/ StepBch \/ StepSC \/ StepWag
(* ---- the guarantees ---- *)
(* every majority decision is the message bit as long as the errors are within the radius *)
ReedCorrects == alg = "reed" => \A a \in 1..Len(u) : u[a] = par[3][a]
(* at the end the error-location polynomial has exactly the inverse locators as roots *)
BerlekampCorrects == (alg = "bch" /\ st.j = par[2] - 1) =>
    LET p == par[1] nn == Pow(2, DegP(p)) - 1 sg == st.sig[Len(st.sig)] IN
    \A j \in 0..(nn - 1) : (EvalF(sg, FPow(2, (nn - j) % nn, p), p) = 0) <=> e[j + 1] = 1
(* Newton identities: every step explains the syndromes seen so far *)
BerlekampNewton == (alg = "bch") => \A h \in 1..st.j : st.j > 0 =>
    LET sg == st.sig[st.j + 2] d == st.deg[st.j + 2] IN (h > d => DiscAux(sg, par[3], h - 1, 1, par[1], 0) = 0)
WagnerML == (alg = "wagner" /\ u # <<>>) => Wt(u) % 2 = 0 /\ \A v \in [1..par[1] -> {0, 1}] : Wt(v) % 2 = 0 => Corr(v, x) <= Corr(u, x)
SCNoiseless == alg = "sc" => \A a \in 1..Len(u) : u[a] = par[3][a]
=============================================================================
