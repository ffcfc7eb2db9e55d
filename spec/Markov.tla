------------------------------- MODULE Markov -------------------------------
(* Finite Markov chains.  W is the matrix of integer weights, D the common    *)
(* denominator: P(i, j) = W[i+1][j+1] / D.  States are 0 .. n-1.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
States(W) == 0..(Len(W) - 1)
Edge(W, i, j) == W[i + 1][j + 1] > 0
Succ(W, A) == {j \in States(W) : \E i \in A : Edge(W, i, j)}
RECURSIVE ReachFrom(_, _)
ReachFrom(W, A) == LET B == TLCEval(A \cup Succ(W, A)) IN IF B = A THEN A ELSE ReachFrom(W, B)
Acc(W) == TLCEval([i \in States(W) |-> ReachFrom(W, {i})])                    \* accessible states
(* the remaining operators take the table R = Acc(W) *)
ClassOf(R, i) == {j \in DOMAIN R : j \in R[i] /\ i \in R[j]}
Classes(R) == {ClassOf(R, i) : i \in DOMAIN R}
Transient(R) == {i \in DOMAIN R : \E j \in R[i] : i \notin R[j]}
Recurrent(R) == DOMAIN R \ Transient(R)
Absorbing(W) == {i \in States(W) : \A j \in States(W) : j # i => ~Edge(W, i, j)}
Irreducible(R) == \A i \in DOMAIN R : R[i] = DOMAIN R
AbsorbingChain(W, R) == Absorbing(W) # {} /\ \A i \in DOMAIN R : R[i] \cap Absorbing(W) # {}
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
(* gcd of the lengths of the closed walks through i: walks of up to 3n steps  *)
(* determine it (MC_Markov); 0 if there is none                               *)
RECURSIVE PerAux(_, _, _, _, _)
PerAux(W, i, A, k, d) == IF k > 3 * Len(W) \/ d = 1 THEN d
    ELSE LET B == TLCEval(Succ(W, A)) IN PerAux(W, i, B, k + 1, IF i \in B THEN Gcd(k, d) ELSE d)
Period(W, i) == PerAux(W, i, {i}, 1, 0)
Aperiodic(W) == \A i \in States(W) : Period(W, i) = 1
(* least k <= bound such that every state is reached from every state in      *)
(* exactly k steps, 0 if there is none                                        *)
RECURSIVE PrimAux(_, _, _, _)
PrimAux(W, T, k, bound) == IF \A i \in DOMAIN T : T[i] = States(W) THEN k ELSE IF k = bound THEN 0
    ELSE PrimAux(W, TLCEval([i \in DOMAIN T |-> Succ(W, T[i])]), k + 1, bound)
Primitivity(W) == PrimAux(W, TLCEval([i \in States(W) |-> Succ(W, {i})]), 1, (Len(W) - 1) * (Len(W) - 1) + 1)
RECURSIVE GcdOf(_)
GcdOf(A) == IF A = {} THEN 0 ELSE LET a == CHOOSE a \in A : TRUE IN Gcd(a, GcdOf(A \ {a}))
(* a ring i -> i + 1 (mod n) with further edges e \in ch (pairs <<i, j>>)     *)
RingEdge(n, ch, i, j) == j = (i + 1) % n \/ <<i, j>> \in ch
RingPeriod(n, ch) == GcdOf({n} \cup {LET d == e[1] + 1 - e[2] IN IF d < 0 THEN -d ELSE d : e \in ch})
(* one chord that jumps over one state: the slowest primitive graph          *)
SkipPrim(n) == (n - 1) * (n - 1) + 1
=============================================================================
