----------------------------- MODULE MC_Markov -----------------------------
(* Every graph on up to N states with no dead ends: a token walks along the   *)
(* edges from state start; k counts steps.  The walk decides what the         *)
(* definitions claim.                                                        *)
EXTENDS Markov
CONSTANTS N, K
VARIABLES W, start, here, k
vars == <<W, start, here, k>>
Rows(n) == {r \in [1..n -> {0, 1}] : \E j \in 1..n : r[j] = 1}
Init == \E n \in 1..N : W \in [1..n -> Rows(n)] /\ start \in 0..(n - 1) /\ here = start /\ k = 0
Next == k < K /\ k' = k + 1 /\ (\E j \in States(W) : Edge(W, here, j) /\ here' = j) /\ UNCHANGED <<W, start>>
Spec == Init /\ [][Next]_vars
R == Acc(W)
Walk == here \in R[start]                                                     \* a walk stays inside the accessible states
Divides == (here = start /\ k > 0) => Period(W, start) > 0 /\ k % Period(W, start) = 0
Absorbed == start \in Absorbing(W) => here = start
Closed == start \in Recurrent(R) => start \in R[here]                         \* recurrent: it can always come back
First == k = 0 /\ start = 0
Partition == First => /\ UNION Classes(R) = States(W)
                      /\ \A A, B \in Classes(R) : A = B \/ A \cap B = {}
                      /\ Recurrent(R) # {}
                      /\ \A A \in Classes(R) : A \subseteq Transient(R) \/ A \subseteq Recurrent(R)
                      /\ \A A \in Classes(R) : A \subseteq Recurrent(R) <=> Succ(W, A) \subseteq A
                      /\ Absorbing(W) \subseteq Recurrent(R)
ClassPeriod == First => \A i, j \in States(W) : j \in ClassOf(R, i) => Period(W, i) = Period(W, j)
(* longer walks add nothing to the gcd *)
RECURSIVE LongPer(_, _, _, _)
LongPer(i, A, t, d) == IF t > 8 * Len(W) THEN d ELSE LET B == Succ(W, A) IN LongPer(i, B, t + 1, IF i \in B THEN Gcd(t, d) ELSE d)
PeriodBound == First => \A i \in States(W) : LongPer(i, {i}, 1, 0) = Period(W, i)
(* the level formula: gcd over the edges inside the class of level(u) + 1 - level(v) *)
RECURSIVE Lev(_, _, _, _)
Lev(C, L, front, t) == IF front = {} THEN L
    ELSE LET new == {j \in C : L[j] = -1 /\ \E i \in front : Edge(W, i, j)}
         IN Lev(C, [j \in DOMAIN L |-> IF j \in new THEN t ELSE L[j]], new, t + 1)
RECURSIVE GcdSet(_)
GcdSet(S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN Gcd(s, GcdSet(S \ {s}))
Abs(x) == IF x < 0 THEN -x ELSE x
LevelFormula == First => \A i \in States(W) :
    LET C == ClassOf(R, i)
        L == Lev(C, [j \in States(W) |-> IF j = i THEN 0 ELSE -1], {i}, 1)
    IN GcdSet({Abs(L[e[1]] + 1 - L[e[2]]) : e \in {f \in C \X C : Edge(W, f[1], f[2])}}) = Period(W, i)
Regular == First => ((Primitivity(W) > 0) <=> (Irreducible(R) /\ Aperiodic(W)))
AbsTransient == First => (AbsorbingChain(W, R) => Transient(R) = States(W) \ Absorbing(W))
RingForm == First => LET n == Len(W) ch == {e \in States(W) \X States(W) : Edge(W, e[1], e[2])} IN
    (\A i \in States(W) : Edge(W, i, (i + 1) % n)) =>
        /\ Irreducible(R) /\ (\A i \in States(W) : Period(W, i) = RingPeriod(n, ch))
        /\ (\A i, j \in States(W) : RingEdge(n, ch, i, j) <=> Edge(W, i, j))
        /\ (n >= 3 /\ (\E i \in States(W) : ch = {<<j, (j + 1) % n>> : j \in States(W)} \cup {<<i, (i + 2) % n>>})) => Primitivity(W) = SkipPrim(n)
=============================================================================
