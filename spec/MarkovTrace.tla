---------------------------- MODULE MarkovTrace ----------------------------
(* S.W, S.D: the chain.  Probabilities are recorded in millionths, visits and *)
(* times in thousandths.                                                     *)
EXTENDS Markov, TraceKit, SequencesExt, Stats
VARIABLES c, i, R
S == Cases[c]
W == S.W
D == S.D
n == Len(W)
Ev == S.ev
E == Ev[i + 1]
Abs(x) == IF x < 0 THEN -x ELSE x
SetOf(v) == {v[j] : j \in 1..Len(v)}
IsSet(v, A) == Len(v) = Cardinality(A) /\ SetOf(v) = A
Sorted(A) == SetToSortSeq(A, LAMBDA a, b : a < b)
T == Sorted(Transient(R))
A == Sorted(Absorbing(W))
SumSeq(v) == FoldLeft(LAMBDA a, b : a + b, 0, v)
RECURSIVE Dot(_, _, _, _)
Dot(x, y, j, acc) == IF j > Len(x) THEN acc ELSE Dot(x, y, j + 1, acc + x[j] * y[j])
P(a, b) == W[a + 1][b + 1]
(* rows of P restricted to the transient states *)
Q(a) == [t \in 1..Len(T) |-> P(T[a], T[t])]
Delta(a, b) == IF a = b THEN 1 ELSE 0
StatOK(v) == /\ Len(v) = n
             /\ \A j \in 1..n : v[j] >= -1
             /\ Abs(Dot(v, [j \in 1..n |-> 1], 1, 0) - 1000000) <= n
             /\ \A j \in 1..n : Abs(Dot(v, [k \in 1..n |-> W[k][j]], 1, 0) - D * v[j]) <= (n + 1) * D
VisitsOK(v) == /\ Len(v) = Len(T) /\ \A a \in 1..Len(T) : Len(v[a]) = Len(T)
               /\ \A a, b \in 1..Len(T) :
                    Abs(D * v[a][b] - 1000 * D * Delta(a, b) - Dot(Q(a), [t \in 1..Len(T) |-> v[t][b]], 1, 0)) <= 2 * D
TimeOK(v) == /\ Len(v) = Len(T)
             /\ \A a \in 1..Len(T) : Abs(D * v[a] - 1000 * D - Dot(Q(a), v, 1, 0)) <= 2 * D
AbsOK(v) == /\ Len(v) = Len(T) /\ \A a \in 1..Len(T) : Len(v[a]) = Len(A)
            /\ \A a \in 1..Len(T) : \A b \in 1..Len(A) :
                 Abs(D * v[a][b] - 1000000 * P(T[a], A[b]) - Dot(Q(a), [t \in 1..Len(T) |-> v[t][b]], 1, 0)) <= 2 * D
(* nearly decomposable chains: leading order base/D, plus leaks eps[a][b]*h    *)
(* with h tiny; W is the joint graph                                         *)
RB == Acc(S.base)
Leak(G, v) == Dot(v, [j \in 1..n |-> IF (j - 1) \in G THEN SumSeq([k \in 1..n |-> IF (k - 1) \in G THEN 0 ELSE S.eps[j][k]]) ELSE 0], 1, 0)
Gain(G, v) == Dot(v, [j \in 1..n |-> IF (j - 1) \in G THEN 0 ELSE SumSeq([k \in 1..n |-> IF (k - 1) \in G THEN S.eps[j][k] ELSE 0])], 1, 0)
LeakTot == SumSeq([j \in 1..n |-> SumSeq(S.eps[j])])
TStatOK(v) == /\ Len(v) = n /\ Transient(RB) = {}
              /\ Abs(SumSeq(v) - 1000000) <= n
              /\ \A j \in 1..n : v[j] >= -1 /\ Abs(Dot(v, [k \in 1..n |-> S.base[k][j]], 1, 0) - D * v[j]) <= (n + 1) * D
              /\ \A G \in Classes(RB) : Abs(Leak(G, v) - Gain(G, v)) <= 2 * LeakTot
(* a transient class of the joint graph that the leading order keeps forever, visiting its states equally often *)
Equal(G) == \A j \in G : SumSeq([k \in 1..n |-> IF (k - 1) \in G THEN S.base[k][j + 1] ELSE 0]) = D /\ RB[j] = G
EpsTo(G, b) == SumSeq([k \in 1..n |-> IF (k - 1) \in G THEN S.eps[k][b + 1] ELSE 0])
EpsOut(G) == SumSeq([b \in 1..n |-> IF (b - 1) \in Absorbing(W) THEN EpsTo(G, b - 1) ELSE 0])
TAbsOK(v) == /\ Len(v) = Len(T)
             /\ \A a \in 1..Len(T) : LET G == RB[T[a]] IN
                   Equal(G) /\ Len(v[a]) = Len(A) /\ \A b \in 1..Len(A) : Abs(v[a][b] * EpsOut(G) - 1000000 * EpsTo(G, A[b])) <= 2 * EpsOut(G)
(* times in units of 1/h, in thousandths *)
TTimeOK(v) == /\ Len(v) = Len(T)
              /\ \A a \in 1..Len(T) : LET G == RB[T[a]] IN Equal(G) /\ Abs(v[a] * EpsOut(G) - 1000 * D * Cardinality(G)) <= 2 * EpsOut(G)
(* rings: n states, further edges S.ch *)
N == S.n
Ch == {S.ch[j] : j \in 1..Len(S.ch)}
All == 0..(N - 1)
PathOK(v, x0, len) == Len(v) = len /\ (len > 0 => v[1] = x0)
                      /\ \A t \in 1..(Len(v) - 1) : v[t] \in States(W) /\ v[t + 1] \in States(W) /\ Edge(W, v[t], v[t + 1])
Bad(e) ==
    CASE e.op = "bad" \/ (e.op = "rprim" /\ RingPeriod(N, Ch) # 1) -> Viol("invalid-accepted", Refused(e))
      [] e.op = "stat" /\ ~Irreducible(R) -> Viol("reducible-accepted", Refused(e))
      [] e.op \in {"visits", "time", "absprob", "until"} /\ ~AbsorbingChain(W, R) -> Viol("not-absorbing-accepted", Refused(e))
      [] e.op = "prim" /\ Primitivity(W) = 0 -> Viol("not-regular-accepted", Refused(e))
      [] ~e.ok -> {"raised"}
      [] e.op = "num" -> Viol("num-states", e.v = n)
      [] e.op = "acc" -> Viol("accessible", IsSet(e.v, R[e.x]))
      [] e.op = "classes" -> Viol("classes", /\ Len(e.v) = Cardinality(Classes(R))
                                             /\ {SetOf(e.v[j]) : j \in 1..Len(e.v)} = Classes(R)
                                             /\ \A j \in 1..Len(e.v) : Len(e.v[j]) = Cardinality(SetOf(e.v[j])))
      [] e.op = "irr" -> Viol("irreducible", e.v = Irreducible(R))
      [] e.op = "tr" -> Viol("transient", IsSet(e.v, Transient(R)))
      [] e.op = "rec" -> Viol("recurrent", IsSet(e.v, Recurrent(R)))
      [] e.op = "abs" -> Viol("absorbing", IsSet(e.v, Absorbing(W)))
      [] e.op = "isabs" -> Viol("is-absorbing", e.v = AbsorbingChain(W, R))
      [] e.op = "per" -> Viol("period", e.v = Period(W, e.x))
      [] e.op = "aper" -> Viol("aperiodic", e.v = Aperiodic(W))
      [] e.op = "reg" -> Viol("regular", e.v = (Irreducible(R) /\ Aperiodic(W)))
      [] e.op = "prim" -> Viol("primitivity", e.v = Primitivity(W))
      [] e.op = "stat" -> Viol("stationary", StatOK(e.v))
      [] e.op = "visits" -> Viol("visits", VisitsOK(e.v))
      [] e.op = "time" -> Viol("time", TimeOK(e.v))
      [] e.op = "absprob" -> Viol("absorption", AbsOK(e.v))
      [] e.op = "sim" -> Viol("path", PathOK(e.v, e.x, e.steps))
      [] e.op = "until" -> Viol("path", PathOK(e.v, e.x, Len(e.v)) /\ Len(e.v) > 0)
                           \cup Viol("stops-on-absorption", Len(e.v) > 0 /\ \A t \in 1..Len(e.v) : (e.v[t] \in Absorbing(W)) <=> (t = Len(e.v)))
      [] e.op = "tstat" -> Viol("stationary", TStatOK(e.v))
      [] e.op = "tabs" -> Viol("absorption", TAbsOK(e.v))
      [] e.op = "ttime" -> Viol("time", TTimeOK(e.v))
      (* rings *)
      [] e.op = "racc" -> Viol("accessible", IsSet(e.v, All))
      [] e.op = "rclasses" -> Viol("classes", Len(e.v) = 1 /\ IsSet(e.v[1], All))
      [] e.op = "rtr" -> Viol("transient", Len(e.v) = 0)
      [] e.op = "rrec" -> Viol("recurrent", IsSet(e.v, All))
      [] e.op = "rabs" -> Viol("absorbing", Len(e.v) = 0)
      [] e.op = "rirr" -> Viol("irreducible", e.v)
      [] e.op = "rper" -> Viol("period", e.v = RingPeriod(N, Ch))
      [] e.op \in {"raper", "rreg"} -> Viol("aperiodic", e.v = (RingPeriod(N, Ch) = 1))
      [] e.op = "rprim" -> Viol("primitivity", Len(S.ch) = 1 /\ S.ch[1][2] = (S.ch[1][1] + 2) % N /\ e.v = SkipPrim(N))
      [] e.op = "rsim" -> Viol("path", /\ Len(e.v) = e.steps /\ (e.steps > 0 => e.v[1] = e.x)
                                       /\ \A t \in 1..(Len(e.v) - 1) : RingEdge(N, Ch, e.v[t], e.v[t + 1]))
      [] e.op = "rstat" -> Viol("stationary", Len(e.v) = N /\ \A j \in 1..N : Abs(e.v[j] * N - 1000000) <= 2 * N)
      (* long waits: runs of equal states, one slow state 0 left with probability 1/S.mean *)
      [] e.op = "runs" -> Viol("path", \A t \in 1..Len(e.v) : Len(e.v[t]) = 2 /\ e.v[t][1][1] = 0 /\ e.v[t][2] = <<1, 1>>)
                          \cup Viol("waiting-time", /\ \E t \in 1..Len(e.v) : e.v[t][1][2] >= S.mean \div 20
                                                    /\ \A t \in 1..Len(e.v) : e.v[t][1][2] <= 30 * S.mean)
      (* a line of N states, the last one absorbing *)
      [] e.op = "line" -> Viol("path", e.v = [t \in 1..(N - e.x) |-> e.x + t - 1])
      [] e.op = "ltime" -> Viol("time", e.v = [t \in 1..(N - 1) |-> N - t])
      [] e.op = "lper" -> Viol("period", e.v = (IF e.x = N - 1 THEN 1 ELSE 0))
      [] e.op = "lacc" -> Viol("accessible", IsSet(e.v, e.x..(N - 1)))
      [] e.op = "ltr" -> Viol("transient", IsSet(e.v, 0..(N - 2)))
      [] e.op = "same" -> Viol("not-repeatable", e.v)
      [] e.op = "freq" -> Viol("frequencies", \A a, b \in 1..n :
                              LET m == Dot(e.v[a], [j \in 1..n |-> 1], 1, 0) IN Within(e.v[a][b], m, W[a][b], D))
Init == c \in 1..Len(Cases) /\ i = 0 /\ R = Acc(Cases[c].W)
Next == /\ i < Len(Ev)
        /\ LET bad == Bad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ (i + 1 = Len(Ev)) => Accept(c)
        /\ i' = i + 1 /\ UNCHANGED <<c, R>>
=============================================================================
