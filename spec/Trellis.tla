------------------------------- MODULE Trellis -------------------------------
(* Finite-state machines T[s + 1][x + 1], O[s + 1][x + 1], and the           *)
(* quantities that the trellis algorithms compute, from their definitions by *)
(* dynamic programming (MC_Trellis checks those against path enumeration).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
INFM == 100000000                      \* +infinity for metrics
NST(T) == Len(T)
NIN(T) == Len(T[1])
RECURSIVE RunAux(_, _, _, _, _, _)
RunAux(T, O, xs, j, s, ys) == IF j > Len(xs) THEN [y |-> ys, s |-> s]
    ELSE RunAux(T, O, xs, j + 1, T[s + 1][xs[j] + 1], Append(ys, O[s + 1][xs[j] + 1]))
Run(T, O, xs, s) == RunAux(T, O, xs, 1, s, <<>>)                 \* Mealy
RECURSIVE MooreAux(_, _, _, _, _, _)
MooreAux(T, O, xs, j, s, ys) == IF j > Len(xs) THEN [y |-> ys, s |-> s]
    ELSE LET s1 == T[s + 1][xs[j] + 1] IN MooreAux(T, O, xs, j + 1, s1, Append(ys, O[s1 + 1]))
RunMoore(T, O, xs, s) == MooreAux(T, O, xs, 1, s, <<>>)

(* ---- metrics ---- *)
(* bm : branch metric of each output symbol at this time, bm[y + 1] *)
Edges(T, s1) == {e \in (0..(NST(T) - 1)) \X (0..(NIN(T) - 1)) : T[e[1] + 1][e[2] + 1] = s1}
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
EdgeMet(O, met, bm, e) == IF met[e[1] + 1] >= INFM \/ bm[O[e[1] + 1][e[2] + 1] + 1] >= INFM THEN INFM
                          ELSE met[e[1] + 1] + bm[O[e[1] + 1][e[2] + 1] + 1]
Acs(T, O, met, bm) == [s1 \in 1..NST(T) |-> MinOf({INFM} \cup {EdgeMet(O, met, bm, e) : e \in Edges(T, s1 - 1)})]
(* the edges on which the minimum is attained *)
BestEdges(T, O, met, bm, s1) == {e \in Edges(T, s1) : EdgeMet(O, met, bm, e) < INFM /\ EdgeMet(O, met, bm, e) = Acs(T, O, met, bm)[s1 + 1]}
RECURSIVE MetsAux(_, _, _, _, _)
MetsAux(T, O, bms, t, acc) == IF t > Len(bms) THEN acc ELSE MetsAux(T, O, bms, t + 1, Append(acc, TLCEval(Acs(T, O, acc[Len(acc)], bms[t]))))
Mets(T, O, init, bms) == MetsAux(T, O, bms, 1, <<init>>)         \* length L + 1
(* the same with every step's metrics lowered by their least: differences,   *)
(* and so all decisions, are the same, and long streams stay in range        *)
LowerM(m) == LET mn == MinOf({m[s] : s \in 1..Len(m)}) IN [s \in 1..Len(m) |-> IF m[s] >= INFM THEN INFM ELSE m[s] - mn]
RECURSIVE MetsNAux(_, _, _, _, _)
MetsNAux(T, O, bms, t, acc) == IF t > Len(bms) THEN acc ELSE MetsNAux(T, O, bms, t + 1, Append(acc, TLCEval(LowerM(Acs(T, O, acc[Len(acc)], bms[t])))))
MetsN(T, O, init, bms) == MetsNAux(T, O, bms, 1, <<init>>)
RECURSIVE PathMetAux(_, _, _, _, _, _, _)
PathMetAux(T, O, xs, bms, t, s, acc) == IF t > Len(xs) THEN <<s, acc>>
    ELSE PathMetAux(T, O, xs, bms, t + 1, T[s + 1][xs[t] + 1], acc + bms[t][O[s + 1][xs[t] + 1] + 1])
(* the input sequence xs leads to s with metric m from some initial state *)
Witness(T, O, init, bms, xs, s, m) ==
    \E s0 \in 0..(NST(T) - 1) : init[s0 + 1] < INFM /\ PathMetAux(T, O, xs, bms, 1, s0, init[s0 + 1]) = <<s, m>>

(* ---- streaming decisions ---- *)
(* states at time j (0-based) on minimum-metric paths that end in the states S at time t *)
RECURSIVE Trace(_, _, _, _, _, _, _)
Trace(T, O, ms, bms, t, S, j) == IF t = j THEN S
    ELSE Trace(T, O, ms, bms, t - 1, {e[1] : e \in UNION {BestEdges(T, O, ms[t], bms[t], s) : s \in S}}, j)
(* inputs at time j+1 (1-based) on minimum-metric paths to best states at time t *)
BestStates(met) == {s \in 0..(Len(met) - 1) : met[s + 1] < INFM /\ \A r \in 1..Len(met) : met[s + 1] <= met[r]}
Decisions(T, O, ms, bms, t, j) ==
    LET S == Trace(T, O, ms, bms, t, BestStates(ms[t + 1]), j)
    IN {e[2] : e \in UNION {BestEdges(T, O, ms[j], bms[j], s) : s \in S}}

(* ---- sums over paths ---- *)
(* g[x + 1][y + 1] : weight of input x with output y at this time *)
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + SumSet(S \ {e}, f)
EdgeW(O, g, e) == g[e[2] + 1][O[e[1] + 1][e[2] + 1] + 1]
Fwd(T, O, a, g) == [s1 \in 1..NST(T) |-> LET E == Edges(T, s1 - 1) IN SumSet(E, [e \in E |-> a[e[1] + 1] * EdgeW(O, g, e)])]
Bwd(T, O, b, g) == [s0 \in 1..NST(T) |-> LET E == {s0 - 1} \X (0..(NIN(T) - 1)) IN SumSet(E, [e \in E |-> b[T[e[1] + 1][e[2] + 1] + 1] * EdgeW(O, g, e)])]
RECURSIVE FwdAux(_, _, _, _, _)
FwdAux(T, O, gs, t, acc) == IF t > Len(gs) THEN acc ELSE FwdAux(T, O, gs, t + 1, Append(acc, TLCEval(Fwd(T, O, acc[Len(acc)], gs[t]))))
RECURSIVE BwdAux(_, _, _, _, _)
BwdAux(T, O, gs, t, acc) == IF t = 0 THEN acc ELSE BwdAux(T, O, gs, t - 1, <<TLCEval(Bwd(T, O, acc[1], gs[t]))>> \o acc)
(* Post[t][x + 1] : sum of the weights of all paths whose t-th input is x *)
Posts(T, O, gs, ini, fin) ==
    LET al == FwdAux(T, O, gs, 1, <<ini>>) be == BwdAux(T, O, gs, Len(gs), <<fin>>) IN
    [t \in 1..Len(gs) |-> [x \in 1..NIN(T) |-> LET E == (0..(NST(T) - 1)) \X {x - 1} IN
        SumSet(E, [e \in E |-> al[t][e[1] + 1] * EdgeW(O, gs[t], e) * be[t + 1][T[e[1] + 1][e[2] + 1] + 1]])]]
(* ---- sums over paths in the semiring of leading orders: <<e, a>> is a * B^e, *)
(* B larger than everything; <<e, a>> + <<f, b>> keeps the terms of higher order ---- *)
ZeroO == <<-100000, 0>>
PlusO(p, q) == IF p[1] > q[1] THEN p ELSE IF q[1] > p[1] THEN q ELSE <<p[1], p[2] + q[2]>>
TimesO(p, q) == IF p = ZeroO \/ q = ZeroO THEN ZeroO ELSE <<p[1] + q[1], p[2] * q[2]>>
MaxO(S) == CHOOSE m \in S : \A x \in S : x <= m
RECURSIVE SumO(_, _)
SumO(S, f) == IF S = {} THEN ZeroO ELSE LET e == CHOOSE e \in S : TRUE IN PlusO(f[e], SumO(S \ {e}, f))
RECURSIVE FwdO(_, _, _, _, _)
FwdO(T, O, gs, t, acc) == IF t > Len(gs) THEN acc
    ELSE FwdO(T, O, gs, t + 1, Append(acc, TLCEval([s1 \in 1..NST(T) |-> LET Ed == Edges(T, s1 - 1) IN
        SumO(Ed, [e \in Ed |-> TimesO(acc[Len(acc)][e[1] + 1], EdgeW(O, gs[t], e))])])))
RECURSIVE BwdO(_, _, _, _, _)
BwdO(T, O, gs, t, acc) == IF t = 0 THEN acc
    ELSE BwdO(T, O, gs, t - 1, <<TLCEval([s0 \in 1..NST(T) |-> LET Ed == {s0 - 1} \X (0..(NIN(T) - 1)) IN
        SumO(Ed, [e \in Ed |-> TimesO(acc[1][T[e[1] + 1][e[2] + 1] + 1], EdgeW(O, gs[t], e))])])>> \o acc)
PostsO(T, O, gs, ini, fin) ==
    LET al == FwdO(T, O, gs, 1, <<ini>>) be == BwdO(T, O, gs, Len(gs), <<fin>>) IN
    [t \in 1..Len(gs) |-> [x \in 1..NIN(T) |-> LET Ed == (0..(NST(T) - 1)) \X {x - 1} IN
        SumO(Ed, [e \in Ed |-> TimesO(TimesO(al[t][e[1] + 1], EdgeW(O, gs[t], e)), be[t + 1][T[e[1] + 1][e[2] + 1] + 1])])]]
=============================================================================
