---------------------------- MODULE MC_Trellis ----------------------------
(* Model of the trellis algorithms as they run: add-compare-select with      *)
(* survivors (any tie-break), a sliding decision window, and forward sums.   *)
(* Initial states range over all small machines (parallel edges and          *)
(* unreachable states included).                                             *)
EXTENDS Trellis
CONSTANTS N, X, Y, L, Tau, IM
VARIABLES T, O, init, bms, met, surv, al, win
vars == <<T, O, init, bms, met, surv, al, win>>
S0 == 0..(N - 1)
Bm == {b \in [1..Y -> 0..2] : \E y \in 1..Y : b[y] = 0}   \* branch metrics of the outputs
InitM == {m \in [1..N -> IM] : \E s \in 1..N : m[s] = 0}
(* branch weights for sums: 2^(2-metric) style, with zero allowed *)
W(b) == [x \in 1..X |-> [y \in 1..Y |-> IF b[y] = 2 THEN 0 ELSE 2 - b[y] + (x - 1)]]
Ini(m) == [s \in 1..N |-> IF m[s] = INFM THEN 0 ELSE 2 - m[s]]
Init == /\ T \in [1..N -> [1..X -> S0]] /\ O \in [1..N -> [1..X -> 0..(Y - 1)]]
        /\ \A x \in 1..(X - 1) : T[1][x] <= T[1][x + 1]   \* inputs up to renaming at state 0
        /\ init \in InitM /\ bms = <<>> /\ met = init
        /\ surv = [s \in 1..N |-> <<>>] /\ al = Ini(init) /\ win = <<>>
(* one trellis step; survivor = sequence of inputs, chosen among the minimal edges *)
ACS == /\ Len(bms) < L
       /\ \E b \in Bm : \E ch \in [1..N -> S0 \X (0..(X - 1))] :
            /\ \A s \in 1..N : LET be == BestEdges(T, O, met, b, s - 1) IN IF be = {} THEN ch[s] = <<0, 0>> ELSE ch[s] \in be
            /\ bms' = Append(bms, b)
            /\ met' = Acs(T, O, met, b)
            /\ surv' = [s \in 1..N |-> IF BestEdges(T, O, met, b, s - 1) = {} THEN <<>> ELSE Append(surv[ch[s][1] + 1], ch[s][2])]
            /\ al' = Fwd(T, O, al, W(b))
            /\ win' = IF Len(bms) < Tau THEN win
                      ELSE LET best == CHOOSE s \in BestStates(met') : TRUE IN Append(win, surv'[best + 1][Len(bms) + 1 - Tau])
            /\ UNCHANGED <<T, O, init>>
Next == ACS
Seqs(len) == [1..len -> 0..(X - 1)]
Paths == {<<s0, xs>> : s0 \in S0, xs \in Seqs(Len(bms))}
EndMet(p) == PathMetAux(T, O, p[2], bms, 1, p[1], init[p[1] + 1])
(* no path has a smaller metric, and the survivor attains it *)
Optimal == \A p \in Paths : init[p[1] + 1] < INFM => LET e == EndMet(p) IN met[e[1] + 1] <= e[2]
Attained == \A s \in S0 : met[s + 1] < INFM => Len(surv[s + 1]) = Len(bms) /\ Witness(T, O, init, bms, surv[s + 1], s, met[s + 1])
MetsRight == Mets(T, O, init, bms)[Len(bms) + 1] = met
(* every decision out of the window lies on a minimum-metric path to a best state at its time *)
WindowRight == \A d \in 1..Len(win) : win[d] \in Decisions(T, O, Mets(T, O, init, bms), bms, d + Tau, d)
(* the decision sets are exactly those of path enumeration (checked at the end) *)
DecisionsRight == Len(bms) = L =>
    LET ms == Mets(T, O, init, bms) best == MinOf({met[s] : s \in 1..N}) IN
    \A j \in 1..L : Decisions(T, O, ms, bms, L, j) =
        {p[2][j] : p \in {q \in Paths : init[q[1] + 1] < INFM /\ EndMet(q)[2] = best}}
RECURSIVE PathW(_, _, _, _)
PathW(p, t, s, acc) == IF t > Len(bms) THEN <<s, acc>>
    ELSE PathW(p, t + 1, T[s + 1][p[2][t] + 1], acc * W(bms[t])[p[2][t] + 1][O[s + 1][p[2][t] + 1] + 1])
RECURSIVE SumPaths(_, _)
SumPaths(P, acc) == IF P = {} THEN acc ELSE LET p == CHOOSE p \in P : TRUE IN SumPaths(P \ {p}, acc + PathW(p, 1, p[1], Ini(init)[p[1] + 1])[2])
ForwardRight == \A s \in S0 : al[s + 1] = SumPaths({p \in Paths : PathW(p, 1, p[1], 1)[1] = s}, 0)
PosteriorsRight == Len(bms) = L =>
    LET gs == [t \in 1..L |-> W(bms[t])] ps == Posts(T, O, gs, Ini(init), [s \in 1..N |-> 1]) IN
    \A t \in 1..L : \A x \in 0..(X - 1) : ps[t][x + 1] = SumPaths({p \in Paths : p[2][t] = x}, 0)
(* leading orders: best exponent and how many paths attain it (a forbidden initial state weighs nothing) *)
WO(b) == [x \in 1..X |-> [y \in 1..Y |-> <<-b[y], x>>]]
IniO == [s \in 1..N |-> IF init[s] = INFM THEN ZeroO ELSE <<-init[s], 1>>]
RECURSIVE PathO(_, _, _, _)
PathO(p, t, s, acc) == IF t > Len(bms) THEN acc
    ELSE PathO(p, t + 1, T[s + 1][p[2][t] + 1], TimesO(acc, WO(bms[t])[p[2][t] + 1][O[s + 1][p[2][t] + 1] + 1]))
RECURSIVE SumPathsO(_, _)
SumPathsO(P, acc) == IF P = {} THEN acc ELSE LET p == CHOOSE p \in P : TRUE IN SumPathsO(P \ {p}, PlusO(acc, PathO(p, 1, p[1], IniO[p[1] + 1])))
LeadingRight == Len(bms) = L =>
    LET ps == PostsO(T, O, [t \in 1..L |-> WO(bms[t])], IniO, [s \in 1..N |-> <<0, 1>>]) IN
    \A t \in 1..L : \A x \in 0..(X - 1) : ps[t][x + 1] = SumPathsO({p \in Paths : p[2][t] = x}, ZeroO)
(* lowering each step's metrics by their least changes no decision *)
LoweredRight == Len(bms) = L =>
    LET ms == Mets(T, O, init, bms) mn == MetsN(T, O, init, bms) IN
    \A j \in 1..L : Decisions(T, O, mn, bms, L, j) = Decisions(T, O, ms, bms, L, j)
=============================================================================
