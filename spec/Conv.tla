-------------------------------- MODULE Conv --------------------------------
(* Convolutional encoders.  P[i][j], Q[i] : polynomials (coefficient         *)
(* sequences, constant term first, no trailing zeros); the transfer matrix   *)
(* has entries P[i][j] / Q[i].  Blocks of bits are sequences; streams are    *)
(* sequences of blocks.                                                      *)
EXTENDS Gf2, TLC
AbsC(x) == IF x < 0 THEN -x ELSE x
(* ---- the reference encoder: one shift register per input (controller form) ---- *)
RowDeg(P, Q, i) == LET RECURSIVE M(_, _)
                       M(j, acc) == IF j > Len(P[i]) THEN acc ELSE M(j + 1, MaxI(acc, Len(P[i][j]) - 1))
                   IN M(1, MaxI(0, Len(Q[i]) - 1))
RefZero(P, Q) == [i \in 1..Len(P) |-> [a \in 1..RowDeg(P, Q, i) |-> 0]]
RECURSIVE DotFrom(_, _, _, _)
DotFrom(p, reg, a, acc) == IF a > Len(reg) THEN acc % 2 ELSE DotFrom(p, reg, a + 1, acc + At0(p, a + 1) * reg[a])
RefW(P, Q, reg, u) == TLCEval([i \in 1..Len(P) |-> (u[i] + DotFrom(Q[i], reg[i], 1, 0)) % 2])
RefOut(P, Q, reg, u) == LET w == RefW(P, Q, reg, u) IN
    [j \in 1..Len(P[1]) |-> Sum([i \in 1..Len(P) |-> At0(P[i][j], 1) * w[i] + DotFrom(P[i][j], reg[i], 1, 0)]) % 2]
RefReg(P, Q, reg, u) == LET w == RefW(P, Q, reg, u) IN
    [i \in 1..Len(P) |-> [a \in 1..Len(reg[i]) |-> IF a = 1 THEN w[i] ELSE reg[i][a - 1]]]
RECURSIVE RefRunAux(_, _, _, _, _, _)
RefRunAux(P, Q, us, t, reg, acc) == IF t > Len(us) THEN acc
    ELSE RefRunAux(P, Q, us, t + 1, TLCEval(RefReg(P, Q, reg, us[t])), Append(acc, TLCEval(RefOut(P, Q, reg, us[t]))))
RefRun(P, Q, us) == RefRunAux(P, Q, us, 1, RefZero(P, Q), <<>>)

(* ---- a realisation (A, B, C, D) ---- *)
(* M is a sequence of rows with w columns (w is needed when there are no rows) *)
SSOut(M, s, u, n) == XorV(VecMat(s, M.C, n), VecMat(u, M.D, n))
SSNext(M, s, u) == XorV(VecMat(s, M.A, Len(s)), VecMat(u, M.B, Len(s)))
RECURSIVE SSRunAux(_, _, _, _, _, _)
SSRunAux(M, n, us, t, s, acc) == IF t > Len(us) THEN [out |-> acc, s |-> s]
    ELSE SSRunAux(M, n, us, t + 1, TLCEval(SSNext(M, s, us[t])), Append(acc, TLCEval(SSOut(M, s, us[t], n))))
SSRun(M, n, us, s) == SSRunAux(M, n, us, 1, s, <<>>)
RECURSIVE FlatB(_, _, _)
FlatB(bs, t, acc) == IF t > Len(bs) THEN acc ELSE FlatB(bs, t + 1, acc \o bs[t])
FlatBits(bs) == FlatB(bs, 1, <<>>)
Chunks(x, b) == [a \in 1..(Len(x) \div b) |-> SubSeq(x, (a - 1) * b + 1, a * b)]
UnitB(i, k) == [a \in 1..k |-> IF a = i THEN 1 ELSE 0]
Impulse(i, k, len) == [t \in 1..len |-> IF t = 1 THEN UnitB(i, k) ELSE Zero(k)]
(* two linear systems with d1 and d2 delays are equal if their impulse       *)
(* responses agree for d1 + d2 + 1 steps                                     *)
Realises(M, n, k, sigma, P, Q) ==
    LET len == sigma + Sum([i \in 1..k |-> RowDeg(P, Q, i)]) + 2 IN
    \A i \in 1..k : SSRun(M, n, Impulse(i, k, len), Zero(sigma)).out = RefRun(P, Q, Impulse(i, k, len))
DimsOK(M, n, k, sigma) ==
    /\ Len(M.A) = sigma /\ \A a \in 1..sigma : Len(M.A[a]) = sigma /\ Bit(M.A[a])
    /\ Len(M.B) = k /\ \A a \in 1..k : Len(M.B[a]) = sigma /\ Bit(M.B[a])
    /\ Len(M.C) = sigma /\ \A a \in 1..sigma : Len(M.C[a]) = n /\ Bit(M.C[a])
    /\ Len(M.D) = k /\ \A a \in 1..k : Len(M.D[a]) = n /\ Bit(M.D[a])

------------------------------------------------------------------------------
(* The trellis of a machine: T[s + 1][x + 1] next state, O[s + 1][x + 1] output (packed). *)
NS(T) == Len(T)
NX(T) == Len(T[1])
RECURSIVE ReachFrom(_, _)
ReachFrom(T, S) == LET S2 == S \cup {T[s + 1][x] : s \in S, x \in 1..NX(T)} IN IF S2 = S THEN S ELSE ReachFrom(T, S2)
(* states from which the output can stay zero for ever *)
RECURSIVE QuietFix(_, _, _)
QuietFix(T, O, S) == LET S2 == {s \in S : \E x \in 1..NX(T) : O[s + 1][x] = 0 /\ T[s + 1][x] \in S} IN IF S2 = S THEN S ELSE QuietFix(T, O, S2)
Quiet(T, O) == QuietFix(T, O, 0..(NS(T) - 1))
(* smallest weight of a nonzero output sequence from state 0 : nodes <<s, f>>,  *)
(* f = 1 once some output was nonzero; L[w + 1] = nodes reached with weight w   *)
RECURSIVE ZeroClose(_, _, _)
ZeroClose(T, O, S) ==
    LET new == {q \in UNION {{<<T[p[1] + 1][x], p[2]>> : x \in {y \in 1..NX(T) : O[p[1] + 1][y] = 0}} : p \in S} : q \notin S}
    IN IF new = {} THEN S ELSE ZeroClose(T, O, S \cup new)
EdgesW(T, O, S, w) == UNION {{<<T[p[1] + 1][x], 1>> : x \in {y \in 1..NX(T) : Pop(O[p[1] + 1][y]) = w}} : p \in S}
RECURSIVE FreeAux(_, _, _, _, _, _)
FreeAux(T, O, Z, n, L, lim) ==
    LET w == Len(L)
        S == ZeroClose(T, O, UNION {EdgesW(T, O, L[w + 1 - d], d) : d \in 1..(IF w < n THEN w ELSE n)})
    IN IF \E p \in S : p[2] = 1 /\ p[1] \in Z THEN w
       ELSE IF w >= lim THEN -1 ELSE FreeAux(T, O, Z, n, Append(L, S), lim)
FreeDistance(T, O, n) == FreeAux(T, O, Quiet(T, O), n, <<ZeroClose(T, O, {<<0, 0>>})>>, n * (NS(T) + 2) * 2)
(* some input with infinitely many nonzero blocks has a finite output *)
ZeroSucc(T, O, S) == UNION {{T[s + 1][x] : x \in {y \in 1..NX(T) : O[s + 1][y] = 0}} : s \in S}
RECURSIVE ZReach(_, _, _)
ZReach(T, O, S) == LET S2 == S \cup ZeroSucc(T, O, S) IN IF S2 = S THEN S ELSE ZReach(T, O, S2)
Catastrophic(T, O) ==
    \E s \in ReachFrom(T, {0}) : \E x \in 2..NX(T) : O[s + 1][x] = 0 /\ s \in ZReach(T, O, {T[s + 1][x]})
FsmIs(M, n, k, sigma, T, O) ==
    /\ Len(T) = Pow(2, sigma) /\ Len(O) = Pow(2, sigma)
    /\ \A s \in 0..(Pow(2, sigma) - 1) : Len(T[s + 1]) = Pow(2, k) /\ Len(O[s + 1]) = Pow(2, k)
         /\ \A x \in 0..(Pow(2, k) - 1) :
              /\ T[s + 1][x + 1] = Pack(SSNext(M, Unpack(s, sigma), Unpack(x, k)))
              /\ O[s + 1][x + 1] = Pack(SSOut(M, Unpack(s, sigma), Unpack(x, k), n))

------------------------------------------------------------------------------
(* Terminated codes: u a message (blocks), v the output blocks. *)
TruncPath(M, n, sigma, us) == FlatBits(SSRun(M, n, us, Zero(sigma)).out)
(* states reachable from S by some inputs producing exactly the outputs vs[t..] *)
RECURSIVE Follow(_, _, _, _, _, _)
Follow(M, n, k, vs, t, S) == IF t > Len(vs) THEN S
    ELSE Follow(M, n, k, vs, t + 1,
                UNION {{SSNext(M, s, Unpack(x, k)) : x \in {y \in 0..(Pow(2, k) - 1) : SSOut(M, s, Unpack(y, k), n) = vs[t]}} : s \in S})
ZeroTermOK(M, n, k, sigma, us, v) ==
    LET r == SSRun(M, n, us, Zero(sigma)) vs == Chunks(v, n) h == Len(us) IN
    /\ SubSeq(vs, 1, h) = r.out
    /\ Zero(sigma) \in Follow(M, n, k, vs, h + 1, {r.s})
States(sigma) == {Unpack(s, sigma) : s \in 0..(Pow(2, sigma) - 1)}
TailBiteOK(M, n, sigma, us, v) == \E s \in States(sigma) : LET r == SSRun(M, n, us, s) IN r.s = s /\ FlatBits(r.out) = v
TailBitePossible(M, n, k, sigma, h) ==
    \A i \in 1..k : \A b \in 1..h : \E s \in States(sigma) : SSRun(M, n, [t \in 1..h |-> IF t = b THEN UnitB(i, k) ELSE Zero(k)], s).s = s
MsgBlocks(a, k, h) == [t \in 1..h |-> [i \in 1..k |-> IF (t - 1) * k + i = a THEN 1 ELSE 0]]
TermBad(S, d) ==
    LET n0 == d.n0 k0 == d.k0 h == d.h sg == d.sigma
        V(name, ok) == IF ok THEN {} ELSE {name}
        len == (IF d.mode = "zero-termination" THEN h + d.mu ELSE h) * n0
    IN V("realisation", DimsOK(d.M, n0, k0, sg) /\ Realises(d.M, n0, k0, sg, d.P, d.Q))
       \cup V("terminated-length", S.n = len /\ S.k = h * k0)
       \cup V("terminated-path", \A a \in 1..S.k : LET us == MsgBlocks(a, k0, h) IN
              CASE d.mode = "direct-truncation" -> S.G[a] = TruncPath(d.M, n0, sg, us)
                [] d.mode = "zero-termination" -> ZeroTermOK(d.M, n0, k0, sg, us, S.G[a])
                [] d.mode = "tail-biting" -> TailBiteOK(d.M, n0, sg, us, S.G[a]))
=============================================================================
