------------------------------- MODULE MC_Conv -------------------------------
(* The encoder as a machine: shift registers fed one block at a time.        *)
(* Initial states range over all small transfer matrices.                    *)
EXTENDS Conv
CONSTANTS K, N, Deg, L
VARIABLES P, Q, reg, us, vs
vars == <<P, Q, reg, us, vs>>
Polys == {Trim(Unpack(x, Deg + 1)) : x \in 0..(Pow(2, Deg + 1) - 1)}
Dens == {q \in Polys : At0(q, 1) = 1}
Blocks(b) == {Unpack(x, b) : x \in 0..(Pow(2, b) - 1)}
Init == /\ P \in [1..K -> [1..N -> Polys]] /\ Q \in [1..K -> Dens]
        /\ reg = RefZero(P, Q) /\ us = <<>> /\ vs = <<>>
Step == /\ Len(us) < L
        /\ \E u \in Blocks(K) : /\ us' = Append(us, u) /\ vs' = Append(vs, RefOut(P, Q, reg, u))
                                /\ reg' = RefReg(P, Q, reg, u) /\ UNCHANGED <<P, Q>>
Next == Step
Low(p, len) == [j \in 1..len |-> At0(p, j)]
Coord(bs, j) == [t \in 1..Len(bs) |-> bs[t][j]]
RECURSIVE ProdQ(_, _, _)
ProdQ(a, skip, acc) == IF a > K THEN acc ELSE ProdQ(a + 1, skip, IF a = skip THEN acc ELSE MulS(acc, Q[a]))
RECURSIVE SumP(_, _, _)
SumP(a, j, acc) == IF a > K THEN acc ELSE SumP(a + 1, j, AddS(acc, MulS(MulS(P[a][j], ProdQ(1, a, <<1>>)), Trim(Coord(us, a)))))
(* the output stream is the input stream times the transfer matrix, modulo D^t *)
Transfer == \A j \in 1..N : Low(MulS(ProdQ(1, 0, <<1>>), Trim(Coord(vs, j))), Len(us)) = Low(SumP(1, j, <<>>), Len(us))
RunRight == vs = RefRun(P, Q, us)
(* the controller form as matrices *)
Off(a) == Sum([b \in 1..(a - 1) |-> RowDeg(P, Q, b)])
Sg == Off(K + 1)
Row(s) == CHOOSE a \in 1..K : Off(a) < s /\ s <= Off(a + 1)
Ctl == [A |-> [s \in 1..Sg |-> [t \in 1..Sg |-> LET a == Row(s) IN
                   IF t = Off(a) + 1 /\ s > Off(a) THEN (At0(Q[a], s - Off(a) + 1) + (IF t = s + 1 /\ Row(t) = a THEN 1 ELSE 0)) % 2
                   ELSE IF t = s + 1 /\ Row(t) = a THEN 1 ELSE 0]],
        B |-> [a \in 1..K |-> [t \in 1..Sg |-> IF t = Off(a) + 1 /\ Row(t) = a THEN 1 ELSE 0]],
        C |-> [s \in 1..Sg |-> LET a == Row(s) IN [j \in 1..N |-> (At0(P[a][j], s - Off(a) + 1) + At0(P[a][j], 1) * At0(Q[a], s - Off(a) + 1)) % 2]],
        D |-> [a \in 1..K |-> [j \in 1..N |-> At0(P[a][j], 1)]]]
SSRight == SSRun(Ctl, N, us, Zero(Sg)) = [out |-> vs, s |-> FlatBits(reg)]
RealisesRight == us = <<>> => DimsOK(Ctl, N, K, Sg) /\ Realises(Ctl, N, K, Sg, P, Q)
(* cutting the stream anywhere changes nothing *)
Chunked == \A cut \in 0..Len(us) : LET a == SSRun(Ctl, N, SubSeq(us, 1, cut), Zero(Sg)) b == SSRun(Ctl, N, SubSeq(us, cut + 1, Len(us)), a.s)
                                   IN a.out \o b.out = vs /\ b.s = FlatBits(reg)
(* the machine can be driven to the zero state in memory-order steps *)
Mu == LET RECURSIVE X(_, _)
          X(a, m) == IF a > K THEN m ELSE X(a + 1, MaxI(m, RowDeg(P, Q, a)))
      IN X(1, 0)
Driven == \E tail \in [1..Mu -> Blocks(K)] : SSRun(Ctl, N, tail, FlatBits(reg)).s = Zero(Sg)
(* feedforward encoders are tail-biting for every block count *)
TailBite == (Len(us) = L /\ \A a \in 1..K : Q[a] = <<1>>) => TailBitePossible(Ctl, N, K, Sg, L)
=============================================================================
