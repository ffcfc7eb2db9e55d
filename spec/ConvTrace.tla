------------------------------ MODULE ConvTrace ------------------------------
(* Trace specification of convolutional codes (C07, C13).  The session       *)
(* header carries the transfer matrix the code was built from (P, Q) and the *)
(* realisation M and machine (T, O) it reported.                             *)
EXTENDS Conv, TraceKit
VARIABLES c, i, st
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
vars == <<c, i, st>>
n == S.n
k == S.k
sigma == S.sigma
M == S.M
Nus == [a \in 1..k |-> RowDeg(S.P, S.Q, a)]
RECURSIVE MaxOf(_, _, _)
MaxOf(v, j, acc) == IF j > Len(v) THEN acc ELSE MaxOf(v, j + 1, MaxI(acc, v[j]))
EncBad(e, r) == Viol("output", e.v.y = FlatBits(r.out)) \cup Viol("final-state", e.v.s = r.s)
CallBad(e) ==
    CASE e.op = "badstate" -> Viol("bad-state-accepted", Refused(e))
      [] ~e.ok -> {"raised"}
      [] e.op = "new" -> Viol("dimensions", DimsOK(M, n, k, sigma)) \cup Viol("realisation", DimsOK(M, n, k, sigma) => Realises(M, n, k, sigma, S.P, S.Q))
      [] e.op = "sizes" -> Viol("sizes", e.v = <<Len(S.P), Len(S.P[1]), sigma>>)
      [] e.op = "nus" -> Viol("constraint-lengths", e.v = Nus)
      [] e.op = "overall" -> Viol("overall-constraint-length", e.v = Sum(Nus))
      [] e.op = "memory" -> Viol("memory-order", e.v = MaxOf(Nus, 1, 0))
      [] e.op = "statespace" -> Viol("state-space-changed", e.v = M)
      [] e.op = "gmat" -> Viol("generator-matrix", /\ Len(e.v) = k
                               /\ \A a \in 1..k : /\ Len(e.v[a]) = n
                                                  /\ \A j \in 1..n : e.v[a][j][2] # <<>> /\ MulS(e.v[a][j][1], S.Q[a]) = MulS(S.P[a][j], e.v[a][j][2]))
      [] e.op = "fsm" -> Viol("machine", FsmIs(M, n, k, sigma, e.v.T, e.v.O))
      [] e.op = "encode" -> Viol("encode", e.v = FlatBits(RefRun(S.P, S.Q, Chunks(e.x, k))))
      [] e.op = "encstate" -> EncBad(e, SSRun(M, n, Chunks(e.x, k), e.s))
      [] e.op = "start" -> {}
      \* one call with many blocks: its output is laid before the register window by window
      [] e.op = "endless" -> Viol("output-size", e.v = <<n * e.blocks, sigma>>)
      [] e.op = "window" -> Viol("output", e.y = FlatBits(SSRun(M, n, Chunks(e.x, k), st).out))
      [] e.op = "finish" -> Viol("final-state", e.s = st)
      [] e.op = "step" -> EncBad(e, SSRun(M, n, Chunks(e.x, k), st))
      [] e.op = "free" -> Viol("free-distance", e.v = FreeDistance(S.T, S.O, n))
      [] e.op = "catastrophic" -> Viol("catastrophic", e.v = Catastrophic(S.T, S.O))
Init == c \in 1..Len(Cases) /\ i = 0 /\ st = <<>>
Done == (i + 1 = Len(Ev)) => Accept(c)
Next == /\ i < Len(Ev)
        /\ LET bad == CallBad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ Done /\ i' = i + 1 /\ c' = c
        \* the state carried from call to call is the specification's own
        /\ st' = IF E.op = "start" THEN E.s ELSE IF E.op \in {"step", "window"} THEN SSRun(M, n, Chunks(E.x, k), st).s ELSE st
=============================================================================
