--------------------------- MODULE QuantizerTrace ---------------------------
(* S.def: general [y, t], uniform [L, th] or lloyd [b, w, L].  Numbers are    *)
(* integers in the session's unit; S.exact says that unit is a power of two,  *)
(* so that inputs on a threshold are decided exactly.                        *)
EXTENDS Quantizers, TraceKit
VARIABLES c, i, q
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
(* a Lloyd-Max quantizer is judged by its conditions of optimality, so its    *)
(* levels and thresholds (in hundredths) are read from the implementation     *)
Denote(d) == CASE d.kind = "general" -> [y |-> d.y, t |-> d.t]
               [] d.kind = "uniform" -> [y |-> ULevels(d.L, d.th), t |-> UThresholds(d.L, d.th)]
               [] d.kind = "riser" -> [y |-> ULevels(d.L, MidRiser(d.L)), t |-> UThresholds(d.L, MidRiser(d.L))]
               [] d.kind = "tread" -> [y |-> ULevels(d.L, MidTread(d.L)), t |-> UThresholds(d.L, MidTread(d.L))]
               [] d.kind = "lloyd" -> [y |-> d.y, t |-> d.t]
Near(x, k) == \/ InCell(q.t, x, k)
              \/ ~S.exact /\ k + 1 \in 1..Len(q.t) /\ q.t[k + 1] = x         \* just below the threshold
CloseSeq(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Abs(a[j] - b[j]) <= (IF S.exact THEN 0 ELSE 1)
CentroidOK == LET b == S.def.b w == S.def.w IN \A k \in 1..Len(q.y) :
    LET lo == Edge(q.t, k - 1, b[1], b[Len(b)]) hi == Edge(q.t, k, b[1], b[Len(b)]) m == Mass(b, w, lo, hi)
    IN m > 0 => Abs(2 * q.y[k] * m - Mom1x2(b, w, lo, hi)) <= 2 * 8 * m
Bad(e) ==
    CASE e.op = "bad" -> Viol("invalid-accepted", Refused(e))
      [] ~e.ok -> {"raised"}
      [] e.op = "levels" -> Viol("levels", CloseSeq(e.v, q.y))
      [] e.op = "thresholds" -> Viol("thresholds", CloseSeq(e.v, q.t))
      [] e.op = "digitize" -> Viol("shape", e.v.shape = e.x.shape)
                              \cup Viol("cell", Len(e.v.d) = Len(e.x.d) /\ \A a \in 1..Len(e.x.d) : Near(e.x.d[a], e.v.d[a]))
      [] e.op = "quantize" -> Viol("shape", e.v.shape = e.x.shape)
                              \cup Viol("level", Len(e.v.d) = Len(e.x.d) /\ \A a \in 1..Len(e.x.d) :
                                    \E k \in 0..Len(q.t) : Near(e.x.d[a], k) /\ Abs(e.v.d[a] - q.y[k + 1]) <= (IF S.exact THEN 0 ELSE 1))
      \* inputs named by a threshold and a side of it (0 : the threshold itself, which opens the upper cell)
      [] e.op = "edges" -> Viol("cell", e.v = [a \in 1..Len(e.x) |-> e.x[a][1] + (IF e.x[a][2] >= 0 THEN 1 ELSE 0)])
      [] e.op = "mse" -> LET s == Msex3(q.y, q.t, e.b, e.w) m == Mass(e.b, e.w, e.b[1], e.b[Len(e.b)])
                         IN Viol("mse", Abs(e.v - (100 * s) \div (3 * m)) <= 20 + (2 * s) \div (3 * m))
      [] e.op = "order" -> Viol("ordered", Interleaved(q.y, q.t) \/ ~e.v)
      [] e.op = "midpoints" -> Viol("midpoints", Len(q.t) = Len(q.y) - 1 /\ \A j \in 1..Len(q.t) : Abs(2 * q.t[j] - q.y[j] - q.y[j + 1]) <= 8)
      [] e.op = "centroids" -> Viol("centroids", CentroidOK)
      [] e.op = "count" -> Viol("count", Len(q.y) = S.def.L)
      [] e.op = "same" -> Viol("argument-modified", e.v)
Init == c \in 1..Len(Cases) /\ i = 0 /\ q = Denote(Cases[c].def)
Next == /\ i < Len(Ev)
        /\ LET bad == Bad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ (i + 1 = Len(Ev)) => Accept(c)
        /\ i' = i + 1 /\ UNCHANGED <<c, q>>
=============================================================================
