------------------------------ MODULE Channels ------------------------------
(* Memoryless channels and sources with rational laws, and the pseudo-random  *)
(* generators that drive them.                                               *)
(*                                                                           *)
(* A definition is a record [k, W, D]: kind, weights, denominator.            *)
(*   bsc/bec/z : W is the parameter's numerator; dmc, mc : matrix of weights; *)
(*   dms : vector of weights; gauss : W/D is the noise power.                 *)
(* A generator is its seed and the history of calls made on it: what a call   *)
(* produces is determined by the two, and by nothing else.                    *)
EXTENDS Integers, Sequences, FiniteSets, Stats
RowsOf(d) ==
    CASE d.k = "bsc" -> << <<d.D - d.W, d.W>>, <<d.W, d.D - d.W>> >>
      [] d.k = "bec" -> << <<d.D - d.W, 0, d.W>>, <<0, d.D - d.W, d.W>> >>
      [] d.k = "z"   -> << <<d.D, 0>>, <<d.W, d.D - d.W>> >>
      [] d.k \in {"dmc", "mc"} -> d.W
      [] d.k = "dms" -> << d.W >>
(* weight of output y for input x (a source has the single input 0) *)
Weight(d, x, y) == LET M == RowsOf(d) IN
    IF x + 1 \in 1..Len(M) /\ y + 1 \in 1..Len(M[1]) THEN M[x + 1][y + 1] ELSE 0
Allowed(d, x, y) == Weight(d, x, y) > 0
NumIn(d) == Len(RowsOf(d))
NumOut(d) == Len(RowsOf(d)[1])
=============================================================================
