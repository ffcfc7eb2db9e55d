----------------------------- MODULE MC_Channels -----------------------------
(* Design model.  A generator delivers a stream of draws u in 0..D-1; each    *)
(* channel use or source symbol takes the next one and inverts the cumulative *)
(* row.  Explored: two generators over every tape, two objects on them or on  *)
(* the current global generator, and every interleaving of uses.              *)
EXTENDS Channels, TLC
CONSTANTS MaxD, Len0
VARIABLES def, tape, pos, log, cur, mode
vars == <<def, tape, pos, log, cur, mode>>
Rows2(D) == {r \in [1..2 -> 0..D] : r[1] + r[2] = D}
Rows3(D) == {r \in [1..3 -> 0..D] : r[1] + r[2] + r[3] = D}
Defs == UNION {  {[k |-> "bsc", W |-> w, D |-> D] : w \in 0..D}
            \cup {[k |-> "bec", W |-> w, D |-> D] : w \in 0..D}
            \cup {[k |-> "z", W |-> w, D |-> D] : w \in 0..D}
            \cup {[k |-> "dms", W |-> r, D |-> D] : r \in Rows3(D)}
            \cup {[k |-> "dmc", W |-> <<a, b>>, D |-> D] : a \in Rows2(D), b \in Rows2(D)} : D \in 1..MaxD}
RECURSIVE Cum(_, _)
Cum(row, y) == IF y = 0 THEN 0 ELSE Cum(row, y - 1) + row[y]
Invert(row, u) == (CHOOSE y \in 1..Len(row) : Cum(row, y - 1) <= u /\ u < Cum(row, y)) - 1
Out(d, x, u) == Invert(RowsOf(d)[x + 1], u)

(* the law: pushing the uniform law of the draws through the inversion gives  *)
(* exactly the transition matrix, and every output is an allowed one          *)
LawOf(d) == \A x \in 0..(NumIn(d) - 1) :
              /\ \A y \in 0..(NumOut(d) - 1) : Cardinality({u \in 0..(d.D - 1) : Out(d, x, u) = y}) = Weight(d, x, y)
              /\ Cum(RowsOf(d)[x + 1], NumOut(d)) = d.D
(* two uses in a row are independent *)
PairLaw(d) == \A x1, x2 \in 0..(NumIn(d) - 1) : \A y1, y2 \in 0..(NumOut(d) - 1) :
              Cardinality({t \in (0..(d.D - 1)) \X (0..(d.D - 1)) : Out(d, x1, t[1]) = y1 /\ Out(d, x2, t[2]) = y2})
                 = Weight(d, x1, y1) * Weight(d, x2, y2)
ASSUME \A d \in Defs : LawOf(d) /\ PairLaw(d)
(* the statistical acceptance region contains the mean and excludes a law     *)
(* that is off by a fifth once there are enough samples                       *)
ASSUME \A D \in 2..6 : \A w \in 0..D : Within((1200 * w) \div D, 1200, w, D)
ASSUME ~Within(360, 1200, 1, 2) /\ ~Within(1200, 1200, 1, 2) /\ ~Within(400, 1200, 1, 6) /\ ~Within(20, 1200, 1, 6)

(* ---- the machine: which generator a call draws from ---- *)
Objs == {1, 2}
Gens == {1, 2}
Init == /\ def \in {d \in Defs : d.D = 2 /\ d.k \in {"bsc", "bec", "z", "dms"}}
        /\ tape \in [Gens -> [1..Len0 -> 0..1]]
        /\ pos = [g \in Gens |-> 0] /\ log = << >> /\ cur = 1
        /\ mode = [o \in Objs |-> 0]        \* 0: not created yet; otherwise its generator
Create(o) == mode[o] = 0 /\ \E g \in Gens \cup {0} : mode' = [mode EXCEPT ![o] = IF g = 0 THEN cur ELSE g]
             /\ UNCHANGED <<def, tape, pos, log, cur>>
SetGlobal(g) == cur' = g /\ g # cur /\ Len(log) < 2 * Len0 /\ UNCHANGED <<def, tape, pos, log, mode>>
Use(o, x) == /\ mode[o] # 0 /\ pos[mode[o]] < Len0
             /\ LET g == mode[o] p == pos[g] + 1 IN
                /\ pos' = [pos EXCEPT ![g] = p]
                /\ log' = Append(log, [g |-> g, x |-> x, y |-> Out(def, x, tape[g][p])])
             /\ UNCHANGED <<def, tape, cur, mode>>
Next == \/ \E o \in Objs : Create(o) \/ \E x \in 0..(NumIn(def) - 1) : Use(o, x)
        \/ \E g \in Gens : SetGlobal(g)
Spec == Init /\ [][Next]_vars
OnGen(g) == SelectSeq(log, LAMBDA r : r.g = g)
(* every output is allowed for its input *)
SupportInv == \A j \in 1..Len(log) : Allowed(def, log[j].x, log[j].y)
(* outputs on a generator are a function of its tape and the calls made on it, however the calls on other generators interleave *)
ReplayInv == \A g \in Gens : LET r == OnGen(g) IN \A j \in 1..Len(r) : r[j].y = Out(def, r[j].x, tape[g][j])
=============================================================================
