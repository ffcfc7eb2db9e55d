---------------------------- MODULE ChannelTrace ----------------------------
(* Sessions: generators are seeded, objects (channels, sources, chains) are   *)
(* created on them or on the current global generator, used, re-parametrised. *)
(* The trace specification keeps, for every generator, its seed and history,  *)
(* and for every object its present definition and its generator.             *)
EXTENDS Channels, TraceKit
VARIABLES c, i, objs, gens, cur, calls, log
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
Abs(x) == IF x < 0 THEN -x ELSE x
Drawing == {"tx", "emit", "sim", "gx"}
RECURSIVE Prod(_)
Prod(s) == IF s = << >> THEN 1 ELSE s[1] * Prod(Tail(s))
Isqrt(v) == CHOOSE k \in 0..2000 : k * k <= v /\ v < (k + 1) * (k + 1)
RECURSIVE SumF(_, _, _, _)
SumF(f(_), lo, hi, acc) == IF lo > hi THEN acc ELSE SumF(f, lo + 1, hi, acc + f(lo))

(* ---- calls and histories ---- *)
Obj(e) == objs[e.o]
SameArgs(a, b) == IF a.op # b.op THEN FALSE
                  ELSE IF a.op = "emit" THEN a.sh = b.sh
                  ELSE IF a.op = "sim" THEN a.x = b.x /\ a.steps = b.steps
                  ELSE a.x = b.x
Known(e) == {q \in 1..Len(calls) : calls[q].d = Obj(e).d /\ SameArgs(Ev[calls[q].j], e)}
CallId(e) == IF Known(e) = {} THEN Len(calls) + 1 ELSE CHOOSE q \in Known(e) : TRUE
GenOf(e) == gens[Obj(e).g]
HistAfter(e) == Append(GenOf(e).h, CallId(e))
Earlier(e) == {q \in 1..Len(log) : log[q].s = GenOf(e).s /\ log[q].h = HistAfter(e)}
Replay(e) == \A q \in Earlier(e) : Ev[log[q].j].v = e.v

(* ---- discrete channels and sources ---- *)
Positions(x, a) == {k \in 1..Len(x) : x[k] = a}
LawOK(d, x, y) == \A a \in 0..(NumIn(d) - 1) :
    LET A == Positions(x, a) m == Cardinality(A) IN
    m >= 100 => \A b \in 0..(NumOut(d) - 1) : Within(Cardinality({k \in A : y[k] = b}), m, Weight(d, a, b), d.D)
(* disjoint pairs of uses at distance L are independent *)
PairsOK(d, x, y, L) == \A a1, a2 \in 0..(NumIn(d) - 1) :
    LET A == {k \in 1..(Len(x) - L) : ((k \div L) % 2) = 0 /\ x[k] = a1 /\ x[k + L] = a2} m == Cardinality(A) IN
    m >= 60 => \A b1 \in 0..(NumOut(d) - 1) : \A b2 \in 0..(NumOut(d) - 1) :
        Within(Cardinality({k \in A : y[k] = b1 /\ y[k + L] = b2}), m, Weight(d, a1, b1) * Weight(d, a2, b2), d.D * d.D)
Lags(shape) == {L \in {Prod(SubSeq(shape, k + 1, Len(shape))) : k \in 1..Len(shape)} : 0 < L /\ L < Prod(shape)} \cup {1}
Stat(d, x, y, shape) ==
    IF Len(x) < 100 THEN {}
    ELSE Viol("law", LawOK(d, x, y)) \cup Viol("independence", \A L \in Lags(shape) : PairsOK(d, x, y, L))
TxBad(e) == LET d == Obj(e).d x == e.x.d y == e.v.d IN
    Viol("shape", e.v.shape = e.x.shape /\ Len(y) = Len(x))
    \cup Viol("integer-output", e.int)
    \cup Viol("input-modified", e.unmod)
    \cup (IF Len(y) # Len(x) THEN {}
          ELSE Viol("support", \A k \in 1..Len(x) : Allowed(d, x[k], y[k])) \cup Stat(d, x, y, e.x.shape))
Zeros(n) == [k \in 1..n |-> 0]
EmitBad(e) == LET d == Obj(e).d y == e.v.d IN
    Viol("shape", e.v.shape = e.sh /\ Len(y) = Prod(e.sh))
    \cup Viol("integer-output", e.int)
    \cup Viol("support", \A k \in 1..Len(y) : Allowed(d, 0, y[k]))
    \cup Stat(d, Zeros(Len(y)), y, e.sh)
SimBad(e) == LET d == Obj(e).d y == e.v IN
    Viol("path-length", Len(y) = e.steps /\ (e.steps > 0 => y[1] = e.x))
    \cup Viol("support", \A k \in 1..(Len(y) - 1) : Allowed(d, y[k], y[k + 1]))

(* repeating a call later on the same generator, or on one seeded differently, gives independent outputs *)
Others(e) == {q \in 1..Len(log) : /\ Ev[log[q].j].op = e.op /\ log[q].d = Obj(e).d /\ SameArgs(Ev[log[q].j], e)
                                  /\ (log[q].s # GenOf(e).s \/ log[q].h # HistAfter(e))}
JointOK(d, x, y1, y2) == Len(y1) = Len(x) /\ Len(y2) = Len(x) /\ \A a \in 0..(NumIn(d) - 1) :
    LET A == Positions(x, a) m == Cardinality(A) IN
    m >= 100 => \A b1, b2 \in 0..(NumOut(d) - 1) :
        Within(Cardinality({k \in A : y1[k] = b1 /\ y2[k] = b2}), m, Weight(d, a, b1) * Weight(d, a, b2), d.D * d.D)
FreshOK(e, x, y) == IF Len(y) < 100 THEN TRUE
                    ELSE \A q \in Others(e) : JointOK(Obj(e).d, x, Ev[log[q].j].v.d, y)

(* ---- the Gaussian channel: W is the noise power in squared units ---- *)
Comp(V, n, m) ==     \* one real component of variance V, noise samples n
    LET sd == Isqrt(V)
        s1 == SumF(LAMBDA k : n[k], 1, m, 0)
        s2 == SumF(LAMBDA k : n[k] * n[k], 1, m, 0)
        z1 == (10 * s1) \div sd
        z2 == Abs((s2 - m * V) \div (V \div 10)) IN
    Viol("mean", z1 * z1 <= 4200 * m)
    \cup Viol("noise-power", z2 <= 400 \/ (z2 - 400) * (z2 - 400) <= 8400 * m)
    \cup Viol("normal", /\ \A k \in 1..m : Abs(n[k]) <= 7 * sd + 1
                        /\ Within(Cardinality({k \in 1..m : Abs(n[k]) <= sd}), m, 683, 1000)
                        /\ Within(Cardinality({k \in 1..m : Abs(n[k]) <= 2 * sd}), m, 954, 1000))
Cross(V, f(_), m) == LET z == Abs(SumF(f, 1, m, 0) \div (V \div 10)) IN z <= 400 \/ (z - 400) * (z - 400) <= 4200 * m
LagOK(V, n, m, L) == Cross(V, LAMBDA k : n[k] * n[k + L], m - L)
GxBad(e) == LET d == Obj(e).d m == Len(e.x.re) cp == e.cplx IN
    Viol("shape", e.v.shape = e.x.shape /\ Len(e.v.re) = m /\ Len(e.v.im) = (IF cp THEN m ELSE 0))
    \cup Viol("real-or-complex", e.v.cplx = cp)
    \cup Viol("input-modified", e.unmod)
    \cup (IF Len(e.v.re) # m \/ Len(e.v.im) # (IF cp THEN m ELSE 0) THEN {}
          ELSE IF d.W = 0 THEN Viol("noiseless", e.v.re = e.x.re /\ (cp => e.v.im = e.x.im))
          ELSE IF m < 400 THEN Viol("noise-power", \A k \in 1..m : Abs(e.v.re[k] - e.x.re[k]) <= 7 * Isqrt(d.W) + 8)
          ELSE LET nr == [k \in 1..m |-> e.v.re[k] - e.x.re[k]]
                   ni == IF cp THEN [k \in 1..m |-> e.v.im[k] - e.x.im[k]] ELSE << >>
                   V == IF cp THEN d.W \div 2 ELSE d.W IN
               Comp(V, nr, m)
               \cup (IF cp THEN Comp(V, ni, m) \cup Viol("circular", Cross(V, LAMBDA k : nr[k] * ni[k], m)) ELSE {})
               \cup Viol("white", \A L \in Lags(e.x.shape) : LagOK(V, nr, m, L) /\ (cp => LagOK(V, ni, m, L))))

GFresh(e) == LET d == Obj(e).d m == Len(e.x.re) V == IF e.cplx THEN d.W \div 2 ELSE d.W IN
    IF m < 400 \/ d.W = 0 THEN TRUE
    ELSE \A q \in Others(e) : LET f == Ev[log[q].j] IN
            Len(f.v.re) = m /\ Len(e.v.re) = m /\ Cross(V, LAMBDA k : (e.v.re[k] - e.x.re[k]) * (f.v.re[k] - f.x.re[k]), m)
TmOK(d, v) == /\ Len(v) = NumIn(d)
              /\ \A a \in 1..Len(v) : /\ Len(v[a]) = NumOut(d)
                    /\ \A b \in 1..NumOut(d) : Abs(v[a][b] * d.D - 1000000 * Weight(d, a - 1, b - 1)) <= d.D
(* one very long call with constant input: counts of every output, of joint   *)
(* occurrences at many distances (disjoint pairs)                            *)
RECURSIVE SumSeq(_, _)
SumSeq(v, j) == IF j > Len(v) THEN 0 ELSE v[j] + SumSeq(v, j + 1)
RECURSIVE SumSq(_, _, _)
SumSq(d, a, b) == IF b >= NumOut(d) THEN 0 ELSE Weight(d, a, b) * Weight(d, a, b) + SumSq(d, a, b + 1)
BigBad(e) == LET d == e.d IN
    Viol("law", /\ Len(e.cnt) = NumOut(d) /\ SumSeq(e.cnt, 1) = e.n
                /\ \A b \in 1..Len(e.cnt) : Within(e.cnt[b], e.n, Weight(d, e.a, b - 1), d.D))
    \cup Viol("independence", \A j \in 1..Len(e.lags) : Within(e.lags[j][3], e.lags[j][2], SumSq(d, e.a, 0), d.D * d.D))
Bad(e) ==
    CASE e.op = "bad" -> Viol("invalid-accepted", Refused(e))
      [] ~e.ok -> {"raised"}
      [] e.op \in {"seed", "global", "new", "set"} -> {}
      [] e.op = "big" -> BigBad(e)
      [] e.op = "tm" -> Viol("transition-matrix", TmOK(Obj(e).d, e.v))
      [] e.op = "card" -> Viol("cardinalities", e.v = <<NumIn(Obj(e).d), NumOut(Obj(e).d)>>)
      [] e.op = "pmf" -> Viol("pmf", TmOK(Obj(e).d, <<e.v>>))
      [] e.op = "size" -> Viol("cardinalities", e.v = NumOut(Obj(e).d))
      [] e.op = "tx" -> TxBad(e) \cup Viol("fresh", FreshOK(e, e.x.d, e.v.d)) \cup Viol("not-repeatable", Replay(e))
      [] e.op = "emit" -> EmitBad(e) \cup Viol("fresh", FreshOK(e, Zeros(Len(e.v.d)), e.v.d)) \cup Viol("not-repeatable", Replay(e))
      [] e.op = "sim" -> SimBad(e) \cup Viol("not-repeatable", Replay(e))
      [] e.op = "gx" -> GxBad(e) \cup Viol("fresh", GFresh(e)) \cup Viol("not-repeatable", Replay(e))
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == /\ c \in 1..Len(Cases) /\ i = 0 /\ cur = 0 /\ calls = << >> /\ log = << >>
        /\ objs = << >> /\ gens = << >>
Next == /\ i < Len(Ev)
        /\ LET bad == Bad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ (i + 1 = Len(Ev)) => Accept(c)
        /\ i' = i + 1 /\ UNCHANGED c
        /\ gens' = IF E.op = "seed" THEN Put(gens, E.g, [s |-> E.s, h |-> << >>])
                   ELSE IF E.op \in Drawing THEN Put(gens, Obj(E).g, [s |-> GenOf(E).s, h |-> HistAfter(E)]) ELSE gens
        /\ cur' = IF E.op = "global" THEN E.g ELSE cur
        /\ objs' = IF E.op = "new" THEN Put(objs, E.o, [d |-> E.d, g |-> IF E.g = 0 THEN cur ELSE E.g])
                   ELSE IF E.op = "set" THEN Put(objs, E.o, [d |-> [Obj(E).d EXCEPT !.W = E.w], g |-> Obj(E).g]) ELSE objs
        /\ calls' = IF E.op \in Drawing /\ Known(E) = {} THEN Append(calls, [j |-> i + 1, d |-> Obj(E).d]) ELSE calls
        /\ log' = IF E.op \in Drawing /\ E.ok THEN Append(log, [s |-> GenOf(E).s, h |-> HistAfter(E), j |-> i + 1, d |-> Obj(E).d]) ELSE log
=============================================================================
