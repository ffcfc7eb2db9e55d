------------------------------ MODULE FsmTrace ------------------------------
(* Trace specification of finite-state machines: processing (C08), Viterbi   *)
(* (C09), streaming Viterbi (C10), forward-backward (C11), and the decoders  *)
(* of convolutional codes built on them.                                     *)
EXTENDS Trellis, TraceKit
VARIABLES c, i, st, ms, out
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
vars == <<c, i, st, ms, out>>
T == S.T
O == S.O
Bit2(y, j) == (y \div (2^j)) % 2
RECURSIVE SumSeq(_, _, _)
SumSeq(v, j, acc) == IF j > Len(v) THEN acc ELSE SumSeq(v, j + 1, acc + v[j])
AbsT(x) == IF x < 0 THEN -x ELSE x
IsMoore == S.moore
Proc(xs, s) == IF IsMoore THEN RunMoore(T, O, xs, s) ELSE Run(T, O, xs, s)
Outs == IF IsMoore THEN {O[s] : s \in 1..Len(O)} ELSE UNION {{O[s][x] : x \in 1..Len(O[s])} : s \in 1..Len(O)}
(* an edge matrix: entry (s0, s1) an input (output) of some edge from s0 to s1, -1 if none *)
EdgeMatOK(v, Of(_, _)) == /\ Len(v) = NST(T)
    /\ \A a \in 1..NST(T) : /\ Len(v[a]) = NST(T)
         /\ \A b \in 1..NST(T) : LET X == {x \in 1..NIN(T) : T[a][x] = b - 1} IN
              IF X = {} THEN v[a][b] = -1 ELSE \E x \in X : v[a][b] = Of(a, x)
(* ---- branch metrics of received blocks ---- *)
BmOf(z, nn, soft) == [y \in 1..(2^nn) |-> SumSeq([j \in 1..nn |-> IF soft THEN Bit2(y - 1, j - 1) * z[j]
                                                                ELSE IF Bit2(y - 1, j - 1) = z[j] THEN 0 ELSE 1], 1, 0)]
Bms(x, nn, soft) == TLCEval([t \in 1..(Len(x) \div nn) |-> BmOf(SubSeq(x, (t - 1) * nn + 1, t * nn), nn, soft)])
At(s) == [r \in 1..NST(T) |-> IF r = s + 1 THEN 0 ELSE INFM]
SymsOf(b, kk) == [t \in 1..(Len(b) \div kk) |-> SumSeq([j \in 1..kk |-> b[(t - 1) * kk + j] * 2^(j - 1)], 1, 0)]
(* ---- Viterbi ---- *)
TabBms(e) == [t \in 1..Len(e.z) |-> e.tab[e.z[t] + 1]]
VitBad(e) ==
    LET bms == TabBms(e)
        L == Len(bms)
        M1 == Mets(T, O, e.init, bms)[L + 1]
        In == [t \in 1..L |-> e.v.xs[t]]
    IN Viol("metrics", e.v.m = M1)
       \cup Viol("shape", Len(e.v.xs) = L /\ \A t \in 1..L : Len(e.v.xs[t]) = NST(T))
       \cup Viol("path", \A s \in 1..NST(T) : M1[s] < INFM =>
                /\ \A t \in 1..L : In[t][s] \in 0..(NIN(T) - 1)
                /\ Witness(T, O, e.init, bms, [t \in 1..L |-> In[t][s]], s - 1, M1[s]))
(* ---- Viterbi decoding of terminated codes: u is a most likely message ---- *)
VdecBad(e) ==
    LET nn == S.n0 kk == S.k0 len == (S.h + S.tail) * nn
        B == Len(e.x.d) \div len
        per == S.h * kk
        OneOK(x, u) ==
            LET bms == Bms(x, nn, e.soft)
                r == PathMetAux(T, O, SymsOf(u, kk), SubSeq(bms, 1, S.h), 1, 0, 0)
                fin == Mets(T, O, At(0), bms)[Len(bms) + 1]
                own == Mets(T, O, [s \in 1..NST(T) |-> IF s = r[1] + 1 THEN r[2] ELSE INFM], SubSeq(bms, S.h + 1, Len(bms)))[Len(bms) - S.h + 1]
                goal(m) == IF S.zero THEN m[1] ELSE MinOf({m[s] : s \in 1..NST(T)})
            IN /\ \A j \in 1..Len(u) : u[j] \in {0, 1}
               /\ goal(own) = goal(fin)
    IN Viol("shape", e.v.shape = [e.x.shape EXCEPT ![Len(e.x.shape)] = (@ \div len) * per])
       \cup Viol("not-most-likely", Len(e.v.d) = B * per /\ \A b \in 1..B : OneOK(SubSeq(e.x.d, (b - 1) * len + 1, b * len), SubSeq(e.v.d, (b - 1) * per + 1, b * per)))
(* large memories: the decoded message is at least as likely as the one sent *)
VdecwBad(e) ==
    LET bms == Bms(e.x, S.n0, e.soft)
        Met(u) == PathMetAux(T, O, SymsOf(u, S.k0), bms, 1, 0, 0)[2]
    IN IF ~(Len(e.v) = S.h * S.k0 /\ \A j \in 1..Len(e.v) : e.v[j] \in {0, 1}) THEN {"shape"}
       ELSE Viol("less-likely-than-sent", Met(e.v) <= Met(e.sent))
(* ---- streaming: the session holds the whole received stream; decoders     *)
(* consume it in calls of various sizes ---- *)
StreamBms == Bms(S.stream, S.n0, S.soft)
DecBad(e) ==
    LET kk == S.k0
        p == st                                     \* blocks consumed so far by this decoder
        syms == SymsOf(e.v, kk)
        bms == StreamBms
        q == Len(e.x) \div S.n0
        sub == SubSeq(S.stream, p * S.n0 + 1, (p + q) * S.n0)
    IN Viol("driver", e.x = sub)
       \cup Viol("length", Len(e.v) = q * kk /\ \A j \in 1..Len(e.v) : e.v[j] \in {0, 1})
       \cup (IF Len(e.v) # q * kk THEN {} ELSE
             Viol("decision", \A a \in 1..q : LET t == p + a IN
                  t > S.tau => syms[a] \in Decisions(T, O, ms, bms, t, t - S.tau))
             \cup Viol("chunking", \A a \in 1..q : (p + a) \in DOMAIN out => out[p + a] = syms[a]))
(* ---- forward-backward ---- *)
RECURSIVE ScaleV(_, _)
ScaleV(p, lim) == IF SumSeq(p, 1, 0) <= lim THEN p ELSE ScaleV([j \in 1..Len(p) |-> p[j] \div 2], lim)
PostOK(p, q) == LET s == ScaleV(p, 50000) tot == SumSeq(s, 1, 0) IN
    Len(q) = Len(p) /\ \A x \in 1..Len(p) : AbsT(q[x] * tot - 20000 * s[x]) <= 6 * tot + 40000
FbBad(e) ==
    LET L == Len(e.z)
        gs == TLCEval([t \in 1..L |-> [x \in 1..NIN(T) |-> [y \in 1..Len(e.tab[1]) |-> e.pri[t][x] * e.tab[e.z[t] + 1][y]]]])
        P == TLCEval(Posts(T, O, gs, e.ini, e.fin))
    IN Viol("posterior", Len(e.v) = L /\ \A t \in 1..L : PostOK(P[t], e.v[t]))
(* weights <<e, a>> standing for a * B^e with B beyond every ratio of interest: *)
(* only the leading order of each sum matters                                  *)
FbxBad(e) ==
    LET L == Len(e.z)
        gs == TLCEval([t \in 1..L |-> [x \in 1..NIN(T) |-> [y \in 1..Len(e.tab[1]) |-> TimesO(e.pri[t][x], e.tab[e.z[t] + 1][y])]]])
        P == TLCEval(PostsO(T, O, gs, e.ini, e.fin))
        OK(p, q) == LET top == MaxO({p[x][1] : x \in 1..Len(p)})
                        a == [x \in 1..Len(p) |-> IF p[x][1] = top THEN p[x][2] ELSE 0]
                    IN PostOK(a, q)
    IN Viol("posterior", Len(e.v) = L /\ \A t \in 1..L : OK(P[t], e.v[t]))
CallBad(e) ==
    CASE ~e.ok -> {"raised"}
      [] e.op = "num" -> Viol("counts", e.v = <<NST(T), NIN(T), 1 + (CHOOSE y \in Outs : \A z \in Outs : z <= y)>>)
      [] e.op = "inedges" -> Viol("input-edges", EdgeMatOK(e.v, LAMBDA a, x : x - 1))
      [] e.op = "outedges" -> Viol("output-edges", EdgeMatOK(e.v, LAMBDA a, x : O[a][x]))
      [] e.op = "tables" -> Viol("tables-changed", e.v.T = T /\ e.v.O = O)
      [] e.op = "process" -> LET r == Proc(e.x.d, e.s) IN Viol("output", e.v.y.d = r.y /\ e.v.y.shape = e.x.shape) \cup Viol("final-state", e.v.s = r.s)
      [] e.op = "start" -> {}
      [] e.op = "step" -> LET r == Proc(e.x, st) IN Viol("output", e.v.y = r.y) \cup Viol("final-state", e.v.s = r.s)
      [] e.op = "viterbi" -> VitBad(e)
      [] e.op = "vdec" -> VdecBad(e)
      [] e.op = "vdecw" -> VdecwBad(e)
      [] e.op = "fbx" -> FbxBad(e)
      [] e.op = "dec" -> DecBad(e)
      [] e.op = "fb" -> FbBad(e)
      [] e.op = "facts" -> {}
Init == c \in 1..Len(Cases) /\ i = 0 /\ st = 0 /\ ms = <<>> /\ out = <<>>
Done == (i + 1 = Len(Ev)) => Accept(c)
Next == /\ i < Len(Ev)
        /\ LET bad == CallBad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ Done /\ i' = i + 1 /\ c' = c
        /\ st' = IF E.op = "start" THEN E.s
                 ELSE IF E.op = "step" THEN Proc(E.x, st).s
                 ELSE IF E.op = "dec" THEN st + Len(E.x) \div S.n0 ELSE st
        /\ ms' = IF E.op = "facts" THEN MetsN(T, O, At(S.s0), StreamBms) ELSE ms
        \* the outputs of the first decoder are the reference for the others
        /\ out' = IF E.op = "dec" /\ E.ok /\ st = Len(out) THEN out \o SymsOf(E.v, S.k0) ELSE out
=============================================================================
