--------------------------- MODULE BlockCodeTrace ---------------------------
(* Trace specification of block code objects (C14 mappings, C15 queries,     *)
(* C16 families, C17 cyclic structure).  The session header carries the      *)
(* generator and check matrices the object reported; "new" checks them       *)
(* against the definition the object was built from; every later event is    *)
(* checked against those matrices.  The facts about the code that queries    *)
(* ask for are computed once, in step "facts", and kept in the state.        *)
EXTENDS Families, Conv, TraceKit
VARIABLES c, i, words, wd, cosets, leaders
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
vars == <<c, i, words, wd, cosets, leaders>>
n == S.n
k == S.k
m == S.m

------------------------------------------------------------------------------
(* the blockwise mappings: an array of any shape, block by block on its last axis *)
Last(s) == s[Len(s)]
RECURSIVE ProdAux(_, _, _)
ProdAux(s, j, acc) == IF j > Len(s) THEN acc ELSE ProdAux(s, j + 1, acc * s[j])
ShapeTo(sh, from, to) == [sh EXCEPT ![Len(sh)] = (@ \div from) * to]
Blocks(x, b) == [a \in 1..(Len(x) \div b) |-> SubSeq(x, (a - 1) * b + 1, a * b)]
IsCW(v) == \A j \in 1..m : Dot2(S.H[j], v) = 0
(* codeword test against the generator matrix: used to judge the check matrix itself *)
NBlocks(x, b) == ProdAux(x.shape, 1, 1) \div b

EncodeBad(e) ==
    Viol("shape", e.v.shape = ShapeTo(e.x.shape, k, n))
    \cup Viol("encode", LET X == Blocks(e.x.d, k) IN e.v.d = Flatten([a \in 1..Len(X) |-> VecMat(X[a], S.G, n)]))
CheckBad(e) ==
    Viol("shape", e.v.shape = ShapeTo(e.x.shape, n, m))
    \cup Viol("syndrome", LET X == Blocks(e.x.d, n) IN e.v.d = Flatten([a \in 1..Len(X) |-> Syndrome(S.H, X[a])]))
(* x is the message array whose encoding y was given *)
InverseBad(e) ==
    LET Y == Blocks(e.y.d, n) IN
    IF \E a \in 1..Len(Y) : ~IsCW(Y[a]) THEN (IF e.op = "inverse" THEN Viol("non-codeword-accepted", Refused(e)) ELSE {})
    ELSE IF ~e.ok THEN {"raised"}
    ELSE Viol("shape", e.v.shape = ShapeTo(e.y.shape, n, k))
         \cup Viol("inverse", LET U == Blocks(e.v.d, k) IN /\ Len(U) = Len(Y)
                                                           /\ \A a \in 1..Len(U) : Bit(U[a]) /\ VecMat(U[a], S.G, n) = Y[a])

Unit(j, len) == [h \in 1..len |-> IF h = j THEN 1 ELSE 0]
SysG(P, info) ==  \* generator matrix of the systematic code
    LET kk == Len(P)
        par == LET RECURSIVE Q(_, _)
                   Q(j, acc) == IF j = n THEN acc ELSE Q(j + 1, IF \E a \in 1..Len(info) : info[a] = j THEN acc ELSE Append(acc, j))
               IN Q(0, <<>>)
        At(s, j) == CHOOSE a \in 1..Len(s) : s[a] = j
    IN [a \in 1..kk |-> [j \in 1..n |-> IF \E b \in 1..Len(info) : info[b] = j - 1
                                        THEN (IF info[a] = j - 1 THEN 1 ELSE 0)
                                        ELSE P[a][At(par, j - 1)]]]
DefBad ==
    CASE S.def.t = "G" -> Viol("generator-matrix", S.G = S.def.M)
      [] S.def.t = "H" -> Viol("check-matrix", S.H = S.def.M)
      [] S.def.t = "P" -> Viol("systematic-form", S.G = SysG(S.def.P, S.def.info))
      [] S.def.t = "cyclic" -> CyclicBad(S, S.def)
      [] S.def.t \in {"term", "termlow"} -> TermBad(S, S.def)
      [] S.def.t = "none" -> {}
      [] OTHER -> FamilyBad(S, S.def)
NewBad ==
    Viol("dimensions", n = k + m /\ Len(S.G) = k /\ (S.def.t = "termlow" \/ Len(S.H) = m)
                       /\ (\A a \in 1..k : Len(S.G[a]) = n /\ Bit(S.G[a])) /\ (\A a \in 1..Len(S.H) : Len(S.H[a]) = n /\ Bit(S.H[a])))
    \cup Viol("GHt-nonzero", Orthogonal(S.G, S.H))
    \cup Viol("rank", S.def.t = "termlow" \/ (Rank(S.G) = k /\ Rank(S.H) = m))
    \cup DefBad

------------------------------------------------------------------------------
PackBits(v) == Pack(v)
SynColumns == [j \in 1..n |-> Pack(Col(S.H, j))]
MD == IF wd = <<>> THEN SynMin(SynColumns, m)
      ELSE CHOOSE d \in 1..n : wd[d + 1] > 0 /\ \A e \in 1..(d - 1) : wd[e + 1] = 0
CR == CHOOSE d \in 0..n : (\E s \in DOMAIN cosets : cosets[s] = d) /\ \A s \in DOMAIN cosets : cosets[s] <= d
SynC(HP, x) == LET y == PackC(x) IN Pack([b \in 1..Len(HP) |-> DotCAux(HP[b], y, 1, 0)])
LeadersBad(v) ==
    LET HP == PackRowsC(S.H) IN
    Viol("leader-count", Len(v) = Pow(2, m))
    \cup Viol("leader-syndrome", \A s \in 1..Len(v) : Len(v[s]) = n /\ SynC(HP, v[s]) = s - 1)
    \cup Viol("leader-weight", \A s \in 1..Len(v) : Wt(v[s]) = cosets[s - 1])
    \cup Viol("leaders-changed", leaders = <<>> \/ leaders = v)
RateOK(v) == (v * n - 1000000 * k) \in (-n)..n
CWAt(j) == Unpack(words[j + 1], n)
CallBad(e) ==
    CASE e.op = "badnew" -> Viol("invalid-definition-accepted", Refused(e))
      [] e.op = "badshape" -> Viol("bad-size-accepted", Refused(e))
      \* one long terminated message, followed on the machine itself
      [] e.op = "tpath" -> LET us == Chunks(e.x, e.k0) IN
                           IF ~e.ok THEN {"raised"}
                           ELSE Viol("terminated-path",
                              CASE e.mode = "direct-truncation" -> e.v = TruncPath(e.M, e.n0, e.sigma, us)
                                [] e.mode = "zero-termination" -> Len(e.v) = (e.h + e.mu) * e.n0 /\ ZeroTermOK(e.M, e.n0, e.k0, e.sigma, us, e.v)
                                [] e.mode = "tail-biting" -> TailBiteOK(e.M, e.n0, e.sigma, us, e.v))
      [] e.op = "tback" -> IF ~e.ok THEN {"raised"} ELSE Viol("inverse", e.v = e.x)
      [] e.op = "tbnew" -> Viol("tail-biting-possible", e.ok = TailBitePossible(e.M, e.n0, e.k0, e.sigma, e.h))
      [] e.op \in {"inverse", "project"} -> InverseBad(e)
      [] e.op = "cyc-inverse" -> CycInvBad(e)
      [] e.op = "bose" -> Viol("bose-distance", e.ok = IsBose(e.mu, e.delta))
      [] ~e.ok -> {"raised"}
      [] e.op = "new" -> NewBad
      [] e.op = "facts" -> {}
      [] e.op = "length" -> Viol("length", e.v = n)
      [] e.op = "dimension" -> Viol("dimension", e.v = k)
      [] e.op = "redundancy" -> Viol("redundancy", e.v = m)
      [] e.op = "rate" -> Viol("rate", RateOK(e.v))
      [] e.op = "ginv" -> Viol("right-inverse", Len(e.v) = n /\ \A a \in 1..k : VecMat(S.G[a], e.v, k) = Unit(a, k))
      [] e.op = "infoset" -> Viol("information-set", Len(e.v) = k /\ \A a \in 1..k : \A b \in 1..k : S.G[b][e.v[a] + 1] = IF a = b THEN 1 ELSE 0)
      [] e.op = "parset" -> Viol("parity-set", Len(e.v) = m /\ \A a \in 1..m : \A b \in 1..m : S.H[b][e.v[a] + 1] = IF a = b THEN 1 ELSE 0)
      [] e.op = "gmatrix" -> Viol("generator-matrix-changed", e.v = S.G)
      [] e.op = "hmatrix" -> Viol("check-matrix-changed", e.v = S.H)
      [] e.op = "encode" -> EncodeBad(e)
      [] e.op = "check" -> CheckBad(e)
      \* ---- queries ----
      [] e.op = "codewords" -> Viol("codewords", Len(e.v) = Len(words) /\ \A j \in 1..Len(words) : Len(e.v[j]) = n /\ (IF n > 30 THEN PackC(e.v[j]) ELSE Pack(e.v[j])) = words[j])
      [] e.op = "cwd" -> Viol("codeword-weights", e.v = wd)
      [] e.op = "dmin" -> Viol("minimum-distance", e.v = MD)
      [] e.op = "packing" -> Viol("packing-radius", e.v = (MD - 1) \div 2)
      [] e.op = "leaders" -> LeadersBad(e.v)
      [] e.op = "cld" -> Viol("coset-weights", e.v = HistOf(cosets, n))
      [] e.op = "covering" -> Viol("covering-radius", e.v = CR)
      [] e.op = "saentry" -> Viol("slepian-entry", Pack(Syndrome(S.H, e.v)) = e.i /\ (leaders # <<>> => XorV(leaders[e.i + 1], CWAt(e.j)) = e.v)
                                                   /\ (e.j = 0 => Wt(e.v) = cosets[e.i]))
      [] e.op = "sarow" -> Viol("slepian-row", /\ Len(e.v) = Pow(2, k)
                                               /\ Wt(e.v[1]) = cosets[e.i] /\ Pack(Syndrome(S.H, e.v[1])) = e.i
                                               /\ (leaders # <<>> => e.v[1] = leaders[e.i + 1])
                                               /\ \A j \in 1..Len(e.v) : XorV(e.v[1], CWAt(j - 1)) = e.v[j])
      [] e.op = "sacol" -> Viol("slepian-col", /\ Len(e.v) = Pow(2, m)
                                               /\ \A s \in 1..Len(e.v) : /\ Pack(Syndrome(S.H, e.v[s])) = s - 1
                                                                         /\ Wt(XorV(e.v[s], CWAt(e.j))) = cosets[s - 1]
                                                                         /\ leaders # <<>> => XorV(leaders[s], CWAt(e.j)) = e.v[s])
      [] OTHER -> FamilyEventBad(S, e)

Init == c \in 1..Len(Cases) /\ i = 0 /\ words = <<>> /\ wd = <<>> /\ cosets = <<>> /\ leaders = <<>>
Done == (i + 1 = Len(Ev)) => Accept(c)
Facts == E.op = "facts"
Next == /\ i < Len(Ev)
        /\ LET bad == CallBad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ Done /\ i' = i + 1 /\ c' = c
        \* the list of codewords, packed (in chunks when long); or only the weights, from the columns of H
        /\ CASE Facts /\ E.words = "span" -> LET w == Span(PackRows(S.G)) IN words' = w /\ wd' = WeightDist(w, n)
             [] Facts /\ E.words = "chunk" -> LET w == SpanC(S.G) IN words' = w /\ wd' = WeightDistC(w, n)
             [] Facts /\ E.words = "syn" -> wd' = SynWD(SynColumns, m) /\ UNCHANGED words
             [] OTHER -> UNCHANGED <<words, wd>>
        /\ IF Facts /\ E.cosets THEN cosets' = CosetWeights({Pack(Col(S.H, j)) : j \in 1..n}) ELSE UNCHANGED cosets
        /\ leaders' = IF E.op = "leaders" /\ E.ok /\ leaders = <<>> THEN E.v ELSE leaders
=============================================================================
