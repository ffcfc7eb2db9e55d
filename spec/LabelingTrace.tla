--------------------------- MODULE LabelingTrace ---------------------------
(* S.def is the definition the labeling was constructed from; the matrix is  *)
(* the one the definition denotes, never the one the implementation reports. *)
EXTENDS Labelings, TraceKit
VARIABLES c, i, lab
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
Basic(d) == CASE d.kind = "natural" -> Natural(d.m)
              [] d.kind = "reflected" -> Reflected(d.m)
              [] d.kind = "rect" -> Prod2(Reflected(d.mi), Reflected(d.mq))
              [] d.kind = "general" -> d.mat
Denote(d) == IF d.kind = "product" THEN ProdL(RepL([a \in 1..Len(d.parts) |-> Basic(d.parts[a])], d.repeat)) ELSE Basic(d)
M == Len(lab[1])
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
(* v = <<sign of L, 1000 exp|L|>> *)
INFV == 2000000000
LOK(v, p, q) == IF p = q THEN v[2] \in 999..1001
                ELSE IF p > q THEN v[1] = 1 /\ (IF q = 0 THEN v[2] = INFV ELSE Abs(v[2] * q - 1000 * p) <= 2 * q + p \div 1000)
                ELSE v[1] = -1 /\ (IF p = 0 THEN v[2] = INFV ELSE Abs(v[2] * p - 1000 * q) <= 2 * p + q \div 1000)
MargBad(e) == LET n == Len(lab) g == Len(e.x.d) \div n IN
    Viol("shape", e.v.shape = Append(Front(e.x.shape), (Last(e.x.shape) \div n) * M) /\ Len(e.v.d) = g * M)
    \cup (IF Len(e.v.d) # g * M THEN {}
          ELSE Viol("marginals", \A a \in 1..g : LET w == SubSeq(e.x.d, (a - 1) * n + 1, a * n) IN
                   \A j \in 1..M : LOK(e.v.d[(a - 1) * M + j], Marg(lab, w, j, 0), Marg(lab, w, j, 1))))
Bad(e) ==
    CASE e.op = "bad" -> Viol("invalid-accepted", Refused(e))
      [] ~e.ok -> {"raised"}
      [] e.op = "matrix" -> Viol("matrix", e.v = lab)
      [] e.op = "nbits" -> Viol("num-bits", e.v = M)
      [] e.op = "card" -> Viol("cardinality", e.v = Len(lab))
      [] e.op = "invmap" -> Viol("inverse-mapping", /\ Len(e.v) = Len(lab)
                                 /\ \A a \in 1..Len(e.v) : e.v[a][2] \in 0..(Len(lab) - 1) /\ lab[e.v[a][2] + 1] = e.v[a][1])
      [] e.op = "i2b" -> Viol("shape", e.v.shape = Append(Front(e.x.shape), Last(e.x.shape) * M))
                         \cup Viol("bits", e.v.d = ToBits(lab, e.x.d))
      [] e.op = "b2i" -> Viol("shape", e.v.shape = Append(Front(e.x.shape), Last(e.x.shape) \div M))
                         \cup Viol("indices", e.v.d = ToIdx(lab, e.x.d))
      \* wide labelings: flat sequences of indices and bits
      [] e.op = "wi2b" -> Viol("bits", e.v = Flatten([a \in 1..Len(e.x) |-> RowOf(S.def, e.x[a])]))
      [] e.op = "wb2i" -> LET w == WidthOf(S.def) IN
                          Viol("indices", Len(e.v) * w = Len(e.x) /\ \A a \in 1..Len(e.v) :
                              e.v[a] \in 0..(Pow(2, w) - 1) /\ RowOf(S.def, e.v[a]) = SubSeq(e.x, (a - 1) * w + 1, a * w))
      [] e.op = "wcard" -> Viol("cardinality", e.v = Pow(2, WidthOf(S.def)))
      [] e.op = "wrow" -> Viol("matrix", e.v = RowOf(S.def, e.x))
      [] e.op = "marg" -> MargBad(e)
      [] e.op = "same" -> Viol("argument-modified", e.v)
Init == c \in 1..Len(Cases) /\ i = 0 /\ lab = IF Cases[c].wide THEN <<>> ELSE Denote(Cases[c].def)
Next == /\ i < Len(Ev)
        /\ LET bad == Bad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ (i + 1 = Len(Ev)) => Accept(c)
        /\ i' = i + 1 /\ UNCHANGED <<c, lab>>
=============================================================================
