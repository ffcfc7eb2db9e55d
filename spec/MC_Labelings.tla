---------------------------- MODULE MC_Labelings ----------------------------
(* A mapper and a demapper connected back to back: the mapper emits the bits *)
(* of one index at a time, the demapper collects bits and emits an index     *)
(* whenever it has m of them.                                                *)
EXTENDS Labelings
CONSTANTS MaxM, MaxLen
VARIABLES lab, todo, sent, wire, got, phase
Perms(n) == {f \in [1..n -> 1..n] : \A x, y \in 1..n : x # y => f[x] # f[y]}
General(m) == {[a \in 1..Pow(2, m) |-> Natural(m)[f[a]]] : f \in Perms(Pow(2, m))}
Small == General(1) \cup General(2)
Labs == Small \cup {Natural(m) : m \in 1..MaxM} \cup {Reflected(m) : m \in 1..MaxM}
        \cup {Prod2(A, B) : A \in General(1) \cup {Reflected(2)}, B \in General(1) \cup General(2)}
        \cup {Prod2(Reflected(p), Reflected(q)) : p \in 1..(MaxM - 1), q \in 1..(MaxM - 1)}
M == Len(lab[1])
Init == /\ lab \in Labs /\ todo \in UNION {[1..l -> 0..(Len(lab) - 1)] : l \in 1..(IF Len(lab) > 8 THEN 1 ELSE MaxLen)}
        /\ sent = 0 /\ wire = <<>> /\ got = <<>> /\ phase = <<>>
Map == /\ sent < Len(todo) /\ Len(wire) < 2 * M /\ wire' = wire \o lab[todo[sent + 1] + 1] /\ sent' = sent + 1 /\ UNCHANGED <<lab, todo, got, phase>>
Take == /\ wire # <<>> /\ Len(phase) < M /\ phase' = Append(phase, Head(wire)) /\ wire' = Tail(wire) /\ UNCHANGED <<lab, todo, sent, got>>
Emit == /\ Len(phase) = M /\ got' = Append(got, IndexOf(lab, phase)) /\ phase' = <<>> /\ UNCHANGED <<lab, todo, sent, wire>>
Next == Map \/ Take \/ Emit
Bijection == IsLabeling(lab)
Delivered == \A j \in 1..Len(got) : got[j] = todo[j]
AllDelivered == (sent = Len(todo) /\ wire = <<>> /\ phase = <<>>) => got = todo /\ ToIdx(lab, ToBits(lab, todo)) = todo
GrayRing == \A m \in 1..MaxM : LET r == Reflected(m) n == Len(r) IN
    \A a \in 1..n : Hamming(r[a], r[(a % n) + 1]) = 1
Grid == \A p, q \in 1..2 : LET r == Prod2(Reflected(p), Reflected(q)) w == Pow(2, q) IN
    \A a, b \in 1..Len(r) : ((b = a + w) \/ (b = a + 1 /\ (a - 1) \div w = (b - 1) \div w)) => Hamming(r[a], r[b]) = 1
Binary == \A m \in 1..MaxM : \A a \in 1..Pow(2, m) : Value(Natural(m)[a], 2) = a - 1
(* row by row, the closed form is the recursive construction *)
NatD(m) == [kind |-> "natural", m |-> m]
RefD(m) == [kind |-> "reflected", m |-> m]
Rows == /\ \A m \in 1..(MaxM + 2) : \A a \in 1..Pow(2, m) : RowOf(RefD(m), a - 1) = Reflected(m)[a] /\ RowOf(NatD(m), a - 1) = Natural(m)[a]
        /\ \A x, y \in 1..MaxM : LET A == Prod2(Reflected(x), Reflected(y)) IN \A a \in 1..Len(A) : RowOf([kind |-> "rect", mi |-> x, mq |-> y], a - 1) = A[a]
        /\ \A x, y, z \in 1..2 : LET A == ProdL(<<Reflected(x), Natural(y), Reflected(z)>>) IN
              \A a \in 1..Len(A) : RowOf([kind |-> "product", parts |-> <<RefD(x), NatD(y), RefD(z)>>], a - 1) = A[a]
ASSUME Rows
=============================================================================
