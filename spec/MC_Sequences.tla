---------------------------- MODULE MC_Sequences ----------------------------
(* Shift registers run from every polynomial and start state; the other      *)
(* families are checked in their first state.                                *)
EXTENDS SeqLib
CONSTANTS N, LogL, ZcL
VARIABLES mode, p, r, out
vars == <<mode, p, r, out>>
RegInit == \E n \in 1..N : \E q \in [1..n -> {0, 1}] : \E s \in [1..n -> {0, 1}] :
              q[n] = 1 /\ mode = "lfsr" /\ p = q /\ r = s /\ out = <<>>
WhInit == \E w \in 0..LogL : mode = "wh" /\ p = <<Pow2(w)>> /\ \E k \in 0..(Pow2(w) - 1) : r = <<k>> /\ out = <<>>
BkInit == \E L \in {2, 3, 4, 5, 7, 11, 13} : mode = "barker" /\ p = <<L>> /\ r = <<0>> /\ out = <<>>
ZcInit == \E L \in {x \in 3..ZcL : x % 2 = 1} : \E q \in 1..(L - 1) : mode = "zc" /\ p = <<L, q>> /\ r = <<0>> /\ out = <<>>
Init == RegInit \/ WhInit \/ BkInit \/ ZcInit
Next == /\ mode = "lfsr" /\ Len(out) < 2 * Pow2(Len(p))
        /\ out' = Append(out, Out(r)) /\ r' = ShiftReg(p, r) /\ UNCHANGED <<mode, p>>
Spec == Init /\ [][Next]_vars
Full == mode = "lfsr" /\ Len(out) = 2 * Pow2(Len(p))
Period == Pow2(Len(p)) - 1
Recurrence == mode = "lfsr" => Recurs(p, out)
Primitive2 == (Full /\ Primitive(p) /\ r # [j \in 1..Len(p) |-> 0]) =>
    LET s == SubSeq(out, 1, Period) x == Polar(s) IN
    /\ \A m \in 1..(Len(out) - Period) : out[m + Period] = out[m]
    /\ \A l \in 1..(Period - 1) : CrossR(x, x, l) = -1
    /\ Cardinality({m \in 1..Period : s[m] = 1}) = (Period + 1) \div 2
(* Primitive agrees with the order of the register *)
OrderOK == (Full /\ r # [j \in 1..Len(p) |-> 0]) =>
    (Primitive(p) <=> Cardinality({SubSeq(out, m + 1, m + Len(p)) : m \in 0..(Period - 1)}) = Period)
WalshOK == mode = "wh" => LET L == p[1] k == r[1] IN
    /\ SignChanges(SeqRow(L, k)) = k
    /\ \A j \in 0..(L - 1) : j # k => CrossR(HRow(L, k), HRow(L, j), 0) = 0
    /\ \A j \in 0..(L - 1) : SeqIdx(L, j) = SeqIdx(L, k) => j = k
    /\ L > 1 => LET h == HRow(L \div 2, k % (L \div 2)) sg == IF k >= L \div 2 THEN -1 ELSE 1 IN
                HRow(L, k) = h \o [j \in 1..(L \div 2) |-> sg * h[j]]
BarkerOK == mode = "barker" => LET x == Polar(Barker(p[1])) IN \A l \in 1..(p[1] - 1) : Abs(AutoR(x, l)) <= 1
(* the exponents of z[n] conj(z[n - l]) are constant, or uniform on a coset of *)
(* a nontrivial subgroup (whose roots of unity add to zero)                   *)
ZcOK == mode = "zc" => LET L == p[1] q == p[2] IN \A l \in 0..(L - 1) :
    LET ex(n) == (ZcPhase(L, q, n) - ZcPhase(L, q, (n - l) % L)) % L
        cnt(v) == Cardinality({n \in 0..(L - 1) : ex(n) = v})
        vals == {ex(n) : n \in 0..(L - 1)}
    IN IF ZcPeak(L, q, l) THEN vals = {ZcCorrPhase(L, q, l)}
       ELSE LET g == Gcd(q * l, L) IN /\ Cardinality(vals) = L \div g /\ L \div g > 1
                                      /\ \A v \in vals : cnt(v) = g /\ (v + g) % L \in vals
ZcAtOK == mode = "zc" => \A n \in 0..(p[1] - 1) : ZcPhaseAt(p[1], p[2], n) = ZcPhase(p[1], p[2], n)
ZcCoprime == mode = "zc" => (Gcd(p[2], p[1]) = 1 => \A l \in 1..(p[1] - 1) : ~ZcPeak(p[1], p[2], l))
(* every prefix of a register's output, with values 3 + i and -2 for its bits *)
RECURSIVE RunsOf(_, _)
RunsOf(z, acc) == IF z = <<>> THEN acc
    ELSE IF acc # <<>> /\ acc[Len(acc)][1] = z[1] THEN RunsOf(Tail(z), [acc EXCEPT ![Len(acc)] = <<z[1], @[2] + 1>>])
    ELSE RunsOf(Tail(z), Append(acc, <<z[1], 1>>))
RunForm == (mode = "lfsr" /\ Len(out) \in 1..9) =>
    LET z == [j \in 1..Len(out) |-> IF out[j] = 0 THEN <<3, 1>> ELSE <<-2, 0>>] q == RunsOf(z, <<>>) IN
    \A l \in (-Len(out) - 1)..(Len(out) + 1) : RunAuto(q, l) = AutoCorr(z, l) /\ RunCyc(q, l) = CycCorr(z, l)
=============================================================================
