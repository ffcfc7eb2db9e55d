---------------------------- MODULE SequenceTrace ----------------------------
(* S.def: [kind |-> "bits", b], ["polar", x], ["lfsr", p, r0] (taps, start    *)
(* register), ["mls", n, r0], ["wh", L, ord, k], ["barker", L],               *)
(* ["complex", z] (Gaussian integers), ["zc", L, q].                         *)
EXTENDS SeqLib, TraceKit
VARIABLES c, i, x
S == Cases[c]
D == S.def
Ev == S.ev
E == Ev[i + 1]
(* the polar sequence where the definition determines it; shift-register      *)
(* sequences are generated by running the register                            *)
RECURSIVE Run(_, _, _, _)
Run(p, r, k, acc) == IF k = 0 THEN acc ELSE Run(p, TLCEval(ShiftReg(p, r)), k - 1, Append(acc, 1 - 2 * Out(r)))
Denote(d) == CASE d.kind = "bits" -> Polar(d.b)
               [] d.kind = "polar" -> d.x
               [] d.kind = "lfsr" -> Run(d.p, d.r0, Pow2(Len(d.p)) - 1, <<>>)
               [] d.kind = "wh" -> IF d.ord = "natural" THEN HRow(d.L, d.k) ELSE SeqRow(d.L, d.k)
               [] d.kind = "barker" -> Polar(Barker(d.L))
               [] d.kind = "complex" -> d.z
               [] d.kind = "zc" -> <<>>
               [] d.kind \in {"long", "runs"} -> <<>>
Bits == [j \in 1..Len(x) |-> (1 - x[j]) \div 2]
Shifts(e) == IF e.all THEN [j \in 1..Len(x) |-> j - 1] ELSE e.s
Val(op, l) == IF D.kind = "complex" THEN (IF op = "ac" THEN AutoCorr(x, l) ELSE CycCorr(x, l))
              ELSE <<IF op = "ac" THEN AutoR(x, l) ELSE CrossR(x, x, l), 0>>
Energy == Val("cc", 0)[1]
(* plain results are exact; normalised ones are in units of 1 / 10000 *)
Fits(v, w, norm) == IF norm THEN \A t \in 1..2 : Abs(v[t] * Energy - 10000 * w[t]) <= Energy ELSE v = w
CorrOK(e) == LET s == Shifts(e) IN Len(e.v) = Len(s) /\ \A j \in 1..Len(s) : Fits(e.v[j], Val(e.op, s[j]), e.norm)
(* Zadoff-Chu correlations: <<magnitude / L in thousandths, phase>> *)
ZcCorr(e) == LET s == IF e.all THEN [j \in 1..D.L |-> j - 1] ELSE e.s IN
    Len(e.v) = Len(s) /\ \A j \in 1..Len(s) : IF ZcPeak(D.L, D.q, s[j]) THEN e.v[j] = <<1000, ZcCorrPhase(D.L, D.q, s[j])>> ELSE e.v[j][1] = 0
TapsOf(b) == [j \in 1..(Len(b) - 1) |-> b[j + 1]]                              \* coefficients, least power first
Bad(e) ==
    CASE e.op = "bad" -> Viol("invalid-accepted", Refused(e))
      [] ~e.ok -> {"raised"}
      [] e.op = "bits" -> Viol("bits", e.v = Bits)
      [] e.op = "polar" -> Viol("polar", e.v = x)
      [] e.op = "length" -> Viol("length", e.v = IF D.kind = "zc" THEN D.L ELSE Len(x))
      [] e.op \in {"ac", "cc"} -> Viol(e.op, CorrOK(e))
      [] e.op \in {"rac", "rcc"} -> Viol(e.op, /\ Len(e.v) = Len(e.s)
              /\ \A j \in 1..Len(e.s) : LET f(l) == IF e.op = "rac" THEN RunAuto(D.q, l) ELSE RunCyc(D.q, l) w == f(e.s[j]) en == RunAuto(D.q, 0)[1] IN
                    IF e.norm THEN \A t \in 1..2 : Abs(e.v[j][t] - ((1000 * w[t]) \div en)) <= 1 ELSE e.v[j] = w)
      [] e.op = "poly" -> Viol("primitive", Len(e.v) = D.n + 1 /\ e.v[1] = 1 /\ Primitive(TapsOf(e.v)))
      [] e.op = "long" -> Viol("recurrence", LfsrOK(D.p, D.r0, e.v))
      [] e.op = "mls" -> Viol("recurrence", LfsrOK(TapsOf(e.p), D.r0, e.v))
      [] e.op = "mlscc" -> Viol("two-valued", \A j \in 1..Len(e.s) : e.v[j] = IF e.s[j] % (Pow2(D.n) - 1) = 0 THEN Pow2(D.n) - 1 ELSE -1)
      (* windows of the output of a register, at positions at (from zero) *)
      [] e.op = "hlen" -> Viol("length", e.v = Pow2(Len(D.p)) - 1)
      [] e.op = "windows" -> Viol("recurrence", /\ Len(e.v) = Len(e.at)
              /\ \A a \in 1..Len(e.at) : Len(e.v[a]) = 3 * Len(D.p) /\ Recurs(D.p, e.v[a])
              /\ \A j \in 1..Len(D.p) : e.v[1][j] = D.r0[Len(D.p) + 1 - j])
      (* sampled places of a row of the Hadamard matrix *)
      [] e.op = "whlen" -> Viol("length", e.v = D.L)
      [] e.op \in {"what", "whbits"} -> LET row == IF D.ord = "natural" THEN D.k ELSE SeqIdx(D.L, D.k) IN
              Viol("polar", Len(e.v) = Len(e.at) /\ \A j \in 1..Len(e.at) : (IF e.op = "what" THEN (1 - e.v[j]) \div 2 ELSE e.v[j]) = BitDot(row, e.at[j])
                                                  /\ (e.op = "what" => e.v[j] \in {-1, 1}))
      [] e.op = "whchg" -> Viol("sign-changes", e.v = D.k)
      [] e.op = "zcseq" -> Viol("phases", Len(e.v) = D.L /\ \A n \in 1..D.L : e.v[n] = <<1000, ZcPhase(D.L, D.q, n - 1)>>)
      [] e.op = "zcat" -> Viol("phases", Len(e.v) = Len(e.n) /\ \A j \in 1..Len(e.n) : e.v[j] = <<1000, ZcPhaseAt(D.L, D.q, e.n[j])>>)
      [] e.op = "zccc" -> Viol("cyclic-autocorrelation", ZcCorr(e))
      [] e.op = "seq" -> Viol("sequence", e.v = x)
      [] e.op = "same" -> Viol("argument-modified", e.v)
Init == c \in 1..Len(Cases) /\ i = 0 /\ x = Denote(Cases[c].def)
Next == /\ i < Len(Ev)
        /\ LET bad == Bad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ (i + 1 = Len(Ev)) => Accept(c)
        /\ i' = i + 1 /\ UNCHANGED <<c, x>>
=============================================================================
