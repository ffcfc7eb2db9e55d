----------------------------- MODULE CodesTrace -----------------------------
(* Trace specification for fixed-to-variable, variable-to-fixed and designed *)
(* (Huffman, Shannon, Fano, Tunstall) codes.  The encoder and decoder are    *)
(* stepped block by block: pos is how far the current input is consumed and  *)
(* out what has been produced; the event is explained when the machine       *)
(* consumes the whole input having produced exactly the recorded output.     *)
EXTENDS Codes, TraceKit
VARIABLES c, i, pos, out, facts   \* facts : what the whole code satisfies, settled once
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
vars == <<c, i, pos, out, facts>>

UP == UniquelyParsable(S.words)
PF == PrefixFree(S.words)
Lens == [a \in 1..Len(S.words) |-> Len(S.words[a])]
InAlpha(s, q) == \A j \in 1..Len(s) : s[j] \in 0..(q - 1)

------------------------------------------------------------------------------
(* The coding machines.  Each returns <<>> when stuck, or <<consumed, produced>>. *)
FVEncStep(x) == IF pos + S.k > Len(x) \/ ~ InAlpha(SubSeq(x, pos + 1, pos + S.k), S.X) THEN <<>>
                ELSE <<S.k, S.words[Value(SubSeq(x, pos + 1, pos + S.k), S.X) + 1]>>
FVDecStep(x) == LET a == WordAt(S.words, x, pos + 1) IN
                IF a = 0 THEN <<>> ELSE <<Len(S.words[a]), Digits(a - 1, S.X, S.k)>>
VFEncStep(x) == LET a == WordAt(S.words, x, pos + 1) IN
                IF a = 0 THEN <<>> ELSE <<Len(S.words[a]), S.twords[a]>>
TargetIdx(w) == LET q == {a \in 1..Len(S.twords) : S.twords[a] = w} IN IF q = {} THEN 0 ELSE CHOOSE a \in q : TRUE
VFDecStep(x) == IF pos + S.n > Len(x) \/ TargetIdx(SubSeq(x, pos + 1, pos + S.n)) = 0 THEN <<>>
                ELSE <<S.n, S.words[TargetIdx(SubSeq(x, pos + 1, pos + S.n))]>>

MStep(e) == CASE e.op = "fvenc" -> FVEncStep(e.x)
              [] e.op = "fvdec" -> FVDecStep(e.x)
              [] e.op = "vfenc" -> VFEncStep(e.x)
              [] e.op = "vfdec" -> VFDecStep(e.x)
Coding(e) == e.op \in {"fvenc", "fvdec", "vfenc", "vfdec"}
Facts == IF \E j \in 1..Len(Ev) : Coding(Ev[j])
         THEN [up |-> UP, pf |-> PF, fc |-> \E j \in 1..Len(Ev) : Ev[j].op \in {"vfenc", "vfdec"} /\ FullyCovering(S.words, S.X)]
         ELSE [up |-> FALSE, pf |-> FALSE, fc |-> FALSE]
Applicable(e) == CASE e.op \in {"fvenc"} -> facts.up
                   [] e.op = "fvdec" -> facts.up /\ facts.pf
                   [] e.op = "vfenc" -> facts.fc /\ facts.up /\ facts.pf
                   [] e.op = "vfdec" -> facts.fc /\ facts.up
(* a code that is uniquely decodable but not prefix-free may refuse to decode *)
MayRefuse(e) == (e.op = "fvdec" /\ facts.up /\ ~facts.pf) \/ (e.op = "vfenc" /\ facts.up /\ ~facts.pf)

(* verdict when the machine can make no further step *)
FinalBad(e) ==
    LET whole == pos = Len(e.x)
        rest == SubSeq(e.x, pos + 1, Len(e.x))
    IN IF ~Applicable(e) THEN (IF MayRefuse(e) THEN {} ELSE Viol("must-refuse", Refused(e)))
       ELSE IF whole THEN (IF e.ok THEN Viol("coding-output", e.v = out) ELSE {"raised"})
       ELSE IF e.op = "vfenc" /\ InAlpha(e.x, S.X)
       THEN \* unfinished last word: any dictionary word that extends it
            IF ~e.ok THEN {"raised"}
            ELSE Viol("completion", \E a \in 1..Len(S.words) : IsPre(rest, S.words[a]) /\ e.v = out \o S.twords[a])
       ELSE Viol("invalid-input-accepted", Refused(e))

------------------------------------------------------------------------------
FxOK(v, num, den) == Near(v, num, den, 10000, 2)

CallBad(e) ==
    CASE e.op = "badnew" -> Viol("invalid-definition-accepted", Refused(e))
      [] ~e.ok -> {"raised"}
      [] e.op = "new" -> {}
      [] e.op = "ud" -> Viol("uniquely-decodable", e.v = UP)
      [] e.op = "pf" -> Viol("prefix-free", e.v = PF)
      [] e.op = "fc" -> Viol("fully-covering", e.v = FullyCovering(S.words, S.X))
      [] e.op = "ue" -> Viol("uniquely-encodable", e.v = UP)
      [] e.op = "kraft" -> LET m == MaxOf(Lens) IN Viol("kraft", FxOK(e.v, KraftCount(Lens, S.Y, m), Pow(S.Y, m)))
      [] e.op = "fvrate" -> Viol("rate", FxOK(e.v, Dot(Lens, BlockWeights(e.w, S.k)), Pow(e.T, S.k) * S.k))
      [] e.op = "vfrate" -> \* rate * mean = n
           LET D == MaxOf(Lens) IN
           Viol("rate", Abs(e.v * MeanLen(S.words, e.w, e.T, D) - S.n * Pow(e.T, D) * 10000) <= 2 * MeanLen(S.words, e.w, e.T, D))
      [] e.op = "words" -> Viol("codewords", e.v = S.words)
      [] e.op = "lengths" -> Viol("lengths", e.v = Lens)
      [] e.op = "size" -> Viol("size", e.v = Len(S.words))
      [] e.op = "X" -> Viol("source-cardinality", e.v = S.X)
      [] e.op = "Y" -> Viol("target-cardinality", e.v = S.Y)
      [] e.op = "k" -> Viol("source-block-size", e.v = S.k)
      [] e.op = "n" -> Viol("target-block-size", e.v = S.n)
      [] e.op = "fvmap" -> Viol("encoding-mapping", /\ Len(e.v) = Len(S.words)
                                /\ \A a \in 1..Len(e.v) : e.v[a][2] = S.words[Value(e.v[a][1], S.X) + 1] /\ Len(e.v[a][1]) = S.k)
      [] e.op = "vfmap" -> Viol("decoding-mapping", /\ Len(e.v) = Len(S.words)
                                /\ \A a \in 1..Len(e.v) : TargetIdx(e.v[a][1]) # 0 /\ e.v[a][2] = S.words[TargetIdx(e.v[a][1])])
      [] e.op = "canonical" -> Viol("canonical-words", e.v = Canonical(e.l, S.Y))
      [] e.op = "sourcewordorder" -> Viol("target-words", e.v = [a \in 1..Len(S.words) |-> Digits(a - 1, S.Y, S.n)])
      \* ---- designed codes: words are what the implementation built ----
      [] e.op = "design-basic" -> Viol("block-count", Len(S.words) = Pow(S.X, S.k))
                                  \cup Viol("empty-codeword", \A a \in 1..Len(S.words) : Len(S.words[a]) > 0)
                                  \cup Viol("binary", \A a \in 1..Len(S.words) : InAlpha(S.words[a], 2))
                                  \cup Viol("not-prefix-free", PF)
      [] e.op = "huffman" -> LET bw == BlockWeights(S.w, S.k) IN
                             Viol("not-optimal", Dot(Lens, bw) = OptimalCost(bw))
      [] e.op = "iscanonical" -> Viol("not-canonical", S.words = Canonical(Lens, 2))
      [] e.op = "shannon" -> LET bw == BlockWeights(S.w, S.k) IN
                             Viol("shannon-length", \A a \in 1..Len(bw) : Lens[a] = ShannonLen(bw[a], Pow(S.T, S.k)))
      [] e.op = "fano" -> Viol("uneven-split", FanoOK(BlockWeights(S.w, S.k), Lens))
      [] e.op = "tundeep" -> LET q == Len(S.w)
                                  leaves == q + ((Pow(2, S.n) - q) \div (q - 1)) * (q - 1)
                                  ws == {S.words[a] : a \in 1..Len(S.words)}
                                  ct == CompleteTree(ws, S.X) IN
                              Viol("not-a-complete-tree", ct)
                              \cup Viol("words-unused", Len(S.words) = leaves /\ Cardinality(ws) = leaves)
                              \cup (IF ct THEN Viol("not-optimal", ExchangeOptimal(ws, S.w, S.T)) ELSE {})
      [] e.op = "tunstall" -> LET q == Len(S.w)
                                  leaves == q + ((Pow(2, S.n) - q) \div (q - 1)) * (q - 1) IN
                              Viol("not-fully-covering", FullyCovering(S.words, S.X))
                              \cup Viol("not-prefix-free", PF)
                              \cup Viol("words-unused", Len(S.words) = leaves)
                              \cup (IF S.D > 0 THEN Viol("not-optimal", MeanLen(S.words, S.w, S.T, S.D) = BestMean(S.w, S.T, S.n, S.D)) ELSE {})

Init == c \in 1..Len(Cases) /\ i = 0 /\ pos = 0 /\ out = <<>> /\ facts = TLCEval(Facts)
Done == (i + 1 = Len(Ev)) => Accept(c)
Coded == IF Applicable(E) /\ pos < Len(E.x) THEN MStep(E) ELSE <<>>
CodeBlock == /\ pos' = pos + Coded[1] /\ out' = out \o Coded[2] /\ UNCHANGED <<c, i, facts>>
Finish(bad) == /\ bad # {} => Reject(c, i + 1, bad)
               /\ Done /\ i' = i + 1 /\ c' = c /\ pos' = 0 /\ out' = <<>> /\ UNCHANGED facts
Next == /\ i < Len(Ev)
        /\ IF Coding(E) THEN IF Coded # <<>> THEN CodeBlock ELSE Finish(FinalBad(E))
           ELSE Finish(CallBad(E))
=============================================================================
