----------------------- MODULE GrowingDictionaryTrace -----------------------
EXTENDS GrowingDictionary, TraceKit
VARIABLES c, i,
          tp    \* target symbols of the current "encode" event consumed so far
Ev == Cases[c].ev
E == Ev[i + 1]

Init == /\ c \in 1..Len(Cases) /\ i = 0 /\ tp = 0
        /\ par = Cases[c].par /\ src = Cases[c].src
        /\ pos = 0 /\ dict = Dict0(par) /\ ddict = Dict0(par) /\ dec = <<>> /\ old = <<>> /\ toks = <<>>

(* The encoder's output is read pointer by pointer: at every step the next   *)
(* PtrWidth symbols are a pointer (followed, in LZ78, by a symbol).          *)
NextTok ==
    LET v == E.v
        a == PtrWidth
        b == IF par.kind = "78" THEN SymWidth ELSE 0
    IN IF tp + a > Len(v) THEN << >>
       ELSE LET p == Value(SubSeq(v, tp + 1, tp + a), par.Y) IN
            IF par.kind = "W" THEN <<p>>
            ELSE IF tp + a = Len(v) THEN <<p, -1>>
            ELSE IF tp + a + b > Len(v) THEN << >>
            ELSE <<p, Value(SubSeq(v, tp + a + 1, tp + a + b), par.Y)>>
TokOK(t) == PairOK(t) \/ TailOK(t) \/ CodeOK(t)

CallBad(e) ==
    IF ~e.ok THEN {"raised"}
    ELSE CASE e.op = "encode" -> Viol("message-not-covered", pos = Len(src) /\ tp = Len(e.v))
                                 \cup Viol("symbol-range", \A j \in 1..Len(e.v) : e.v[j] \in 0..(par.Y - 1))
         [] e.op = "tokens"    -> Viol("source-to-tokens", e.v = toks)
         [] e.op = "rebuild"   -> Viol("tokens-to-source", e.v = src)
         [] e.op = "fields"    -> Viol("tokens-to-target", e.v = e.target)
         [] e.op = "parse"     -> Viol("target-to-tokens", e.v = toks)
         [] e.op = "decode"    -> Viol("lossless", e.v = src)
         [] e.op = "far" -> Viol("lossless", e.v = e.want)   \* lengths and digests of consecutive pieces

Consuming == /\ E.op = "encode" /\ E.ok /\ pos < Len(src)
             /\ \A j \in 1..Len(E.v) : E.v[j] \in 0..(par.Y - 1)
             /\ NextTok # <<>>
Done == (i + 1 = Len(Ev)) => Accept(c)
Next ==
    /\ i < Len(Ev) /\ c' = c
    /\ IF Consuming
       THEN IF TokOK(NextTok)
            THEN Step(NextTok) /\ tp' = tp + Len(TokSymbols(NextTok)) /\ i' = i
            ELSE /\ Reject(c, i + 1, {"not-an-encoder-step"}) /\ Done
                 /\ i' = i + 1 /\ UNCHANGED gdvars /\ UNCHANGED tp
       ELSE /\ CallBad(E) # {} => Reject(c, i + 1, CallBad(E))
            /\ Done /\ i' = i + 1 /\ UNCHANGED gdvars /\ UNCHANGED tp
=============================================================================
