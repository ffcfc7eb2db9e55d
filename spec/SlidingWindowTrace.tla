------------------------- MODULE SlidingWindowTrace -------------------------
EXTENDS SlidingWindow, TraceKit
VARIABLES c, i
Ev == Cases[c].ev
E == Ev[i + 1]

Init == /\ c \in 1..Len(Cases) /\ i = 0
        /\ par = Cases[c].par /\ src = Cases[c].src
        /\ pos = 0 /\ toks = <<>> /\ dec = <<>>

(* A token event is explained only by the encoder action of the design.      *)
TokenBad(t) == Viol("token-out-of-range", TokenInRange(t)) \cup
               (IF TokenInRange(t) THEN Viol("not-an-encoder-step", TripleOK(t) \/ ReferenceOK(t) \/ LiteralOK(t)) ELSE {})

CallBad(e) ==
    IF ~e.ok THEN {"raised"}
    ELSE CASE e.op = "stot"   -> {}
         [] e.op = "eos"      -> Viol("tokens-stop-early", pos = Len(src))
         [] e.op = "fields"   -> Viol("fields", e.v = Target(toks))
         [] e.op = "encode"   -> Viol("encode", e.v = Target(toks))
         [] e.op = "parse"    -> Viol("parse-fields", e.v = toks)
         [] e.op = "rebuild"  -> Viol("tokens-to-source", e.v = src)
         [] e.op = "decode"   -> Viol("lossless", e.v = src)
         [] e.op = "far" -> Viol("lossless", e.v = e.want)   \* lengths and digests of consecutive pieces
         [] e.op = "breakeven" -> Viol("break-even", e.v = BreakEven)
         [] e.op = "window"   -> Viol("window-size", e.v = par.S + par.L)
         \* arbitrary admissible tokens, not necessarily produced by this encoder
         [] e.op = "anytokens" -> Viol("decode-any-tokens", e.v = DecodeAll(e.toks))
         [] e.op = "anyfields" -> Viol("fields-any-tokens", e.v = Target(e.toks))
         [] e.op = "anyparse"  -> Viol("parse-any-tokens", e.v = e.toks)
         [] e.op = "anydecode" -> Viol("decode-any-symbols", e.v = DecodeAll(e.toks))

Done == (i + 1 = Len(Ev)) => Accept(c)
Next ==
    /\ i < Len(Ev) /\ i' = i + 1 /\ c' = c /\ Done
    /\ IF E.op = "token"
       THEN IF TokenBad(E.t) = {} THEN Step(E.t)
            ELSE Reject(c, i + 1, TokenBad(E.t)) /\ UNCHANGED swvars
       ELSE /\ CallBad(E) # {} => Reject(c, i + 1, CallBad(E))
            /\ UNCHANGED swvars
=============================================================================
