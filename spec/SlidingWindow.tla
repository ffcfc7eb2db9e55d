--------------------------- MODULE SlidingWindow ---------------------------
(* LZ77 and LZSS: the state is the history (initial search buffer followed   *)
(* by the message), the number of symbols already coded, the tokens emitted  *)
(* and the decoder's reconstruction.  One action per emitted token.          *)
EXTENDS Words

VARIABLES par,   \* [kind, S, L, X, Y, buf]
          src,   \* the message
          pos,   \* number of message symbols coded so far
          toks,  \* tokens emitted so far
          dec    \* what a decoder has reconstructed from toks

swvars == <<par, src, pos, toks, dec>>

Sym(k) == IF k <= par.S THEN par.buf[k] ELSE src[k - par.S]     \* 1-based absolute position
Remaining == Len(src) - pos
(* In LZ77 a token always carries a fresh symbol, in LZSS a reference may    *)
(* extend to the end of the lookahead buffer.                                *)
MaxLen == LET m == IF par.L < Remaining THEN par.L ELSE Remaining
          IN IF par.kind = "77" THEN m - 1 ELSE m

(* the search window is positions pos+1 .. pos+S; back distance d \in 1..S   *)
MatchAt(d, l) == \A j \in 1..l : Sym(par.S + pos + j - d) = Sym(par.S + pos + j)
Longest(l) == IF l = MaxLen THEN TRUE ELSE ~ \E d \in 1..par.S : MatchAt(d, l + 1)
RECURSIVE LongestLenAux(_)
LongestLenAux(l) == IF (IF l = MaxLen THEN TRUE ELSE ~ \E d \in 1..par.S : MatchAt(d, l + 1)) THEN l ELSE LongestLenAux(l + 1)
LongestLen == LongestLenAux(0)

PWidth == CeilLog(par.S, par.Y)
LWidth == CeilLog(par.L, par.Y)
XWidth == CeilLog(par.X, par.Y)
BreakEven == (1 + PWidth + LWidth + XWidth) \div (1 + XWidth)   \* ceil of the quotient

------------------------------------------------------------------------------
(* Decoder: copy one symbol at a time from the reconstructed history.        *)
RECURSIVE CopyN(_, _, _)
CopyN(h, d, l) == IF l = 0 THEN h ELSE CopyN(Append(h, h[Len(h) + 1 - d]), d, l - 1)

DecodeTok(h, t) ==
    IF par.kind = "77" THEN Append(CopyN(h, par.S - t[1], t[2]), t[3])
    ELSE IF t[1] = 1 THEN CopyN(h, t[2], t[3]) ELSE Append(h, t[2])

RECURSIVE DecodeAux(_, _, _)
DecodeAux(h, ts, j) == IF j > Len(ts) THEN h ELSE DecodeAux(DecodeTok(h, ts[j]), ts, j + 1)
DecodeAll(ts) == LET h == DecodeAux(par.buf, ts, 1) IN SubSeq(h, par.S + 1, Len(h))

(* Fields *)
TokenSymbols(t) ==
    IF par.kind = "77"
    THEN Digits(t[1], par.Y, PWidth) \o Digits(t[2], par.Y, LWidth) \o Digits(t[3], par.Y, XWidth)
    ELSE IF t[1] = 1
    THEN <<1>> \o Digits(t[2] - 1, par.Y, PWidth) \o Digits(t[3] - 1, par.Y, LWidth)
    ELSE <<0>> \o Digits(t[2], par.Y, XWidth)
Target(ts) == Flatten([j \in 1..Len(ts) |-> TokenSymbols(ts[j])])

TokenInRange(t) ==
    IF par.kind = "77"
    THEN Len(t) = 3 /\ t[1] \in 0..(par.S - 1) /\ t[2] \in 0..(par.L - 1) /\ t[3] \in 0..(par.X - 1)
    ELSE \/ Len(t) = 3 /\ t[1] = 1 /\ t[2] \in 1..par.S /\ t[3] \in 1..par.L
         \/ Len(t) = 2 /\ t[1] = 0 /\ t[2] \in 0..(par.X - 1)

------------------------------------------------------------------------------
SWInit(Pars, Srcs(_)) ==
    /\ par \in Pars /\ src \in Srcs(par)
    /\ pos = 0 /\ toks = <<>> /\ dec = <<>>

Advance(t, n) == /\ pos' = pos + n
                 /\ toks' = Append(toks, t)
                 /\ dec' = LET h == DecodeTok(par.buf \o dec, t) IN SubSeq(h, par.S + 1, Len(h))
                 /\ UNCHANGED <<par, src>>

(* LZ77: match of length l at window offset p, then the fresh symbol *)
TripleOK(t) == /\ par.kind = "77" /\ Remaining > 0 /\ TokenInRange(t) /\ t[2] <= MaxLen
               /\ MatchAt(par.S - t[1], t[2]) /\ Longest(t[2])
               /\ t[3] = src[pos + t[2] + 1]
Triple(t) == TripleOK(t) /\ Advance(t, t[2] + 1)

(* LZSS *)
ReferenceOK(t) == /\ par.kind = "SS" /\ Remaining > 0 /\ TokenInRange(t) /\ t[1] = 1
                  /\ t[3] <= MaxLen /\ t[3] >= BreakEven
                  /\ MatchAt(t[2], t[3]) /\ Longest(t[3])
Reference(t) == ReferenceOK(t) /\ Advance(t, t[3])

LiteralOK(t) == /\ par.kind = "SS" /\ Remaining > 0 /\ TokenInRange(t) /\ t[1] = 0
                /\ t[2] = src[pos + 1] /\ LongestLen < BreakEven
Literal(t) == LiteralOK(t) /\ Advance(t, 1)

Step(t) == Triple(t) \/ Reference(t) \/ Literal(t)
AllTokens == IF par.kind = "77"
             THEN {<<p, l, x>> : p \in 0..(par.S - 1), l \in 0..(par.L - 1), x \in 0..(par.X - 1)}
             ELSE {<<1, p, l>> : p \in 1..par.S, l \in 1..par.L} \cup {<<0, x>> : x \in 0..(par.X - 1)}
SWNext == \E t \in AllTokens : Step(t)

------------------------------------------------------------------------------
(* Properties of the design *)
Lossless == dec = SubSeq(src, 1, pos)                 \* the decoder is never behind or wrong
InRange == \A j \in 1..Len(toks) : TokenInRange(toks[j])
Progress == pos < Len(src) => ENABLED SWNext          \* the encoder never gets stuck
FieldsFit ==                                          \* fields are wide enough: symbols determine the tokens
    \A j \in 1..Len(toks) : \A t \in AllTokens :
        TokenInRange(t) /\ TokenSymbols(t) = TokenSymbols(toks[j]) => t = toks[j]
=============================================================================
