------------------------- MODULE GrowingDictionary -------------------------
(* LZ78 and LZW as an encoder and a decoder that grow a phrase dictionary in *)
(* lockstep.  One action per emitted pointer.                                *)
EXTENDS Words

VARIABLES par,    \* [kind, X, Y]
          src,    \* the message
          pos,    \* symbols coded so far
          dict,   \* encoder's dictionary, a sequence of phrases (index 0 first)
          ddict,  \* decoder's dictionary
          dec,    \* decoder's output
          old,    \* LZW decoder: previous phrase (<<>> before the first one)
          toks    \* pointers emitted: LZ78 <<p, x>> (x = -1: end of message inside a phrase), LZW <<p>>

gdvars == <<par, src, pos, dict, ddict, dec, old, toks>>

Dict0(p) == IF p.kind = "78" THEN << <<>> >> ELSE [s \in 1..p.X |-> <<s - 1>>]
Known(d, w) == \E j \in 1..Len(d) : d[j] = w
At(w) == pos + Len(w) <= Len(src) /\ \A j \in 1..Len(w) : src[pos + j] = w[j]

(* width, in target symbols, of the next pointer *)
PtrWidth == CeilLog(Len(dict), par.Y)
SymWidth == CeilLog(par.X, par.Y)
TokSymbols(t) ==
    IF par.kind = "78"
    THEN Digits(t[1], par.Y, PtrWidth) \o (IF t[2] >= 0 THEN Digits(t[2], par.Y, SymWidth) ELSE <<>>)
    ELSE Digits(t[1], par.Y, PtrWidth)

GDInit(Pars, Srcs(_)) ==
    /\ par \in Pars /\ src \in Srcs(par) /\ pos = 0
    /\ dict = Dict0(par) /\ ddict = Dict0(par) /\ dec = <<>> /\ old = <<>> /\ toks = <<>>

------------------------------------------------------------------------------
(* LZ78: longest known phrase plus one fresh symbol; the pair becomes a new phrase. *)
PairOK(t) == /\ par.kind = "78" /\ pos < Len(src)
             /\ Len(t) = 2 /\ t[1] \in 0..(Len(dict) - 1) /\ t[2] \in 0..(par.X - 1)
             /\ LET w == Append(dict[t[1] + 1], t[2]) IN At(w) /\ ~ Known(dict, w)
Pair(t) == /\ PairOK(t)
           /\ LET w == Append(dict[t[1] + 1], t[2]) IN
              /\ pos' = pos + Len(w) /\ dict' = Append(dict, w)
              /\ dec' = dec \o Append(ddict[t[1] + 1], t[2])
              /\ ddict' = Append(ddict, Append(ddict[t[1] + 1], t[2]))
           /\ toks' = Append(toks, t) /\ UNCHANGED <<par, src, old>>

(* LZ78: the message ends inside a known phrase. *)
TailOK(t) == /\ par.kind = "78" /\ pos < Len(src)
             /\ Len(t) = 2 /\ t[1] \in 0..(Len(dict) - 1) /\ t[2] = -1
             /\ At(dict[t[1] + 1]) /\ pos + Len(dict[t[1] + 1]) = Len(src)
Tail78(t) == /\ TailOK(t) /\ pos' = Len(src) /\ dec' = dec \o ddict[t[1] + 1]
             /\ toks' = Append(toks, t) /\ UNCHANGED <<par, src, dict, ddict, old>>

(* LZW: longest known phrase; phrase plus next symbol becomes known. The     *)
(* decoder is one phrase behind and may receive the phrase it is about to learn. *)
CodeOK(t) == /\ par.kind = "W" /\ pos < Len(src)
             /\ Len(t) = 1 /\ t[1] \in 0..(Len(dict) - 1)
             /\ LET w == dict[t[1] + 1] IN
                At(w) /\ (pos + Len(w) < Len(src) => ~ Known(dict, Append(w, src[pos + Len(w) + 1])))
DecWord(p) == IF p < Len(ddict) THEN ddict[p + 1] ELSE Append(old, old[1])
Code(t) == /\ CodeOK(t)
           /\ LET w == dict[t[1] + 1]
                  end == pos + Len(w) = Len(src)
                  dw == DecWord(t[1])
              IN /\ pos' = pos + Len(w)
                 /\ dict' = IF end THEN dict ELSE Append(dict, Append(w, src[pos + Len(w) + 1]))
                 /\ dec' = dec \o dw /\ old' = dw
                 /\ ddict' = IF old = <<>> THEN ddict ELSE Append(ddict, Append(old, dw[1]))
           /\ toks' = Append(toks, t) /\ UNCHANGED <<par, src>>

Step(t) == Pair(t) \/ Tail78(t) \/ Code(t)
AllTokens == IF par.kind = "78" THEN {<<p, x>> : p \in 0..(Len(dict) - 1), x \in -1..(par.X - 1)}
             ELSE {<<p>> : p \in 0..(Len(dict) - 1)}
GDNext == \E t \in AllTokens : Step(t)

------------------------------------------------------------------------------
Lossless == dec = SubSeq(src, 1, pos)
InStep == LET n == Len(ddict) IN
          /\ \A j \in 1..n : ddict[j] = dict[j]
          /\ pos < Len(src) => Len(dict) - n = (IF par.kind = "W" /\ toks # <<>> THEN 1 ELSE 0)
NoDuplicates == \A j, k \in 1..Len(dict) : j # k => dict[j] # dict[k]
Progress == pos < Len(src) => \E t \in AllTokens : PairOK(t) \/ TailOK(t) \/ CodeOK(t)
Deterministic == Cardinality({t \in AllTokens : PairOK(t) \/ TailOK(t) \/ CodeOK(t)}) <= 1
=============================================================================
