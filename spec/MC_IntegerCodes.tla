-------------------------- MODULE MC_IntegerCodes --------------------------
EXTENDS IntegerCodes
CONSTANT N
Init == kind \in {"fib", "unary"} /\ bits \in UNION {[1..n -> 0..1] : n \in 0..N} /\ at = 0 /\ vals = <<>>
Next == CodeStep
(* distinct bit strings that parse completely denote distinct integer sequences: *)
(* a complete parse re-encodes to the same string                               *)
RECURSIVE Zeck(_, _, _)
Zeck(x, j, acc) == IF j = 0 THEN acc
    ELSE IF FibWeights[j][2] <= x THEN Zeck(x - FibWeights[j][2], j - 1, <<1>> \o acc) ELSE Zeck(x, j - 1, <<0>> \o acc)
RECURSIVE Trim(_)
Trim(s) == IF s[Len(s)] = 1 THEN s ELSE Trim(SubSeq(s, 1, Len(s) - 1))
Enc(x) == IF kind = "fib" THEN Append(Trim(Zeck(x, 12, <<>>)), 1) ELSE [j \in 1..(x + 1) |-> IF j <= x THEN 1 ELSE 0]
RECURSIVE EncAll(_)
EncAll(v) == IF v = <<>> THEN <<>> ELSE Enc(Head(v)[2]) \o EncAll(Tail(v))
Inverse == EncAll(vals) = SubSeq(bits, 1, at)
Positive == \A j \in 1..Len(vals) : vals[j][1] = 0 /\ (kind = "fib" => vals[j][2] >= 1)
=============================================================================
