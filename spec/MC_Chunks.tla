----------------------------- MODULE MC_Chunks -----------------------------
(* A process that consumes a stream of N blocks in calls of any sizes        *)
(* (including empty calls), carrying its state from call to call.  Every     *)
(* complete history of call sizes is printed for replay on the real code.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, MaxChunk, MaxEmpty, CarryMod
VARIABLES hist, pos, s, out
vars == <<hist, pos, s, out>>
(* a stand-in process: next state and output depend on state and position *)
Step(st, x) == (st * 2 + x + 1) % CarryMod
OutOf(st, x) == (st + x) % 2
In(p) == (p * p + p \div 2) % 2
RECURSIVE RunN(_, _, _, _)
RunN(p, k, st, o) == IF k = 0 THEN <<st, o>> ELSE RunN(p + 1, k - 1, Step(st, In(p)), Append(o, OutOf(st, In(p))))
Empties(h) == Len(SelectSeq(h, LAMBDA x : x = 0))
Init == hist = <<>> /\ pos = 0 /\ s = 0 /\ out = <<>>
Call(k) == /\ pos + k <= N /\ (k = 0 => Empties(hist) < MaxEmpty)
           /\ LET r == RunN(pos, k, s, <<>>) IN s' = r[1] /\ out' = out \o r[2]
           /\ hist' = Append(hist, k) /\ pos' = pos + k
           /\ pos + k = N => PrintT("KV|GEN|" \o ToJson(hist'))
Next == pos < N /\ \E k \in 0..MaxChunk : Call(k)
(* chunking is invisible *)
Invisible == LET r == RunN(0, pos, 0, <<>>) IN s = r[1] /\ out = r[2]
=============================================================================
