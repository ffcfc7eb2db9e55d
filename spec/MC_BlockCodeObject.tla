------------------------- MODULE MC_BlockCodeObject -------------------------
EXTENDS BlockCodeObject
(* one code, every query history up to DEPTH: printed for replay on real objects *)
MinH == CHOOSE h \in [1..N -> Syns] : RankOf(h) = M
GenInit == Init /\ H = MinH
GenSpec == GenInit /\ [][Next]_vars
Emit == (Idle /\ Len(hist) = DEPTH) => PrintT("KV|GEN|" \o ToJson(hist))
=============================================================================
