------------------------------ MODULE MC_Purity ------------------------------
EXTENDS Purity
(* one kind of history per length: printed for replay on every class of the library *)
Shape == \A j \in DOMAIN hist : hist[j].o = 1 \/ \E i \in 1..j : hist[i].o = 1
First == \A j \in DOMAIN hist : hist[j].k = 2 => \E i \in 1..(j - 1) : hist[i].k = 1
Canonical == Shape /\ First
Emit == (Len(hist) = DEPTH /\ Len(args) = 2 /\ Canonical /\ heap[args[1].cell] = 0) => PrintT("KV|GEN|" \o ToJson(hist))
=============================================================================
