---- MODULE MC_Euclid ----
EXTENDS Euclid
(* the residue fields are fields *)
ASSUME \A t \in 1..3 : IrreducibleRabin(Trim(Unpack(Moduli[t], 17))) /\ Len(Trim(Unpack(Moduli[t], 17))) = 13 + t
====
