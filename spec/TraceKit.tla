------------------------------ MODULE TraceKit ------------------------------
(* Plumbing shared by all trace specifications.                              *)
(* The trace is an ndjson file: one recorded session per line.  A session    *)
(* has a field "ev": the sequence of calls observed on the implementation    *)
(* (each one with its arguments and its outcome).  A trace spec has one      *)
(* initial state per session and consumes one event per step; its verdict on *)
(* every event is total: it is either explained by the specification, or     *)
(* rejected with the set of violated clauses.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.KV_TRACE)

Reject(c, i, clauses) ==
    PrintT("KV|REJECT|" \o ToString(c) \o "|" \o ToString(i) \o "|" \o ToString(clauses))

Accept(c) == PrintT("KV|DONE|" \o ToString(c))

(* Clause helper: a set of clause names that are violated. *)
Viol(name, ok) == IF ok THEN {} ELSE {name}

(* The call was refused: it raised, and did not merely return something that  *)
(* could not be interpreted (nor run out of time).                            *)
Refused(e) == ~e.ok /\ e.refused

Range(s) == {s[j] : j \in DOMAIN s}
=============================================================================
