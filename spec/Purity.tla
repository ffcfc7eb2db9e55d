------------------------------- MODULE Purity -------------------------------
(* Shared memory behind a library of objects: cells of values, some owned by  *)
(* the caller (arguments), some handed out as results, some kept by objects   *)
(* as lazily computed tables.  Operations read cells and hand out a cell: a   *)
(* new one, the object's kept table, or -- where the result equals it -- the  *)
(* argument itself.  SLOPPY names what an implementation might do instead.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Vals, Objs, DEPTH, SLOPPY
VARIABLES heap, args, kept, held, memo, hist
vars == <<heap, args, kept, held, memo, hist>>

Ops == {"id", "next", "table"}         \* "table" takes no argument
Size == Cardinality(Vals)
Eval(f, v) == CASE f = "id" -> v [] f = "next" -> (v + 1) % Size [] f = "table" -> Size + 7
Init == heap = << >> /\ args = << >> /\ kept = [o \in Objs |-> 0] /\ held = << >> /\ memo = << >> /\ hist = << >>

Note(x) == Len(hist) < DEPTH /\ hist' = Append(hist, x)
(* the caller makes an argument (a fresh cell, in whatever container) *)
Give(v) == /\ Len(args) < 2 /\ (IF args = << >> THEN TRUE ELSE args[1].v # v)
           /\ heap' = Append(heap, v) /\ args' = Append(args, [cell |-> Len(heap) + 1, v |-> v])
           /\ UNCHANGED <<kept, held, memo, hist>>
Answer(f, key, cell, h) ==
    /\ heap' = h
    /\ held' = Append(held, [cell |-> cell, v |-> h[cell]])
    /\ memo' = IF <<f, key>> \in DOMAIN memo THEN [memo EXCEPT ![<<f, key>>] = @ \cup {h[cell]}]
               ELSE (<<f, key>> :> {h[cell]}) @@ memo
Call(o, f, k) ==
    /\ f # "table" /\ k \in DOMAIN args /\ Note([op |-> f, o |-> o, k |-> k])
    /\ LET a == args[k].cell
           w == Eval(f, heap[a])
       IN \/ Answer(f, args[k].v, Len(heap) + 1, Append(heap, w))
          \/ (w = heap[a] /\ Answer(f, args[k].v, a, heap))
          \/ (SLOPPY = "inplace" /\ Answer(f, args[k].v, a, [heap EXCEPT ![a] = w]))
          \/ (SLOPPY = "scratch" /\ kept[o] # 0 /\ Answer(f, args[k].v, kept[o], [heap EXCEPT ![kept[o]] = w]))
    /\ UNCHANGED <<args, kept>>
Table(o) ==
    /\ Note([op |-> "table", o |-> o, k |-> 0])
    /\ IF kept[o] # 0 THEN Answer("table", 0, kept[o], heap) /\ UNCHANGED kept
       ELSE /\ Answer("table", 0, Len(heap) + 1, Append(heap, Eval("table", 0)))
            /\ kept' \in {kept, [kept EXCEPT ![o] = Len(heap) + 1]}
    /\ UNCHANGED args
Next == (\E v \in Vals : Give(v)) \/ (\E o \in Objs : Table(o) \/ \E f \in {"id", "next"}, k \in 1..2 : Call(o, f, k))
Spec == Init /\ [][Next]_vars

(* what the caller relies on *)
ArgumentsUntouched == \A k \in DOMAIN args : heap[args[k].cell] = args[k].v
ResultsStay == \A j \in DOMAIN held : heap[held[j].cell] = held[j].v
FunctionOfValue == \A q \in DOMAIN memo : Cardinality(memo[q]) = 1
=============================================================================
