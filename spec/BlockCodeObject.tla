-------------------------- MODULE BlockCodeObject --------------------------
(* A block code object answering queries, some of which leave results behind *)
(* (the codeword list, the coset leaders) that later queries reuse.          *)
(* H is the list of columns of the check matrix, packed into integers.       *)
EXTENDS LinearCode, TLC, Json
CONSTANTS N, M, DEPTH
VARIABLES H, words, cache, run, ans, hist
vars == <<H, words, cache, run, ans, hist>>

SynOf(x) == LET RECURSIVE S(_, _, _)
                S(y, j, acc) == IF j > N THEN acc ELSE S(y \div 2, j + 1, IF y % 2 = 1 THEN acc ^^ H[j] ELSE acc)
            IN S(x, 1, 0)
All == 0..(Pow(2, N) - 1)
Syns == 0..(Pow(2, M) - 1)
Queries == {"codewords", "cwd", "dmin", "packing", "leaders", "cld", "covering"}
Idle == run = [q |-> "none"]

(* definitions *)
TrueCwd == [w \in 1..(N + 1) |-> Cardinality({x \in All : SynOf(x) = 0 /\ Pop(x) = w - 1})]
CosetMin(s) == LET ws == {Pop(x) : x \in {y \in All : SynOf(y) = s}} IN CHOOSE d \in ws : \A e \in ws : d <= e
TrueCld == [w \in 1..(N + 1) |-> Cardinality({s \in Syns : CosetMin(s) = w - 1})]
NzWts == {Pop(x) : x \in {y \in All \ {0} : SynOf(y) = 0}}
LastNZ(d) == CHOOSE w \in 1..(N + 1) : d[w] > 0 /\ \A v \in (w + 1)..(N + 1) : d[v] = 0
SecondNZ(d) == CHOOSE w \in 2..(N + 1) : d[w] > 0 /\ \A v \in 2..(w - 1) : d[v] = 0

Init == /\ H \in [1..N -> Syns] /\ RankOf(H) = M
        /\ words = LET RECURSIVE L(_, _)
                       L(x, acc) == IF x >= Pow(2, N) THEN acc ELSE L(x + 1, IF SynOf(x) = 0 THEN Append(acc, x) ELSE acc)
                   IN L(0, <<>>)
        /\ cache = [cw |-> FALSE, ld |-> <<>>] /\ run = [q |-> "none"] /\ ans = <<"none">> /\ hist = <<>>

Cwd == WeightDist(words, N)        \* whether read from the cached list or re-encoded in batches
StartBfs(q) == run' = [q |-> q, leader |-> [s \in {0} |-> 0], level |-> <<0>>, w |-> 0,
                       dist |-> [j \in 1..(N + 1) |-> IF j = 1 THEN 1 ELSE 0], p |-> 1, j |-> 1, nxt |-> <<>>]
Note(q) == /\ Len(hist) < DEPTH /\ hist' = Append(hist, q)
Query(q) ==
    /\ Idle /\ Note(q)
    /\ CASE q = "codewords" -> ans' = <<q, words>> /\ cache' = [cache EXCEPT !.cw = TRUE] /\ UNCHANGED run
         [] q = "cwd" -> ans' = <<q, Cwd>> /\ UNCHANGED <<cache, run>>
         [] q = "dmin" -> ans' = <<q, SecondNZ(Cwd) - 1>> /\ UNCHANGED <<cache, run>>
         [] q = "packing" -> ans' = <<q, (SecondNZ(Cwd) - 2) \div 2>> /\ UNCHANGED <<cache, run>>
         [] q = "leaders" -> StartBfs(q) /\ UNCHANGED <<ans, cache>>
         [] q \in {"cld", "covering"} ->
              IF cache.ld # <<>>
              THEN LET ld == cache.ld[1]
                       d == [w \in 1..(N + 1) |-> Cardinality({s \in DOMAIN ld : Pop(ld[s]) = w - 1})]
                   IN ans' = <<q, IF q = "cld" THEN d ELSE LastNZ(d) - 1>> /\ UNCHANGED <<cache, run>>
              ELSE StartBfs(q) /\ UNCHANGED <<ans, cache>>
    /\ UNCHANGED <<H, words>>

(* breadth-first search over syndromes, one edge per step *)
Edge == /\ ~Idle /\ run.p <= Len(run.level)
        /\ LET s0 == run.level[run.p] ^^ H[run.j]
               fresh == s0 \notin DOMAIN run.leader
               run1 == IF fresh THEN [run EXCEPT !.leader = (s0 :> (run.leader[run.level[run.p]] ^^ Pow(2, run.j - 1))) @@ @,
                                                 !.nxt = Append(@, s0)] ELSE run
           IN run' = IF run.j < N THEN [run1 EXCEPT !.j = @ + 1] ELSE [run1 EXCEPT !.j = 1, !.p = @ + 1]
        /\ UNCHANGED <<H, words, cache, ans, hist>>
Level == /\ ~Idle /\ run.p > Len(run.level) /\ run.nxt # <<>>
         /\ run' = [run EXCEPT !.level = run.nxt, !.nxt = <<>>, !.p = 1, !.w = @ + 1, !.dist[run.w + 2] = Len(run.nxt)]
         /\ UNCHANGED <<H, words, cache, ans, hist>>
Finish == /\ ~Idle /\ run.p > Len(run.level) /\ run.nxt = <<>>
          /\ IF run.q = "leaders"
             THEN ans' = <<"leaders", run.leader>> /\ cache' = [cache EXCEPT !.ld = <<run.leader>>]
             ELSE ans' = <<run.q, IF run.q = "cld" THEN run.dist ELSE LastNZ(run.dist) - 1>> /\ UNCHANGED cache
          /\ run' = [q |-> "none"] /\ UNCHANGED <<H, words, hist>>
Next == (\E q \in Queries : Query(q)) \/ Edge \/ Level \/ Finish
Spec == Init /\ [][Next]_vars

(* Whatever was asked before, an answer is the fact about the code. *)
AnswerOK == Idle =>
    CASE ans[1] = "cwd" -> ans[2] = TrueCwd
      [] ans[1] = "dmin" -> NzWts # {} => ans[2] \in NzWts /\ \A e \in NzWts : ans[2] <= e
      [] ans[1] = "packing" -> \A e \in NzWts : 2 * ans[2] + 1 <= e
      [] ans[1] = "leaders" -> DOMAIN ans[2] = Syns /\ \A s \in Syns : SynOf(ans[2][s]) = s /\ Pop(ans[2][s]) = CosetMin(s)
      [] ans[1] = "cld" -> ans[2] = TrueCld
      [] ans[1] = "covering" -> ans[2] = (LastNZ(TrueCld) - 1)
      [] OTHER -> TRUE
(* The search visits syndromes at their coset weight. *)
BfsOK == (~Idle /\ run.p > Len(run.level)) => \A s \in DOMAIN run.leader : Pop(run.leader[s]) = CosetMin(s) /\ SynOf(run.leader[s]) = s
CosetOpOK == hist = <<>> => HistOf(CosetWeights({H[j] : j \in 1..N}), N) = TrueCld
=============================================================================
