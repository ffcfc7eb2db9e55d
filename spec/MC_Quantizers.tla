--------------------------- MODULE MC_Quantizers ---------------------------
(* A quantizer is chosen (general or uniform) and the input sweeps the line; *)
(* prev is the previous input.                                               *)
EXTENDS Quantizers, FiniteSetsExt, SequencesExt
CONSTANTS R, MaxL
VARIABLES y, t, x, kind
vars == <<y, t, x, kind>>
Inc(n, lo) == {SetToSortSeq(S, LAMBDA a, b : a < b) : S \in kSubset(n, lo..R)}
Start == -R - 2
(* levels at even places, thresholds at odd places of an increasing sequence *)
Init == /\ x = Start
        /\ \/ /\ kind = "general"
              /\ \E L \in 1..MaxL : \E s \in Inc(2 * L - 1, -R) :
                    y = [j \in 1..L |-> s[2 * j - 1]] /\ t = [j \in 1..(L - 1) |-> s[2 * j]]
           \/ \E L \in 2..7, th \in -16..16 : kind = "uniform" /\ y = ULevels(L, th) /\ t = UThresholds(L, th)
End == IF kind = "general" THEN R + 2 ELSE 60
Next == x < End /\ x' = x + 1 /\ UNCHANGED <<y, t, kind>>
Spec == Init /\ [][Next]_vars
OneCell == Cardinality({k \in 0..Len(t) : InCell(t, x, k)}) = 1
Valid == Interleaved(y, t)
OwnLevel == x = Start => \A k \in 1..Len(y) : Cell(t, y[k]) = k - 1            \* quantising a level returns it
OnThreshold == (x \in {t[j] : j \in 1..Len(t)}) => t[Cell(t, x)] = x           \* thresholds belong to the upper cell
Monotone == [][Cell(t, x') >= Cell(t, x) /\ (kind = "uniform" => Cell(t, x') <= Cell(t, x) + 1)]_vars
Nearest == kind = "uniform" => \A k \in 1..Len(y) : Abs(x - y[Cell(t, x) + 1]) <= Abs(x - y[k])
Midpoints == kind = "uniform" => \A j \in 1..Len(t) : 2 * t[j] = y[j] + y[j + 1] /\ y[j + 1] - y[j] = 8
Zero == x = Start => \A L \in 2..9 : /\ 0 \in {UThresholds(L, MidRiser(L))[j] : j \in 1..(L - 1)}
                                     /\ 0 \in {ULevels(L, MidTread(L))[j] : j \in 1..L}
(* among all levels for the same cells the centroid has the least error, and  *)
(* the error of a uniform density over whole cells is step^2 / 12 *)
Mse == (x = Start /\ kind = "uniform") => LET b == <<y[1] - 4, y[Len(y)] + 4>> IN
           Msex3(y, t, b, <<1>>) * 4 = 8 * 8 * (b[2] - b[1])
MseGeneral == (x = Start /\ kind = "general") => LET b == <<-R, 0, R>> w == <<1, 3>> IN
           /\ Msex3(y, t, b, w) > 0
           /\ \A k \in 1..Len(y) : LET lo == Edge(t, k - 1, -R, R) hi == Edge(t, k, -R, R) m == Mass(b, w, lo, hi) IN
                m > 0 => \A z \in -R..R :
                    (2 * z * m = Mom1x2(b, w, lo, hi)) => Sqx3(b, w, z, lo, hi) <= Sqx3(b, w, y[k], lo, hi)
=============================================================================
