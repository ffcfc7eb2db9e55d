------------------------------ MODULE MC_Pulses ------------------------------
(* The machine sweeps the frequency axis band by band and accumulates, by     *)
(* Simpson's rule, the inverse Fourier integrals of the spectrum and of its   *)
(* square at one instant t: at the end of the sweep these must be the stated  *)
(* waveform and autocorrelation.  Time-limited pulses are swept over time     *)
(* instead, at one frequency.                                                *)
EXTENDS Pulses
CONSTANTS M, ND                  \* subintervals per band; instants are multiples of 1/ND
VARIABLES p, n, band, j, acc
vars == <<p, n, band, j, acc>>
P(k, a, b) == [k |-> k, an |-> a, ad |-> b]
Pulses1 == {P(k, 1, 4) : k \in {"rc", "rrc", "be", "rbe"}} \cup {P(k, 1, 1) : k \in {"rc", "rrc", "be", "rbe", "gauss"}}
           \cup {P(k, 2, 5) : k \in {"rc", "rrc", "be", "rbe"}} \cup {P("gauss", 1, 2)} \cup {P("rect", 1, 1), P("rect", 3, 5), P("manchester", 1, 1)}
InTime == p.k \in {"rect", "manchester"}
Instants(q) == IF q.k = "gauss" THEN 0..(2 * ND) ELSE 0..(3 * ND)
Init == /\ p \in Pulses1 /\ n \in Instants(p) /\ band = 1 /\ j = 0 /\ acc = <<0, 0>>
(* ends of the bands over the common denominator 2 ad (Gaussian: 0, B, 2B, 4B over 2 ad; time-limited: 0, w/2, w) *)
End(b) == IF p.k = "gauss" THEN CASE b = 0 -> 0 [] b = 1 -> 2 * p.an [] b = 2 -> 5 * p.an [] b = 3 -> 10 * p.an
          ELSE IF InTime THEN CASE b = 0 -> 0 [] b = 1 -> p.an [] b >= 2 -> 2 * p.an
          ELSE CASE b = 0 -> 0 [] b = 1 -> p.ad - p.an [] b = 2 -> p.ad [] b = 3 -> p.ad + p.an
Bands == IF InTime THEN 2 ELSE 3
Len0 == End(band) - End(band - 1)
(* the node, as a rational *)
XN == End(band - 1) * M + j * Len0
XD == 2 * p.ad * M
(* twice the spectrum, cosines; in time: the waveform at the band's middle (it is constant there), cosine and sine *)
MidN == (End(band - 1) + End(band))
Node == IF InTime THEN LET w == Wave(p, MidN, 4 * p.ad) IN <<FMul(w, FCos(n * XN, ND * XD)), FMul(w, -FSin(n * XN, ND * XD))>>
        ELSE LET s == Spectrum(p, XN, XD)[1]
                 c == FCos(n * XN, ND * XD)
             IN <<2 * FMul(s, c), 2 * FMul(FMul(s, s), c)>>
Add(v) == LET w == SimpsonW(j, M) k == FFrac(Len0, 2 * p.ad) IN
    <<acc[1] + FMul(k, (w * v[1]) \div (3 * M)), acc[2] + FMul(k, (w * v[2]) \div (3 * M))>>
Next == /\ band <= Bands
        /\ acc' = (IF Len0 = 0 THEN acc ELSE Add(Node))
        /\ IF j = M THEN band' = band + 1 /\ j' = 0 ELSE band' = band /\ j' = j + 1
        /\ UNCHANGED <<p, n>>
Spec == Init /\ [][Next]_vars
Done == band > Bands
Slack == IF p.k = "rbe" THEN 20000 ELSE IF p.k = "gauss" THEN 1500 ELSE 600
FourierPair == Done => IF InTime THEN \A t \in 1..2 : AbsI(acc[t] - Spectrum(p, n, ND)[t]) <= Slack
                       ELSE AbsI(acc[1] - Wave(p, n, ND)) <= Slack
Autocorrelated == (Done /\ ~InTime) => AbsI(acc[2] - Auto(p, n, ND)) <= (IF p.k = "gauss" THEN 1500 ELSE 600)
EnergyOK == n = 0 => AbsI(Auto(p, 0, 1) - Energy(p)) <= 40
Start == band = 1 /\ j = 0
(* Nyquist's criterion in both domains; symmetry *)
Nyquist == (Start /\ p.k \in {"rc", "be"}) =>
    /\ (n % ND = 0 => AbsI(Wave(p, n, ND) - (IF n = 0 THEN F1 ELSE 0)) <= 8)
    /\ n <= ND => AbsI(Spectrum(p, n, 2 * ND)[1] + Spectrum(p, 2 * ND - n, 2 * ND)[1] - F1) <= 8
RootOK == (Start /\ p.k \in {"rrc", "rbe"}) => LET q == [p EXCEPT !.k = IF p.k = "rrc" THEN "rc" ELSE "be"] IN
    /\ AbsI(FMul(Spectrum(p, n, ND)[1], Spectrum(p, n, ND)[1]) - Spectrum(q, n, ND)[1]) <= 40
    /\ (n > 0 /\ n % ND = 0) => AbsI(Auto(p, n, ND)) <= 8
Decays == (Start /\ n > 0 /\ ~InTime /\ p.k # "gauss") => AbsI(Wave(p, n, ND)) <= Decay(n, ND) + 8
Even == (Start /\ ~InTime) => Wave(p, -n, ND) = Wave(p, n, ND) /\ Spectrum(p, -n, ND) = Spectrum(p, n, ND) /\ AbsI(Auto(p, -n, ND) - Auto(p, n, ND)) <= 8
=============================================================================
