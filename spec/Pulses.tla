------------------------------- MODULE Pulses -------------------------------
(* Pulses, their spectra and correlations.  A pulse is [k, an, ad]: its kind  *)
(* and its parameter an/ad (width, roll-off or half-power bandwidth).  Times  *)
(* and frequencies are rationals; values are fixed-point (Fix).               *)
(* The Nyquist families are stated by their spectra, the waveforms in         *)
(* singularity-free form; MC_Pulses integrates one into the other.            *)
EXTENDS Fix
AbsI(x) == IF x < 0 THEN -x ELSE x
Half == F1 \div 2
Quarter == F1 \div 4
(* alpha * t as a rational *)
PN(p, tn) == p.an * tn
PD(p, td) == p.ad * td

(* ---- time-limited pulses ---- *)
Tri(n, d) == IF AbsI(n) >= d THEN 0 ELSE FFrac(d - AbsI(n), d)                \* max(0, 1 - |x|)
RectWave(p, n, d) == IF n >= 0 /\ n * p.ad < p.an * d THEN F1 ELSE 0
ManWave(n, d) == IF n < 0 \/ n >= d THEN 0 ELSE IF 2 * n < d THEN -F1 ELSE F1
Turn(n, d) == <<FCos(n, d), -FSin(n, d)>>                                     \* e^(-2 pi j n/d)
Scale(c, v) == <<FMul(c, v[1]), FMul(c, v[2])>>
(* the integral of e^(-2 pi j f t) over [0, w], and over the two halves of [0, 1] with signs -, + *)
RectSpec(p, n, d) == Scale(FMul(FFrac(p.an, p.ad), FSinc(p.an * n, p.ad * d)), Turn(p.an * n, 2 * p.ad * d))
ManSpec(n, d) == LET a == Turn(n, 4 * d) b == Turn(3 * n, 4 * d) IN Scale(FSinc(n, 2 * d) \div 2, <<b[1] - a[1], b[2] - a[2]>>)
ManAuto(n, d) == Tri(2 * n, d) - (Tri(2 * n - d, d) \div 2) - (Tri(2 * n + d, d) \div 2)

(* ---- spectra of the Nyquist families ---- *)
(* (|f| - f1) / alpha as numerator over denominator; f1 = (1 - alpha)/2 *)
EdgeN(p, n, d) == 2 * p.ad * AbsI(n) - (p.ad - p.an) * d
EdgeD(p, d) == 2 * p.an * d
(* 1: flat part; 2, 3: inner and outer half of the transition; 4: zero *)
Band(p, n, d) == IF 2 * p.ad * AbsI(n) < (p.ad - p.an) * d THEN 1 ELSE IF 2 * p.ad * AbsI(n) >= (p.ad + p.an) * d THEN 4
                 ELSE IF 2 * AbsI(n) < d THEN 2 ELSE 3
RcSpec(p, n, d) == LET b == Band(p, n, d) IN IF b = 1 THEN F1 ELSE IF b = 4 THEN 0
                   ELSE (F1 + FCos(EdgeN(p, n, d), 2 * EdgeD(p, d))) \div 2
RrcSpec(p, n, d) == LET b == Band(p, n, d) IN IF b = 1 THEN F1 ELSE IF b = 4 THEN 0 ELSE FCos(EdgeN(p, n, d), 4 * EdgeD(p, d))
Fall(p, n, d) == FExp2Neg(2 * FFrac(EdgeN(p, n, d), EdgeD(p, d)))             \* 2^(-2 (|f| - f1)/alpha)
Rise(p, n, d) == F1 - FExp2Neg(2 * FFrac(EdgeD(p, d) - EdgeN(p, n, d), EdgeD(p, d)))
BeSpec(p, n, d) == LET b == Band(p, n, d) IN IF b = 1 THEN F1 ELSE IF b = 4 THEN 0 ELSE IF b = 2 THEN Fall(p, n, d) ELSE Rise(p, n, d)
RbeSpec(p, n, d) == FSqrt(BeSpec(p, n, d))

(* ---- waveforms ---- *)
RcWave(p, n, d) == LET x == PN(p, n) y == PD(p, d) IN
    FMul(FSinc(n, d), FMul(FPI \div 4, FSinc(2 * x + y, 2 * y) + FSinc(2 * x - y, 2 * y)))
RcAuto(p, n, d) == LET x == PN(p, n) y == PD(p, d) IN
    RcWave(p, n, d) - FMul(FMul(FFrac(p.an, 4 * p.ad), FCos(n, 2 * d)), FSinc(x, y) + ((FSinc(x - y, y) + FSinc(x + y, y)) \div 2))
RrcWave(p, n, d) == LET x == PN(p, n) y == PD(p, d) IN
    FMul(FFrac(p.ad - p.an, p.ad), FSinc((p.ad - p.an) * n, y))
    + FMul(FFrac(p.an, p.ad), FMul(FSinc(4 * x + y, 4 * y), FCos(4 * n + d, 8 * d)) + FMul(FSinc(4 * x - y, 4 * y), FCos(4 * n - d, 8 * d)))
(* with kappa = pi alpha t / ln 2: sinc(t) (2 kappa sin(pi alpha t) + 2 cos(pi alpha t) - 1) / (kappa^2 + 1) *)
BeWave(p, n, d) == LET x == AbsI(PN(p, n)) y == PD(p, d) s == FSin(x, 2 * y) c == 2 * FCos(x, 2 * y) - F1 IN
    FMul(FSinc(n, d),
         IF 2 * x < y THEN LET k == FMul(FMul(FPI, FLOG2E), FFrac(x, y)) IN FDiv((2 * FMul(k, s)) + c, FMul(k, k) + F1)
         ELSE LET u == FMul(FMul(FLN2, FINVPI), FFrac(y, x)) IN FDiv((2 * FMul(u, s)) + FMul(FMul(u, u), c), F1 + FMul(u, u)))
(* 2 * integral of e^(-c |f - f0|) cos(2 pi f t) over f between a0 and the half-way point 1/2, a0 = f1 (sg = 1) or f2 (sg = -1); *)
(* c alpha / 2 = k ln 2 (k in quarters); divided through by (pi alpha t)^2 when alpha t > 2 *)
Lobe(p, n, d, sg, k4) ==
    LET x == PN(p, n) y == PD(p, d)
        far == AbsI(x) > 2 * y
        kk == (k4 * FLN2) \div 4
        E == FExp2Neg(k4 * Quarter)
        a == p.ad - sg * p.an
        c0 == FCos(a * n, 2 * p.ad * d) s0 == FSin(a * n, 2 * p.ad * d)
        c1 == FCos(n, 2 * d) s1 == FSin(n, 2 * d)
        dc == c0 - FMul(E, c1) ds == s0 - FMul(E, s1)
        w == FMul(FPI, FFrac(x, y))
        u == FMul(FINVPI, FFrac(y, x))
        num == FMul(kk, dc) - sg * FMul(w, ds)
        den == FMul(kk, kk) + FMul(w, w)
        ku == FMul(kk, u)
    IN FMul(FFrac(p.an, p.ad),
            IF far THEN FDiv(FMul(ku, FMul(u, dc)) - sg * FMul(u, ds), F1 + FMul(ku, ku))
            ELSE IF den < 8 * F1 THEN FDiv(num, den) ELSE FDiv(num \div 16, den \div 16))
OuterFlat(p, n, d) == FMul(FMul(FFrac(p.an, p.ad), FSinc(PN(p, n), 2 * PD(p, d))), FCos((2 * p.ad + p.an) * n, 4 * p.ad * d))
Inner(p, n, d) == FMul(FFrac(p.ad - p.an, p.ad), FSinc((p.ad - p.an) * n, p.ad * d))
BeAuto(p, n, d) == Inner(p, n, d) + Lobe(p, n, d, 1, 8) + OuterFlat(p, n, d) - 2 * Lobe(p, n, d, -1, 4) + Lobe(p, n, d, -1, 8)
(* the outer band of the root: Simpson's rule after f = f2 - (alpha/2) s^2 *)
NS == 96
NL == 960                                                                     \* |alpha t| up to 20, for alpha = 1 and d <= 8
RootNode(j, m) == FMul(FFrac(j, m), FSqrt(F1 - FExp2Neg(FFrac(j * j, m * m))))
RootNodes == [j \in 0..NS |-> RootNode(j, NS)]
RootNodesL == [j \in 0..NL |-> RootNode(j, NL)]
SimpsonW(j, m) == IF j = 0 \/ j = m THEN 1 ELSE IF j % 2 = 1 THEN 4 ELSE 2
Nodes1 == [j \in 1..NS |-> j]
Nodes1L == [j \in 1..NL |-> j]
MulDiv(x, a, b) == (x \div b) * a + ((x % b) * a) \div b
OuterSum(p, n, d, nodes, js, m, sh) == LET q == m * m IN
    FMul(FFrac(2 * p.an, p.ad), MulDiv(
         FoldLeft(LAMBDA acc, j : acc + ((SimpsonW(j, m) * FMul(nodes[j], FCos(((p.ad + p.an) * q - p.an * j * j) * n, 2 * p.ad * q * d)) + (sh \div 2)) \div sh),
                  0, js), sh, 3 * m))
RbeOuter(p, n, d) == IF AbsI(PN(p, n)) <= 2 * PD(p, d) THEN OuterSum(p, n, d, RootNodes, Nodes1, NS, 8) ELSE OuterSum(p, n, d, RootNodesL, Nodes1L, NL, 64)
RbeWave(p, n, d) == Inner(p, n, d) + Lobe(p, n, d, 1, 2) + RbeOuter(p, n, d)

(* ---- Gaussian: powers of two ---- *)
(* e^(-k pi^2 b^2 t^2) with b = B / sqrt(ln 2), as 2^(-k pi^2 (B t)^2 / (ln 2)^2) *)
GConst == FMul(FMul(FPI, FPI), FMul(FLOG2E, FLOG2E) \div 8)                   \* an eighth of pi^2 / (ln 2)^2
GFall(p, n, d, k) == LET x == AbsI(PN(p, n)) y == PD(p, d) IN
    IF 4 * x >= 7 * y THEN 0 ELSE LET r == FFrac(x, y) z == FMul(GConst, FMul(r, r)) IN IF k * z >= 4 * F1 THEN 0 ELSE FExp2Neg(8 * k * z)
GWave(p, n, d) == GFall(p, n, d, 2)
GAmp(p) == FMul(FMul(FSqrt(FLN2), FSqrt(FINVPI \div 2)), FFrac(p.ad, p.an))   \* 1 / (sqrt(2 pi) b)
GSpec(p, n, d) == LET x == AbsI(n) * p.ad y == d * p.an IN
    IF x >= 7 * y THEN 0 ELSE LET r == FFrac(x, y) IN FMul(GAmp(p), FExp2Neg(FMul(r, r) \div 2))
GEnergy(p) == FMul(FMul(FSqrt(FLN2), FSqrt(FINVPI)), FFrac(p.ad, p.an)) \div 2
GAuto(p, n, d) == FMul(GEnergy(p), GFall(p, n, d, 1))

(* ---- the interface ---- *)
Wave(p, n, d) == CASE p.k = "rect" -> RectWave(p, n, d) [] p.k = "manchester" -> ManWave(n, d) [] p.k = "sinc" -> FSinc(n, d)
                   [] p.k = "rc" -> RcWave(p, n, d) [] p.k = "rrc" -> RrcWave(p, n, d)
                   [] p.k = "be" -> (IF p.an = 0 THEN FSinc(n, d) ELSE BeWave(p, n, d))
                   [] p.k = "rbe" -> (IF p.an = 0 THEN FSinc(n, d) ELSE RbeWave(p, n, d))
                   [] p.k = "gauss" -> GWave(p, n, d)
Real(x) == <<x, 0>>
Box(n, d) == IF 2 * AbsI(n) < d THEN F1 ELSE 0
Flat(p) == p.k = "sinc" \/ (p.k \in {"rc", "rrc", "be", "rbe"} /\ p.an = 0)
Spectrum(p, n, d) == IF Flat(p) THEN Real(Box(n, d)) ELSE
    CASE p.k = "rect" -> RectSpec(p, n, d) [] p.k = "manchester" -> ManSpec(n, d)
      [] p.k = "rc" -> Real(RcSpec(p, n, d)) [] p.k = "rrc" -> Real(RrcSpec(p, n, d))
      [] p.k = "be" -> Real(BeSpec(p, n, d)) [] p.k = "rbe" -> Real(RbeSpec(p, n, d))
      [] p.k = "gauss" -> Real(GSpec(p, n, d))
Esd(p, n, d) == LET s == Spectrum(p, n, d) IN
    CASE p.k = "rrc" /\ ~Flat(p) -> RcSpec(p, n, d) [] p.k = "rbe" /\ ~Flat(p) -> BeSpec(p, n, d)
      [] OTHER -> FMul(s[1], s[1]) + FMul(s[2], s[2])
Auto(p, n, d) == CASE p.k = "rect" -> FMul(FFrac(p.an, p.ad), Tri(p.ad * n, p.an * d)) [] p.k = "manchester" -> ManAuto(n, d)
                   [] Flat(p) -> FSinc(n, d)
                   [] p.k = "rc" -> RcAuto(p, n, d) [] p.k = "rrc" -> RcWave(p, n, d)
                   [] p.k = "be" -> BeAuto(p, n, d) [] p.k = "rbe" -> BeWave(p, n, d)
                   [] p.k = "gauss" -> GAuto(p, n, d)
Energy(p) == CASE p.k = "rect" -> FFrac(p.an, p.ad) [] p.k \in {"manchester", "sinc", "rrc", "rbe"} -> F1
               [] p.k = "rc" -> F1 - FFrac(p.an, 4 * p.ad)
               [] p.k = "be" -> F1 - FMul(FFrac(p.an, 4 * p.ad), FLOG2E)
               [] p.k = "gauss" -> GEnergy(p)
(* a spectrum that is even and falls from 1 to 0: |waveform| <= 1 / (pi |t|) *)
Decay(n, d) == FMul(FINVPI, FFrac(d, AbsI(n)))
Finite(p) == p.k \in {"rect", "manchester"}
=============================================================================
