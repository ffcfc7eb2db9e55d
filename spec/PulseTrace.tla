------------------------------ MODULE PulseTrace ------------------------------
(* A session holds a pulse object: its definition is the state, taking the    *)
(* root replaces it, and every evaluation is compared with the function the   *)
(* specification assigns to the pulse currently held.                        *)
EXTENDS Pulses, TraceKit
VARIABLES c, i, p
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
Nyquist(q) == q.k \in {"sinc", "rc", "be"}
RootOf(q) == [q EXCEPT !.k = CASE q.k = "sinc" -> "sinc" [] q.k = "rc" -> "rrc" [] q.k = "be" -> "rbe"]
Valid(q) == CASE q.k \in {"rc", "be"} -> q.an >= 0 /\ q.an <= q.ad [] q.k = "gauss" -> q.an > 0 [] q.k = "rect" -> q.an > 0 /\ q.an <= q.ad [] OTHER -> TRUE
Tol == IF p.k \in {"gauss", "be", "rbe"} THEN 100 ELSE 50
Close(a, b) == AbsI(a - b) <= Tol
Same(v, pts, f(_, _)) == Len(v) = Len(pts) /\ \A j \in 1..Len(pts) : Close(v[j], f(pts[j][1], pts[j][2]))
W(a, b) == Wave(p, a, b)
R(a, b) == Auto(p, a, b)
D(a, b) == Esd(p, a, b)
(* beyond |alpha t| = 2 the root of the Beaulieu pulse is integrated for alpha = 1 up to t = 20, and elsewhere bounded *)
RootAt(v, n, d) == IF AbsI(PN(p, n)) <= 2 * PD(p, d) \/ (p.ad = 1 /\ d <= 8 /\ AbsI(n) <= 20 * d) THEN Viol("waveform", Close(v, W(n, d)))
                   ELSE Viol(IF AbsI(PN(p, n)) < 250 * PD(p, d) THEN "waveform" ELSE "far-root-waveform", AbsI(v) <= Decay(n, d) + 50)
SameC(v, pts) == Len(v) = Len(pts) /\ \A j \in 1..Len(pts) : LET s == Spectrum(p, pts[j][1], pts[j][2]) IN Close(v[j][1], s[1]) /\ Close(v[j][2], s[2])
Grid(sps, a, b) == [j \in 1..((b - a) * sps + 1) |-> <<a * sps + j - 1, sps>>]
Bad(e) ==
    CASE e.op = "make" -> Viol("parameter-domain", e.ok = Valid(e.p))
      [] e.op = "root" -> Viol("root-defined", e.ok = Nyquist(p))
      [] e.op = "taps" /\ e.span = <<>> -> IF Finite(p) THEN (IF ~e.ok THEN {"raised"} ELSE Viol("taps", Same(e.v.d, Grid(e.sps, 0, 1), W))) ELSE Viol("span-required", Refused(e))
      [] ~e.ok -> {"raised"}
      [] e.op = "taps" -> Viol("taps", Same(e.v.d, Grid(e.sps, e.span[1], e.span[2]), W))
      [] e.op = "energy" -> Viol("energy", Close(e.v, Energy(p)))
      [] e.op = "support" -> Viol("support", e.v = IF Finite(p) THEN <<0, IF p.k = "rect" THEN FFrac(p.an, p.ad) ELSE F1>> ELSE <<-2000000000, 2000000000>>)
      [] OTHER -> Viol("shape", e.v.shape = e.dims)
            \cup Viol("input-modified", e.unmod)
            \cup CASE e.op = "waveform" /\ p.k = "rbe" /\ p.an > 0 -> UNION {RootAt(e.v.d[j], e.pts[j][1], e.pts[j][2]) : j \in 1..Len(e.pts)} \cup Viol("waveform", Len(e.v.d) = Len(e.pts))
                   [] e.op = "waveform" -> Viol("waveform", Same(e.v.d, e.pts, W))
                   [] e.op = "autocorrelation" -> Viol("autocorrelation", Same(e.v.d, e.pts, R))
                   [] e.op = "esd" -> Viol("energy-spectral-density", Same(e.v.d, e.pts, D))
                   [] e.op = "spectrum" -> Viol("spectrum", SameC(e.v.d, e.pts))
Init == c \in 1..Len(Cases) /\ i = 0 /\ p = Cases[c].p
Next == /\ i < Len(Ev)
        /\ LET bad == Bad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ (i + 1 = Len(Ev)) => Accept(c)
        /\ i' = i + 1 /\ UNCHANGED c
        /\ p' = IF E.op = "root" /\ E.ok /\ Nyquist(p) THEN RootOf(p) ELSE p
=============================================================================
