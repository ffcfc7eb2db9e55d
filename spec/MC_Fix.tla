------------------------------- MODULE MC_Fix -------------------------------
(* The machine turns by 1/D over and over, carrying <<cos, sin>> by the       *)
(* addition theorem, and halves and multiplies along; the closed forms of Fix *)
(* must agree.                                                               *)
EXTENDS Fix
CONSTANTS D
VARIABLES n, p, e, q
Near(x, y) == FAbs(x - y) <= 4 + 3 * n
Rot(a, b) == <<FMul(a[1], b[1]) - FMul(a[2], b[2]), FMul(a[1], b[2]) + FMul(a[2], b[1])>>
Unit == <<FCos(1, D), FSin(1, D)>>
Init == n = 0 /\ p = <<F1, 0>> /\ e = F1 /\ q = 0
Next == n < 2 * D /\ n' = n + 1 /\ p' = Rot(p, Unit) /\ e' = FMul(e, FExp2Neg(FFrac(1, 16))) /\ q' = (q * 7 + 3) % D
Spec == Init /\ [][Next]_<<n, p, e, q>>
Turn == Near(p[1], FCos(n, D)) /\ Near(p[2], FSin(n, D))
OneTurn == FAbs(FMul(FCos(n, D), FCos(n, D)) + FMul(FSin(n, D), FSin(n, D)) - F1) <= 8
Parity == FSin(-n, D) = -FSin(n, D) /\ FCos(-n, D) = FCos(n, D) /\ FCos(n + D, D) = FCos(n, D) /\ FAbs(FSin(n, D) - FCos(4 * n - D, 4 * D)) <= 8
(* sinc by its definition, and by doubling: sinc(2x) = sinc(x) cos(pi x) *)
Sincs == /\ FAbs(FSinc(2 * n, D) - FMul(FSinc(n, D), FCos(n, 2 * D))) <= 8
         /\ FSinc(-n, D) = FSinc(n, D)
         /\ (n % D = 0 /\ n > 0) => FAbs(FSinc(n, D)) <= 1
         /\ n > 0 => FAbs(FMul(FMul(FSinc(n, D), FPI), FFrac(n, D)) - FSin(n, 2 * D)) <= 16
Powers == /\ (n <= 16 * 12) => FAbs(e - FExp2Neg(FFrac(n, 16))) <= 12
          /\ (n % 16 = 0 /\ n \div 16 <= 24) => FExp2Neg((n \div 16) * F1) = 2^(24 - (n \div 16))
          /\ FAbs(FMul(FExpNeg(FFrac(n % 60, 15)), FExpNeg(FFrac(q % 40, 15))) - FExpNeg(FFrac((n % 60) + (q % 40), 15))) <= 12
Roots == LET x == FFrac(q, 97) r == FSqrt(x) IN FMul(r, r) <= x /\ FMul(r + 1, r + 1) >= x
Division == LET x == FFrac(n + 1, D) y == FFrac(q + 16, 64) IN FAbs(FMul(FDiv(x, y), y) - x) <= 8 + (y \div F1)
Consts == FMul(FPI, FINVPI) \in (F1 - 4)..(F1 + 4) /\ FMul(FLN2, FLOG2E) \in (F1 - 4)..(F1 + 4)
          /\ FCos(1, 6) \in ((F1 \div 2) - 4)..((F1 \div 2) + 4) /\ FCos(1, 4) = 0 /\ FCos(1, 2) = -F1 /\ FAbs(FCos(1, 8) - FSqrt(F1 \div 2)) <= 4
          \* the circumference: D chords of length 2 sin(1/(2D)) approach 2 pi from below
          /\ LET c == D * FSin(1, 2 * D) IN FAbs(c - FPI) <= FPI \div D
          \* and the derivative of 2^-x at 0 is -ln 2
          /\ FAbs((F1 - FExp2Neg(F1 \div 1024)) * 1024 - FLN2) <= 8192
=============================================================================
