------------------------------- MODULE Dyadic -------------------------------
(* Exact binary fractions <<m, e>> = m * 2^e in normal form (m odd, or       *)
(* <<0, 0>>): what a float tensor holds, so equality is exact equality.      *)
EXTENDS Util

RECURSIVE DyNormNZ(_, _)
DyNormNZ(m, e) == IF m % 65536 = 0 THEN DyNormNZ(m \div 65536, e + 16)
                  ELSE IF m % 256 = 0 THEN DyNormNZ(m \div 256, e + 8)
                  ELSE IF m % 4 = 0 THEN DyNormNZ(m \div 4, e + 2)
                  ELSE IF m % 2 = 0 THEN DyNormNZ(m \div 2, e + 1) ELSE <<m, e>>
Dy(m, e) == IF m = 0 THEN <<0, 0>> ELSE DyNormNZ(m, e)
DyZero == <<0, 0>>
DyAdd(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
               ELSE IF a[2] <= b[2] THEN Dy(a[1] + b[1] * P2(b[2] - a[2]), a[2])
               ELSE Dy(b[1] + a[1] * P2(a[2] - b[2]), b[2])
DyMul(a, b) == Dy(a[1] * b[1], a[2] + b[2])
DyNeg(a)    == <<-a[1], a[2]>>
DySum(s)    == FoldFunction(DyAdd, DyZero, s)
\* position of the leading bit: 2^Bits-1 <= |m| < 2^Bits
RECURSIVE FLog2(_)
FLog2(n) == IF n >= 65536 THEN 16 + FLog2(n \div 65536) ELSE IF n >= 2 THEN 1 + FLog2(n \div 2) ELSE 0
DyTop(a) == FLog2(Abs(a[1])) + a[2]          \* floor(log2 |a|), a # 0
DyLess(a, b) ==
  IF Sgn(a[1]) # Sgn(b[1]) THEN Sgn(a[1]) < Sgn(b[1])
  ELSE IF a = b \/ a[1] = 0 THEN FALSE
  ELSE IF DyTop(a) # DyTop(b) THEN (DyTop(a) < DyTop(b)) = (a[1] > 0)
  ELSE DyAdd(a, DyNeg(b))[1] < 0
DyLeq(a, b) == a = b \/ DyLess(a, b)
\* the finite non-numbers of the log: NaN and infinities carry exponent 9999
IsNumber(a) == a[2] # 9999

\* x * 2^s rounded half to even and limited to +-lim, without overflow
SatRound(x, s, lim) ==
  IF s >= 0 THEN IF x # 0 /\ (s > 30 \/ Abs(x) > lim \div P2(s)) THEN Sgn(x) * lim ELSE IF x = 0 THEN 0 ELSE x * P2(s)
  ELSE IF s < -30 THEN 0 ELSE Clamp(RoundDiv(x, P2(-s)), -lim, lim)
SatTrunc(x, s, lim) ==
  IF s >= 0 THEN IF x # 0 /\ (s > 30 \/ Abs(x) > lim \div P2(s)) THEN Sgn(x) * lim ELSE IF x = 0 THEN 0 ELSE x * P2(s)
  ELSE IF s < -30 THEN 0 ELSE Clamp(TruncDiv(x, P2(-s)), -lim, lim)

\* log2 of a positive integer under the three rounding modes
RoundLog2(mode, n) ==
  LET k == FLog2(n) IN
  CASE mode = "floor" -> k
    [] mode = "ceil"  -> IF n = P2(k) THEN k ELSE k + 1
    [] mode = "round" -> IF n < 32768 THEN IF n * n < P2(2 * k + 1) THEN k ELSE k + 1
                         ELSE LET m == n \div P2(k - 14) IN IF m * m < P2(29) THEN k ELSE k + 1
=============================================================================
