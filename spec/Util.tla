-------------------------------- MODULE Util --------------------------------
(* Integer helpers shared by every module of the UnarySim specification.     *)
EXTENDS Core, Sequences, FiniteSets, TLC, Bitwise, SequencesExt, Functions

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Abs(a)     == IF a < 0 THEN -a ELSE a
Sgn(a)     == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
B2I(b)     == IF b THEN 1 ELSE 0
XorB(a, b)  == (a + b) % 2                  \* on bits
SumSeq(s)  == FoldFunction(+, 0, s)
SumF(n, F(_)) == FoldFunction(+, 0, [i \in 1..n |-> F(i)])
MaxSeq(s)  == FoldFunction(Max2, s[1], s)
MinSeq(s)  == FoldFunction(Min2, s[1], s)
Pow2Tab    == TLCEval([k \in 0..30 |-> 2^k])
P2(k)      == Pow2Tab[k]

\* floor/trunc/ceil division and rounding to nearest, ties to even, den > 0
FloorDiv(n, d) == n \div d                 \* TLC's \div floors
CeilDiv(n, d)  == -((-n) \div d)
TruncDiv(n, d) == IF n >= 0 THEN n \div d ELSE -((-n) \div d)
RoundDiv(n, d) == LET q == n \div d
                      r == 2 * (n - q * d)
                  IN IF r < d THEN q
                     ELSE IF r > d THEN q + 1
                     ELSE IF q % 2 = 0 THEN q ELSE q + 1
Const(n, x) == [i \in 1..n |-> x]
\* x * 2^k for any integer k, exact only (k < 0 requires divisibility)
Scale2(x, k) == IF k >= 0 THEN x * P2(k) ELSE x \div P2(-k)
=============================================================================
