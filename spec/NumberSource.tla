---------------------------- MODULE NumberSource ----------------------------
(* The number sources (RNG) behind every bitstream.  A source is a finite    *)
(* sequence of 2^width integers; positions are 0-based in the code, so the   *)
(* number at position p is seq[p + 1].                                       *)
EXTENDS Util

\* Joe-Kuo parameters of the first 21 Sobol dimensions: degree, polynomial
\* coefficients a, initial direction integers m.
JK == << [s |-> 0, a |-> 0, m |-> <<>>],
         [s |-> 1, a |-> 0, m |-> <<1>>],
         [s |-> 2, a |-> 1, m |-> <<1, 3>>],
         [s |-> 3, a |-> 1, m |-> <<1, 3, 1>>],
         [s |-> 3, a |-> 2, m |-> <<1, 1, 1>>],
         [s |-> 4, a |-> 1, m |-> <<1, 1, 3, 3>>],
         [s |-> 4, a |-> 4, m |-> <<1, 3, 5, 13>>],
         [s |-> 5, a |-> 2, m |-> <<1, 1, 5, 5, 17>>],
         [s |-> 5, a |-> 4, m |-> <<1, 1, 5, 5, 5>>],
         [s |-> 5, a |-> 7, m |-> <<1, 1, 7, 11, 19>>],
         [s |-> 5, a |-> 11, m |-> <<1, 1, 5, 1, 1>>],
         [s |-> 5, a |-> 13, m |-> <<1, 1, 1, 3, 11>>],
         [s |-> 5, a |-> 14, m |-> <<1, 3, 5, 5, 31>>],
         [s |-> 6, a |-> 1, m |-> <<1, 3, 3, 9, 7, 49>>],
         [s |-> 6, a |-> 13, m |-> <<1, 1, 1, 15, 21, 21>>],
         [s |-> 6, a |-> 16, m |-> <<1, 3, 1, 13, 27, 49>>],
         [s |-> 6, a |-> 19, m |-> <<1, 1, 1, 15, 7, 5>>],
         [s |-> 6, a |-> 22, m |-> <<1, 3, 1, 15, 13, 25>>],
         [s |-> 6, a |-> 25, m |-> <<1, 1, 5, 5, 19, 61>>],
         [s |-> 7, a |-> 1, m |-> <<1, 3, 7, 11, 23, 15, 103>>],
         [s |-> 7, a |-> 4, m |-> <<1, 3, 7, 13, 13, 15, 69>>] >>

\* direction integers m_1..m_w of dimension d, by the Joe-Kuo recurrence
\*   m_k = 2 a_1 m_{k-1} ^ ... ^ 2^{s-1} a_{s-1} m_{k-s+1} ^ 2^s m_{k-s} ^ m_{k-s}
XorAll(s) == FoldFunction(LAMBDA x, y : x ^^ y, 0, s)
NextM(p, m) ==
  LET k == Len(m) + 1
      Term(j) == IF (p.a \div P2(p.s - 1 - j)) % 2 = 1 THEN P2(j) * m[k - j] ELSE 0
  IN (m[k - p.s] ^^ (P2(p.s) * m[k - p.s])) ^^ XorAll([j \in 1..(p.s - 1) |-> Term(j)])
RECURSIVE GrowM(_, _, _)
GrowM(p, m, w) == IF Len(m) >= w THEN m ELSE GrowM(p, Append(m, TLCEval(NextM(p, m))), w)
DirM(d, w) == IF d = 1 THEN Const(w, 1) ELSE SubSeq(GrowM(JK[d], JK[d].m, w), 1, w)
\* direction numbers v_k scaled to `w` bits
Directions(d, w) == LET m == TLCEval(DirM(d, w)) IN TLCEval([k \in 1..w |-> m[k] * P2(w - k)])
\* the i-th point combines the direction numbers selected by the Gray code of i
SobolSeq(w, d) ==
  LET V == TLCEval(Directions(d, w)) IN
  [i \in 1..P2(w) |->
     LET g == (i - 1) ^^ ((i - 1) \div 2)
     IN XorAll([k \in 1..w |-> IF (g \div P2(k - 1)) % 2 = 1 THEN V[k] ELSE 0])]

Ascending(w)  == [i \in 1..P2(w) |-> i - 1]
Descending(w) == [i \in 1..P2(w) |-> P2(w) - i]

Temporal == {"race", "tc", "race10", "tc10"}
SourceSeq(name, w, d) ==
  CASE name \in {"sobol", "rc"}     -> SobolSeq(w, d)
    [] name \in {"race", "tc"}      -> Ascending(w)
    [] name \in {"race10", "tc10"}  -> Descending(w)

\* ---- properties of a source ------------------------------------------------
IsPermutation(s, w) == /\ Len(s) = P2(w)
                       /\ {s[i] : i \in 1..Len(s)} = 0..(P2(w) - 1)
\* every aligned block of 2^k draws hits each of the 2^k equal sub-ranges once
IsBalanced(s, w) ==
  \A k \in 0..w : \A b \in 0..(P2(w - k) - 1) :
     {s[b * P2(k) + i] \div P2(w - k) : i \in 1..P2(k)} = 0..(P2(k) - 1)
\* all non-zero values once, then the first value again
IsLfsrCycle(s, w) == /\ Len(s) = P2(w)
                     /\ {s[i] : i \in 1..(P2(w) - 1)} = 1..(P2(w) - 1)
                     /\ s[P2(w)] = s[1]
=============================================================================
