-------------------------------- MODULE Core --------------------------------
(* Integer cores shared by the streaming units: a saturating accumulator     *)
(* that emits, a skewed synchroniser, a saturating up/down counter.  Nothing *)
(* but arithmetic, so that Proofs.tla can reason about every bound and every *)
(* history; Machines.tla builds the units from these same operators.         *)
EXTENDS Integers

Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

\* add delta, saturate at +-lim, emit once when at least sc, subtract what was emitted
AccSum(lim, acc, delta) == Clamp(acc + delta, -lim, lim)
AccOut(lim, sc, acc, delta) == IF AccSum(lim, acc, delta) >= sc THEN 1 ELSE 0
AccNext(lim, sc, acc, delta) == AccSum(lim, acc, delta) - sc * AccOut(lim, sc, acc, delta)

\* skewed synchroniser with a counter 0..top
SyncOut(top, cnt, x, y) ==
  IF x = y THEN x ELSE IF x = 1 THEN IF cnt = top THEN 1 ELSE 0 ELSE IF cnt = 0 THEN 0 ELSE 1
SyncNext(top, cnt, x, y) ==
  IF x = y THEN cnt ELSE IF x = 1 THEN IF cnt = top THEN cnt ELSE cnt + 1 ELSE IF cnt = 0 THEN cnt ELSE cnt - 1

\* saturating up/down counter 0..2*half-1
CountNext(half, acc, b) == Clamp(acc + 2 * b - 1, 0, 2 * half - 1)
\* rectifier: 0 only for a 0 while the counter is at least half
ReluOut(half, acc, b) == IF b = 0 /\ acc >= half THEN 0 ELSE 1

\* registers of the hardware: an offset that wraps around, a synchroniser of integers,
\* an up/down counter that two events step
Wrap(half, e) == ((e + half) % (2 * half)) - half
Above(e) == IF e > 0 THEN 1 ELSE 0
RegNext(half, e, delta) == Wrap(half, e + delta - Above(e))
SsiOut(top, st, n, b) == IF b = 0 THEN 0 ELSE IF st + n > top THEN top ELSE st + n
SsiNext(top, st, n, b) == LET r == st + n - SsiOut(top, st, n, b) IN IF r > top THEN top ELSE r
UpDown(top, cnt, inc, dec) ==
  IF inc /\ ~dec /\ cnt < top THEN cnt + 1 ELSE IF ~inc /\ dec /\ cnt > 0 THEN cnt - 1 ELSE cnt
=============================================================================
