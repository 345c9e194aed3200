------------------------------- MODULE Proofs -------------------------------
(* Machine-checked (tlapm) for EVERY depth, scale and history what TLC       *)
(* checks exhaustively on small configurations: the operators are those the  *)
(* units of Machines.tla are made of.                                        *)
EXTENDS Core, TLAPS
Bit == {0, 1}

THEOREM ClampInt == ASSUME NEW x \in Int, NEW lo \in Int, NEW hi \in Int, lo <= hi
                    PROVE  Clamp(x, lo, hi) \in lo..hi
BY DEF Clamp
-----------------------------------------------------------------------------
(* C05: one step of the skewed synchroniser keeps the books and pairs        *)
THEOREM SyncInductive ==
  ASSUME NEW top \in Nat, top >= 1, NEW cnt \in 0..top, NEW x \in Bit, NEW y \in Bit
  PROVE  /\ SyncNext(top, cnt, x, y) \in 0..top
         /\ SyncNext(top, cnt, x, y) = cnt + x - SyncOut(top, cnt, x, y)
         /\ SyncOut(top, cnt, x, y) \in Bit
         /\ (SyncOut(top, cnt, x, y) = 1 /\ y = 0) => cnt = top
BY DEF SyncNext, SyncOut, Bit
-----------------------------------------------------------------------------
(* C06, C07, C16, C17: accumulate, saturate, emit.  While unsaturated,       *)
(* nothing is lost; the residue stays in range.                              *)
THEOREM AccInductive ==
  ASSUME NEW lim \in Nat, NEW sc \in Nat, sc >= 1, NEW acc \in Int, NEW delta \in Int,
         -lim <= acc, acc <= lim
  PROVE  /\ AccOut(lim, sc, acc, delta) \in Bit
         /\ AccNext(lim, sc, acc, delta) <= lim
         /\ AccNext(lim, sc, acc, delta) >= -lim
         /\ (-lim <= acc + delta /\ acc + delta <= lim) =>
              AccNext(lim, sc, acc, delta) + sc * AccOut(lim, sc, acc, delta) = acc + delta
<1> DEFINE s == AccSum(lim, acc, delta)
<1>1. s \in Int /\ -lim <= s /\ s <= lim
  BY DEF AccSum, Clamp
<1>2. (-lim <= acc + delta /\ acc + delta <= lim) => s = acc + delta
  BY DEF AccSum, Clamp
<1>3. CASE s >= sc
  <2>1. AccOut(lim, sc, acc, delta) = 1 BY <1>3 DEF AccOut
  <2>2. AccNext(lim, sc, acc, delta) = s - sc BY <2>1 DEF AccNext
  <2> QED BY <1>1, <1>2, <1>3, <2>1, <2>2 DEF Bit
<1>4. CASE ~(s >= sc)
  <2>1. AccOut(lim, sc, acc, delta) = 0 BY <1>4 DEF AccOut
  <2>2. AccNext(lim, sc, acc, delta) = s BY <2>1, <1>1 DEF AccNext
  <2> QED BY <1>1, <1>2, <2>1, <2>2 DEF Bit
<1> QED BY <1>3, <1>4

(* C06, C16: two times a unit-step input never piles up: the residue of the  *)
(* scaled additions (b + 1 against 2) is 0 or 1 whatever the stream          *)
THEOREM ResidueBit ==
  ASSUME NEW lim \in Nat, lim >= 3, NEW acc \in Bit, NEW b \in Bit
  PROVE  AccNext(lim, 2, acc, b + 1) \in Bit
<1> DEFINE t == acc + b + 1
<1>1. t \in 1..3 BY DEF Bit
<1>2. AccSum(lim, acc, b + 1) = t BY <1>1 DEF AccSum, Clamp, Bit
<1>3. CASE t >= 2
  <2>1. AccOut(lim, 2, acc, b + 1) = 1 BY <1>2, <1>3 DEF AccOut
  <2>2. AccNext(lim, 2, acc, b + 1) = t - 2 BY <1>2, <2>1, <1>1 DEF AccNext
  <2> QED BY <2>2, <1>1, <1>3 DEF Bit
<1>4. CASE ~(t >= 2)
  <2>1. AccOut(lim, 2, acc, b + 1) = 0 BY <1>2, <1>4 DEF AccOut
  <2>2. AccNext(lim, 2, acc, b + 1) = t BY <1>2, <2>1, <1>1 DEF AccNext
  <2> QED BY <2>2, <1>1, <1>4 DEF Bit
<1> QED BY <1>3, <1>4
-----------------------------------------------------------------------------
(* C12: the sign counter                                                     *)
THEOREM CountRange ==
  ASSUME NEW half \in Nat, half >= 1, NEW acc \in 0..(2 * half - 1), NEW b \in Bit
  PROVE  /\ CountNext(half, acc, b) \in 0..(2 * half - 1)
         /\ CountNext(half, acc, b) - acc \in {-1, 0, 1}
         /\ b = 1 => CountNext(half, acc, b) >= acc
         /\ b = 0 => CountNext(half, acc, b) <= acc
BY DEF CountNext, Clamp, Bit
-----------------------------------------------------------------------------
(* C15: the rectifier as a behaviour: sum is the running bipolar value of    *)
(* the output.                                                               *)
CONSTANT half
ASSUME HalfPos == half \in Nat /\ half >= 1
VARIABLES racc, sum, dropped
rvars == <<racc, sum, dropped>>
RInit == racc = half /\ sum = 0 /\ dropped = FALSE
RNext == \E b \in Bit :
  LET o == ReluOut(half, racc, b) IN
  /\ racc' = CountNext(half, racc, o)
  /\ sum' = sum + 2 * o - 1
  /\ dropped' = (dropped \/ (b = 1 /\ o = 0))
RSpec == RInit /\ [][RNext]_rvars
RInv == /\ racc \in Int /\ sum \in Int
        /\ half - 1 <= racc /\ racc <= 2 * half - 1
        /\ sum >= racc - half
        /\ dropped = FALSE
THEOREM ReluSafe == RSpec => [](sum >= -1 /\ dropped = FALSE)
<1>1. RInit => RInv BY HalfPos DEF RInit, RInv
<1>2. RInv /\ [RNext]_rvars => RInv'
  <2> SUFFICES ASSUME RInv, [RNext]_rvars PROVE RInv' OBVIOUS
  <2>1. CASE RNext
    <3> PICK b \in Bit :
          /\ racc' = CountNext(half, racc, ReluOut(half, racc, b))
          /\ sum' = sum + 2 * ReluOut(half, racc, b) - 1
          /\ dropped' = (dropped \/ (b = 1 /\ ReluOut(half, racc, b) = 0))
      BY <2>1 DEF RNext
    <3>1. CASE ReluOut(half, racc, b) = 1
      <4>1. racc' = Clamp(racc + 1, 0, 2 * half - 1) BY <3>1, HalfPos DEF CountNext, RInv
      <4>2. sum' = sum + 1 BY <3>1 DEF RInv
      <4>3. dropped' = FALSE BY <3>1 DEF RInv
      <4>4. racc' \in Int /\ half - 1 <= racc' /\ racc' <= 2 * half - 1 /\ racc' <= racc + 1
        BY <4>1, HalfPos DEF Clamp, RInv
      <4> QED BY <4>2, <4>3, <4>4, HalfPos DEF RInv
    <3>2. CASE ReluOut(half, racc, b) # 1
      <4>1. b = 0 /\ racc >= half /\ ReluOut(half, racc, b) = 0 BY <3>2 DEF ReluOut, Bit
      <4> QED BY <4>1, HalfPos DEF RInv, CountNext, Clamp
    <3> QED BY <3>1, <3>2
  <2>2. CASE UNCHANGED rvars BY <2>2 DEF rvars, RInv
  <2> QED BY <2>1, <2>2
<1>3. RInv => sum >= -1 /\ dropped = FALSE BY HalfPos DEF RInv
<1> QED BY <1>1, <1>2, <1>3, PTL DEF RSpec
-----------------------------------------------------------------------------
(* C05 as a behaviour, for every counter size                                *)
CONSTANT top
ASSUME TopPos == top \in Nat /\ top >= 1
VARIABLES cnt, ones1, onesOut, lone
svars == <<cnt, ones1, onesOut, lone>>
SInit == cnt = 0 /\ ones1 = 0 /\ onesOut = 0 /\ lone = FALSE
SNext == \E x \in Bit, y \in Bit :
  LET o == SyncOut(top, cnt, x, y) IN
  /\ cnt' = SyncNext(top, cnt, x, y)
  /\ ones1' = ones1 + x
  /\ onesOut' = onesOut + o
  /\ lone' = (lone \/ (o = 1 /\ y = 0 /\ cnt # top))
SSpec == SInit /\ [][SNext]_svars
SInv == cnt \in 0..top /\ ones1 \in Int /\ onesOut \in Int /\ ones1 = onesOut + cnt /\ lone = FALSE
THEOREM SyncSafe == SSpec => [](ones1 = onesOut + cnt /\ cnt \in 0..top /\ lone = FALSE)
<1>1. SInit => SInv BY TopPos DEF SInit, SInv
<1>2. SInv /\ [SNext]_svars => SInv'
  <2> SUFFICES ASSUME SInv, [SNext]_svars PROVE SInv' OBVIOUS
  <2>1. CASE SNext
    <3> PICK x \in Bit, y \in Bit :
          /\ cnt' = SyncNext(top, cnt, x, y)
          /\ ones1' = ones1 + x
          /\ onesOut' = onesOut + SyncOut(top, cnt, x, y)
          /\ lone' = (lone \/ (SyncOut(top, cnt, x, y) = 1 /\ y = 0 /\ cnt # top))
      BY <2>1 DEF SNext
    <3> QED BY SyncInductive, TopPos DEF SInv, Bit
  <2>2. CASE UNCHANGED svars BY <2>2 DEF svars, SInv
  <2> QED BY <2>1, <2>2
<1>3. SInv => (ones1 = onesOut + cnt /\ cnt \in 0..top /\ lone = FALSE) BY DEF SInv
<1> QED BY <1>1, <1>2, <1>3, PTL DEF SSpec
-----------------------------------------------------------------------------
(* C07/C06/C17 as a behaviour: any limit, any scale, any sequence of sums    *)
CONSTANTS lim, sc
ASSUME LimPos == lim \in Nat /\ sc \in Nat /\ sc >= 1
VARIABLES acc, total, emitted, sat
avars == <<acc, total, emitted, sat>>
AInit == acc = 0 /\ total = 0 /\ emitted = 0 /\ sat = FALSE
ANext == \E delta \in Int :
  /\ acc' = AccNext(lim, sc, acc, delta)
  /\ total' = total + delta
  /\ emitted' = emitted + sc * AccOut(lim, sc, acc, delta)
  /\ sat' = (sat \/ ~(-lim <= acc + delta /\ acc + delta <= lim))
ASpec == AInit /\ [][ANext]_avars
AInv == /\ acc \in Int /\ total \in Int /\ emitted \in Int /\ sat \in BOOLEAN
        /\ -lim <= acc /\ acc <= lim
        /\ (~sat => emitted + acc = total)
THEOREM AddSafe == ASpec => [](-lim <= acc /\ acc <= lim /\ (~sat => emitted + acc = total))
<1>1. AInit => AInv BY LimPos DEF AInit, AInv
<1>2. AInv /\ [ANext]_avars => AInv'
  <2> SUFFICES ASSUME AInv, [ANext]_avars PROVE AInv' OBVIOUS
  <2>1. CASE ANext
    <3> PICK delta \in Int :
          /\ acc' = AccNext(lim, sc, acc, delta)
          /\ total' = total + delta
          /\ emitted' = emitted + sc * AccOut(lim, sc, acc, delta)
          /\ sat' = (sat \/ ~(-lim <= acc + delta /\ acc + delta <= lim))
      BY <2>1 DEF ANext
    <3> DEFINE o == AccOut(lim, sc, acc, delta)
               n == AccNext(lim, sc, acc, delta)
    <3>1. o \in Bit /\ n <= lim /\ n >= -lim
          /\ ((-lim <= acc + delta /\ acc + delta <= lim) => n + sc * o = acc + delta)
      BY AccInductive, LimPos DEF AInv
    <3>2. n \in Int /\ sc * o \in Int
      BY <3>1, LimPos DEF AccNext, AccSum, Clamp, Bit, AInv
    <3> HIDE DEF o, n
    <3> QED BY <3>1, <3>2, LimPos DEF AInv, o, n
  <2>2. CASE UNCHANGED avars BY <2>2 DEF avars, AInv
  <2> QED BY <2>1, <2>2
<1>3. AInv => (-lim <= acc /\ acc <= lim /\ (~sat => emitted + acc = total)) BY DEF AInv
<1> QED BY <1>1, <1>2, <1>3, PTL DEF ASpec
-----------------------------------------------------------------------------
(* C31: the correlation lies in [-1, 1] for all joint counts                 *)
SccNum(a, b, c, d) == a * d - b * c
SccPos(a, b, c, d) == IF b <= c THEN (a + b) * (b + d) ELSE (a + c) * (c + d)
SccNeg(a, b, c, d) == IF a >= d THEN (b + d) * (c + d) ELSE (a + b) * (a + c)
THEOREM SccForms ==
  ASSUME NEW a \in Nat, NEW b \in Nat, NEW c \in Nat, NEW d \in Nat
  PROVE  /\ SccPos(a, b, c, d) = (a + b + c + d) * (IF a + b <= a + c THEN a + b ELSE a + c) - (a + b) * (a + c)
         /\ (a + b) * (a + c) - (a + b + c + d) * (IF a - d >= 0 THEN a - d ELSE 0) = SccNeg(a, b, c, d)
<1>1. (a + b + c + d) * (a + b) - (a + b) * (a + c) = (a + b) * (b + d) OBVIOUS
<1>2. (a + b + c + d) * (a + c) - (a + b) * (a + c) = (a + c) * (c + d) OBVIOUS
<1>3. (a + b) * (a + c) - (a + b + c + d) * (a - d) = (b + d) * (c + d) OBVIOUS
<1>4. (a + b) * (a + c) - (a + b + c + d) * 0 = (a + b) * (a + c) OBVIOUS
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF SccPos, SccNeg
THEOREM SccRange ==
  ASSUME NEW a \in Nat, NEW b \in Nat, NEW c \in Nat, NEW d \in Nat
  PROVE  /\ SccNum(a, b, c, d) <= SccPos(a, b, c, d)
         /\ -SccNum(a, b, c, d) <= SccNeg(a, b, c, d)
<1>1. a*b \in Nat /\ a*c \in Nat /\ a*d \in Nat /\ b*b \in Nat /\ b*c \in Nat /\ b*d \in Nat /\ c*c \in Nat /\ c*d \in Nat /\ a*a \in Nat /\ d*d \in Nat OBVIOUS
<1>2. (a + b) * (b + d) = a*b + a*d + b*b + b*d OBVIOUS
<1>3. (a + c) * (c + d) = a*c + a*d + c*c + c*d OBVIOUS
<1>4. (b + d) * (c + d) = b*c + b*d + c*d + d*d OBVIOUS
<1>5. (a + b) * (a + c) = a*a + a*c + a*b + b*c OBVIOUS
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF SccNum, SccPos, SccNeg
-----------------------------------------------------------------------------
(* C41: the registers of the RTL, for every width.  Without overflow the      *)
(* polarity converter's register f + delta shows a cycle later what the       *)
(* functional accumulator (residue f, saturating) emits now, and the relation *)
(* "residue = register minus its output" goes on; reset establishes it.       *)
Follows(e, f) == f = e - Above(e)
THEOREM WrapId == ASSUME NEW h \in Nat, h >= 1, NEW e \in Int, -h <= e, e < h PROVE Wrap(h, e) = e
<1>1. e + h \in 0..(2 * h - 1) OBVIOUS
<1>2. (e + h) % (2 * h) = e + h BY <1>1, Z3
<1> QED BY <1>2 DEF Wrap
THEOREM Bi2UniFollows ==
  ASSUME NEW h \in Nat, h >= 2, NEW e \in Int, NEW f \in Int, NEW delta \in Int, Follows(e, f),
         -(h - 1) <= f + delta, f + delta <= h - 1
  PROVE  /\ Above(RegNext(h, e, delta)) = AccOut(h - 1, 1, f, delta)
         /\ Follows(RegNext(h, e, delta), AccNext(h - 1, 1, f, delta))
<1>1. e + delta - Above(e) = f + delta BY DEF Follows, Above
<1>2. RegNext(h, e, delta) = f + delta BY <1>1, WrapId DEF RegNext
<1>3. AccSum(h - 1, f, delta) = f + delta BY DEF AccSum, Clamp
<1> QED BY <1>2, <1>3 DEF Above, AccOut, AccNext, Follows
THEOREM ResetFollows == Follows(0, 0) BY DEF Follows, Above
(* what a synchroniser of integers takes in equals what it gives out plus     *)
(* what it holds, unless it must hold more than it can                        *)
THEOREM SsiConserves ==
  ASSUME NEW t \in Nat, NEW st \in 0..t, NEW n \in 0..t, NEW b \in Bit
  PROVE  /\ SsiNext(t, st, n, b) \in 0..t
         /\ SsiOut(t, st, n, b) \in 0..t
         /\ (b = 1 \/ st + n <= t) => SsiNext(t, st, n, b) = st + n - SsiOut(t, st, n, b)
<1>1. CASE b = 0 BY <1>1 DEF SsiNext, SsiOut, Bit
<1>2. CASE b = 1 BY <1>2 DEF SsiNext, SsiOut, Bit
<1> QED BY <1>1, <1>2 DEF Bit
(* C42, C43: the counters of the dividers and roots                           *)
THEOREM UpDownRange ==
  ASSUME NEW t \in Nat, NEW c \in 0..t, NEW i \in BOOLEAN, NEW d \in BOOLEAN
  PROVE  /\ UpDown(t, c, i, d) \in 0..t
         /\ UpDown(t, c, i, d) - c \in {-1, 0, 1}
         /\ (i <=> d) => UpDown(t, c, i, d) = c
         /\ (i /\ ~d /\ c < t) => UpDown(t, c, i, d) = c + 1
         /\ (d /\ ~i /\ c > 0) => UpDown(t, c, i, d) = c - 1
BY DEF UpDown
=============================================================================
