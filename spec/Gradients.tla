------------------------------ MODULE Gradients ------------------------------
(* What training sees: derivatives of the binary activations and of the      *)
(* bounded minimal gated unit, by the chain rule on exact dyadics.  A clamp  *)
(* passes the gradient strictly inside its range and blocks it outside; at   *)
(* the very edge the derivative does not exist and any value is allowed      *)
(* ("open").  Rounding passes gradients through (straight-through).          *)
EXTENDS Dyadic

DyOne  == <<1, 0>>
DyHalf == <<1, -1>>
\* nearest multiple of 2^-f, ties to even, within +-(2^(i+f) - 1) * 2^-f
DyRound(a, i, f) == Dy(SatRound(a[1], a[2] + f, P2(i + f) - 1), -f)
\* rounded to a multiple of 2^-k, unbounded
DyGrid(a, k) == IF a[2] >= -k THEN a ELSE IF a[2] < -k - 30 THEN DyZero ELSE Dy(RoundDiv(a[1], P2(-k - a[2])), -k)
DyUnit(a) == IF DyLess(a, <<-1, 0>>) THEN <<-1, 0>> ELSE IF DyLess(DyOne, a) THEN DyOne ELSE a
DyAbs(a) == <<Abs(a[1]), a[2]>>
Inside(v) == DyLess(DyAbs(v), DyOne)
Pass(on, g) == IF on THEN g ELSE DyZero
OneMinus(a) == DyAdd(DyOne, DyNeg(a))

\* value over 2^20, rounded
DyFix20(a) == IF a[1] = 0 THEN 0 ELSE IF a[2] >= -20 THEN a[1] * P2(a[2] + 20)
              ELSE IF a[2] < -50 THEN 0 ELSE RoundDiv(a[1], P2(-20 - a[2]))

\* ------------------------------------------------------------ activations --
\* gradient of element v (over 2^d) for incoming g (over 8): a fraction, or open
ActGrad(cfg, v, g) ==
  LET D == P2(cfg.d)
      num(on, n, d) == [open |-> FALSE, n |-> IF on THEN g * n ELSE 0, d |-> 8 * d]
      open == [open |-> TRUE, n |-> 0, d |-> 1]
  IN CASE cfg.f = "hsig"  -> IF Abs(v * cfg.sn) = 3 * D * cfg.sd THEN open
                             ELSE num(Abs(v * cfg.sn) < 3 * D * cfg.sd, cfg.sn, 6 * cfg.sd)
       [] cfg.f = "htanh" -> IF Abs(v) = D THEN open ELSE num(Abs(v) < D, 1, 1)
       [] cfg.f = "relu"  -> IF v = 0 \/ v * cfg.sd = cfg.sn * D THEN open ELSE num(0 < v /\ v * cfg.sd < cfg.sn * D, 1, 1)

\* ------------------------------------------------------------------- cell --
\* Operands over 8; cfg.fxp: every operand and intermediate rounded; cfg.hard:
\* piecewise linear gates, else the tables cfg.sig, cfg.tanh over 2^20 with
\* steps cfg.tstep (a power of two) and all arithmetic on the grid 2^-12.
CellRow(c, x8, h8, g8) ==
  LET nh == Len(h8)
      Q(a) == IF c.fxp THEN DyRound(a, c.iw, c.fw) ELSE a
      M(a, b) == IF c.hard THEN DyMul(a, b) ELSE DyGrid(DyMul(a, b), 12)
      Op(v) == Q(Dy(v, -3))
      Vec(s) == TLCEval([i \in 1..Len(s) |-> Op(s[i])])
      Mat(w) == TLCEval([o \in 1..nh |-> Vec(w[o])])
      x == Vec(x8)
      h == Vec(h8)
      g == TLCEval([o \in 1..nh |-> Dy(g8[o], -3)])
      hx == TLCEval(h \o x)
      wf == Mat(c.wf)
      wn == Mat(c.wn)
      Lin(w, v, b, o) == DyAdd(DySum([i \in 1..Len(v) |-> M(w[o][i], v[i])]), IF c.hasb THEN Op(b[o]) ELSE DyZero)
      \* table look-up at a grid point
      Tab(t, a, base) == DyGrid(Dy(t[Scale2(DyGrid(a, c.tstep)[1], DyGrid(a, c.tstep)[2] + c.tstep) + base], -20), 12)
      s0 == TLCEval([o \in 1..nh |-> Lin(wf, hx, c.bf, o)])
      s1 == TLCEval([o \in 1..nh |-> Q(DyUnit(s0[o]))])
      f0 == TLCEval([o \in 1..nh |-> IF c.hard THEN DyMul(DyAdd(s1[o], DyOne), DyHalf) ELSE Tab(c.sig, s1[o], c.sbase)])
      f  == TLCEval([o \in 1..nh |-> Q(f0[o])])
      fh == TLCEval([o \in 1..nh |-> Q(M(f[o], h[o]))])
      fx == TLCEval(fh \o x)
      l  == TLCEval([o \in 1..nh |-> Q(Lin(wn, fx, c.bb, o))])
      n0 == TLCEval([o \in 1..nh |-> IF c.hard THEN DyUnit(l[o]) ELSE Tab(c.tanh, l[o], c.tbase)])
      n  == TLCEval([o \in 1..nh |-> Q(n0[o])])
      pre == TLCEval([o \in 1..nh |-> DyAdd(DyAdd(n[o], DyNeg(Q(M(f[o], n[o])))), fh[o])])
      edge(v) == DyAbs(v) = DyOne
      near(v) == ~c.hard /\ DyLess(DyAbs(DyAdd(DyAbs(v), <<-1, 0>>)), <<1, -8>>)
      open == \E o \in 1..nh : \/ edge(s0[o]) \/ edge(pre[o]) \/ near(pre[o])
                               \/ c.hard /\ (edge(l[o]) \/ (edge(s1[o]) /\ Inside(s0[o])))
      \* ------ backward
      gy == TLCEval([o \in 1..nh |-> Pass(Inside(pre[o]), g[o])])
      dn == TLCEval([o \in 1..nh |-> IF c.hard THEN Pass(Inside(l[o]), DyOne) ELSE OneMinus(M(n0[o], n0[o]))])
      gv == TLCEval([o \in 1..nh |-> M(M(gy[o], OneMinus(f[o])), dn[o])])
      gfh == TLCEval([i \in 1..nh |-> DyAdd(gy[i], DySum([o \in 1..nh |-> M(gv[o], wn[o][i])]))])
      gf == TLCEval([o \in 1..nh |-> DyAdd(M(gfh[o], h[o]), DyNeg(M(gy[o], n[o])))])
      df == TLCEval([o \in 1..nh |-> IF c.hard THEN DyHalf ELSE M(f0[o], OneMinus(f0[o]))])
      gs == TLCEval([o \in 1..nh |-> Pass(Inside(s0[o]), M(gf[o], df[o]))])
      back(w, v, i) == DySum([o \in 1..nh |-> M(v[o], w[o][i])])
  IN [open |-> open,
      gh |-> TLCEval([i \in 1..nh |-> DyAdd(M(gfh[i], f[i]), back(wf, gs, i))]),
      gx |-> TLCEval([j \in 1..c.nin |-> DyAdd(back(wn, gv, nh + j), back(wf, gs, nh + j))]),
      gv |-> gv, gs |-> gs, hx |-> hx, fx |-> fx,
      m |-> [w |-> TLCEval([o \in 1..nh |-> [i \in 1..Len(hx) |-> M(gs[o], hx[i])]]),
             u |-> TLCEval([o \in 1..nh |-> [i \in 1..Len(hx) |-> M(gv[o], fx[i])]])]]

\* in: rows of <<x, h, g>> flattened row by row; out: gradients over 2^20 of
\* input, hidden state (when given), W_f, W_n, b_f, b_n, or <<>> when open
CellGrad(c, in) ==
  LET nh == Len(c.wf)
      k  == c.nin + 2 * nh
      nr == Len(in) \div k
      at(r, a, b) == SubSeq(in, (r - 1) * k + a, (r - 1) * k + b)
      R  == TLCEval([r \in 1..nr |-> CellRow(c, at(r, 1, c.nin), at(r, c.nin + 1, c.nin + nh), at(r, c.nin + nh + 1, k))])
      all(F(_)) == FlattenSeq([r \in 1..nr |-> F(R[r])])
      sum(F(_)) == DySum([r \in 1..nr |-> F(R[r])])
      wsum(F(_, _, _)) == FlattenSeq([o \in 1..nh |-> [i \in 1..(c.nin + nh) |-> DySum([r \in 1..nr |-> F(R[r], o, i)])]])
      bsum(F(_, _)) == [o \in 1..nh |-> DySum([r \in 1..nr |-> F(R[r], o)])]
      gx == all(LAMBDA q : q.gx)
      gh == IF c.none THEN <<>> ELSE all(LAMBDA q : q.gh)
      gw == wsum(LAMBDA q, o, i : q.m.w[o][i]) \o wsum(LAMBDA q, o, i : q.m.u[o][i])
      gb == IF c.hasb THEN bsum(LAMBDA q, o : q.gs[o]) \o bsum(LAMBDA q, o : q.gv[o]) ELSE <<>>
      s  == TLCEval((IF c.rgx THEN gx \o gh ELSE <<>>) \o gw \o gb)
  IN IF \E r \in 1..nr : R[r].open THEN <<>> ELSE [i \in 1..Len(s) |-> DyFix20(s[i])]
=============================================================================
