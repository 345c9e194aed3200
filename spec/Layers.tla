------------------------------- MODULE Layers -------------------------------
(* The binary-domain half of UnarySim: encoders, quantisers, hybrid layers,  *)
(* cells and helpers.  Each is a function called any number of times, so a   *)
(* "unit" here has a (mostly trivial) state and one step = one call.         *)
(* Operands are integers with a power-of-two denominator 2^d in the config;  *)
(* results are exact dyadics, or fractions compared within a stated bound.   *)
EXTENDS Pipeline, Gradients

LayerKinds == {"rng", "bingen", "rawscale", "round", "roundgrad", "hubact",
               "hublin", "fxplin", "tlutlin", "hubconv", "fxpconv", "tlutconv",
               "grad", "hubmgu", "hardmgu", "hardmgufxp", "shape", "clipper", "pipe", "report", "tnorm",
               "actgrad", "cellgrad"}

\* ---------------------------------------------------------------- sources --
RngInit == <<>>
\* names whose sequence is determined; beyond the tabulated Sobol dimensions and
\* for the random sources only the shape of the sequence is
Determined(cfg) == cfg.r # -1
RngRead(cfg, st, obs) == IF st # <<>> THEN st ELSE IF Determined(cfg) THEN RngTab[cfg.r] ELSE obs
RngBad(cfg, s) ==
  CASE cfg.name \in {"sobol", "rc"} -> IF ~IsPermutation(s, cfg.w) THEN "permutation"
                                       ELSE IF ~IsBalanced(s, cfg.w) THEN "balanced" ELSE ""
    [] cfg.name \in {"race", "tc"} -> IF \E i \in 1..Len(s) : s[i] # i - 1 THEN "ascending" ELSE ""
    [] cfg.name \in {"race10", "tc10"} -> IF \E i \in 1..Len(s) : s[i] # Len(s) - i THEN "descending" ELSE ""
    [] cfg.name = "sys"  -> IF ~IsPermutation(s, cfg.w) THEN "permutation" ELSE ""
    [] cfg.name = "lfsr" -> IF ~IsLfsrCycle(s, cfg.w) THEN "lfsr-cycle" ELSE ""

\* ----------------------------------------------------------- range scaling --
\* quantile of a sorted sequence, linear interpolation, in units of 1/den:
\* position (num/den)*(n-1)
Sorted(s) == TLCEval(SortSeq(s, <))
QuantU(ss, num, den) ==
  LET p == num * (Len(ss) - 1)
      k == p \div den
      f == p % den
  IN ss[k + 1] * den + (IF f = 0 THEN 0 ELSE f * (ss[k + 2] - ss[k + 1]))
\* q = qn/qd: the two symmetric quantiles, in units of 1/(2 qd)
LowQ(ss, qn, qd)  == QuantU(ss, qd - qn, 2 * qd)
HighQ(ss, qn, qd) == QuantU(ss, qd + qn, 2 * qd)
RangeU(ss, qn, qd) == Max2(Abs(LowQ(ss, qn, qd)), Abs(HighQ(ss, qn, qd)))
\* exponent of the range of xs (integers over 2^d): rounded log2, 0 if no range
RangeExp(mode, xs, d, qn, qd) ==
  LET u == TLCEval(RangeU(Sorted(xs), qn, qd))
  IN IF u = 0 THEN 0 ELSE RoundLog2(mode, u) - FLog2(2 * qd) - d

\* RawScale: <<num, den>> per element
RawScale(cfg, xs) ==
  LET ss == Sorted(xs)
      lo == TLCEval(LowQ(ss, cfg.qn, cfg.qd))
      hi == TLCEval(HighQ(ss, cfg.qn, cfg.qd))
      sc == Max2(Abs(lo), Abs(hi))
  IN [i \in 1..Len(xs) |-> <<Clamp(xs[i] * 2 * cfg.qd, lo, hi), sc>>]

\* ------------------------------------------------------------------ Round --
\* nearest multiple of 2^-f, ties to even, within +-(2^(iw+f) - 1) * 2^-f
RoundOne(cfg, a) == DyRound(a, cfg.iw, cfg.fw)

\* -------------------------------------------------------------- matrices ----
\* flattened row-major: row r of a matrix with n columns
Row(x, r, n) == SubSeq(x, (r - 1) * n + 1, r * n)
Flat(rows) == FlattenSeq(rows)
\* rows the layer multiplies: batch rows, or image patches (position-major)
RowsOf(kind, cfg, x) ==
  IF kind \in {"hubconv", "fxpconv", "tlutconv"}
  THEN LET sz == cfg.g.C * cfg.g.H * cfg.g.W
           n  == NPos(cfg.g)
       IN [r \in 1..(cfg.batch * n) |->
             TLCEval(PatchAt(cfg.g, Row(x, ((r - 1) \div n) + 1, sz), 0, ((r - 1) % n) + 1))]
  ELSE [r \in 1..cfg.batch |-> Row(x, r, Len(cfg.wn[1]))]
\* results per row (sequences over outputs) laid out like the real output
Layout(kind, cfg, res) ==
  IF kind \in {"hubconv", "fxpconv", "tlutconv"}
  THEN LET n == NPos(cfg.g)
           no == Len(cfg.wn)
       IN [k \in 1..(cfg.batch * no * n) |->
             LET b == (k - 1) \div (no * n)
                 o == ((k - 1) \div n) % no
                 p == (k - 1) % n
             IN res[b * n + p + 1][o + 1]]
  ELSE Flat(res)
WithBias(cfg, o, v) == IF cfg.hasb THEN DyAdd(v, Dy(cfg.bn[o], -cfg.db)) ELSE v
Weights(cfg) == Flat(cfg.wn)

\* -------------------------------------------------------------------- HUB ----
\* ones the multiplicand emits during the controller's ones
CtlOnes(s, i) == Cardinality({t \in 1..Len(s) : i > s[t]})
\* prefix counts: PrefixOnes(c)[k + 1][v] = ones value v emits in the first k cycles
PrefixOnes(c, n) ==
  FoldLeft(LAMBDA acc, k : Append(acc, TLCEval([v \in 0..(n - 1) |-> acc[k][v] + B2I(v > c[k])])),
           <<[v \in 0..(n - 1) |-> 0]>>, [k \in 1..n |-> k])
\* map[i][w]; the controller is the input unless the weight is temporal coded
HubMap(ri, rw, wtc, n) ==
  LET ctl == IF wtc THEN RngTab[rw] ELSE RngTab[ri]
      cee == IF wtc THEN RngTab[ri] ELSE RngTab[rw]
      ones == TLCEval([v \in 0..(n - 1) |-> CtlOnes(ctl, v)])
      pre == TLCEval(PrefixOnes(cee, n))
  IN TLCEval([i \in 0..(n - 1) |-> TLCEval([w \in 0..(n - 1) |->
        IF wtc THEN pre[ones[w] + 1][i] ELSE pre[ones[i] + 1][w]])])
HubTab == TLCEval([k \in 1..Len(Doc.rngs) |->
            IF "map" \in DOMAIN Doc.rngs[k]
            THEN LET m == Doc.rngs[k].map IN HubMap(m.ri, m.rw, m.wtc, P2(m.width))
            ELSE <<>>])
\* Accuracy of hybrid products over low-discrepancy streams: the ones counted differ
\* from the exact product i*w/n by at most width/3 + 1, for every pair of operands
ASSUME \A k \in 1..Len(Doc.rngs) : "map" \in DOMAIN Doc.rngs[k] =>
         LET m == Doc.rngs[k].map  n == P2(m.width)
             cee == Doc.rngs[IF m.wtc THEN m.ri ELSE m.rw] IN
         (n <= 64 /\ cee.rng \in {"sobol", "rc"}) =>
           \A i, w \in 0..(n - 1) : 3 * Abs(HubTab[k][i][w] * n - i * w) <= (m.width + 3) * n
HubCycle(cfg) == LET m == P2(cfg.width - 1) IN IF cfg.cyc = -1 THEN m ELSE Min2(cfg.cyc, m)
HubOut(kind, cfg, x) ==
  LET wd == cfg.width - 1
      ei == TLCEval(RangeExp(cfg.rmode, x, cfg.dx, cfg.qin, cfg.qid))
      ew == TLCEval(RangeExp(cfg.rmode, Weights(cfg), cfg.dw, cfg.qwn, cfg.qwd))
      lim == HubCycle(cfg) - 1
      QX(v) == SatRound(Abs(v), wd - ei - cfg.dx, lim)
      QW(v) == SatRound(Abs(v), wd - ew - cfg.dw, lim)
      M == HubTab[cfg.hm]
      wq == TLCEval([o \in 1..Len(cfg.wn) |-> [i \in 1..Len(cfg.wn[o]) |-> QW(cfg.wn[o][i])]])
      rows == RowsOf(kind, cfg, x)
      one(row) == LET xq == TLCEval([i \in 1..Len(row) |-> QX(row[i])]) IN
        TLCEval([o \in 1..Len(cfg.wn) |->
           WithBias(cfg, o, Dy(SumSeq([i \in 1..Len(row) |->
              Sgn(row[i]) * Sgn(cfg.wn[o][i]) * M[xq[i]][wq[o][i]]]), ei + ew - wd))])
  IN Layout(kind, cfg, TLCEval([r \in 1..Len(rows) |-> one(rows[r])]))

\* -------------------------------------------------------------------- FXP ----
FxpOut(kind, cfg, x) ==
  LET ei == TLCEval(RangeExp(cfg.rmode, x, cfg.dx, cfg.qin, cfg.qid))
      ew == TLCEval(RangeExp(cfg.rmode, Weights(cfg), cfg.dw, cfg.qwn, cfg.qwd))
      si == ei - (cfg.widthi - 1)
      sw == ew - (cfg.widthw - 1)
      QX(v) == SatRound(v, -si - cfg.dx, P2(cfg.widthi - 1) - 1)
      QW(v) == SatRound(v, -sw - cfg.dw, P2(cfg.widthw - 1) - 1)
      wq == TLCEval([o \in 1..Len(cfg.wn) |-> [i \in 1..Len(cfg.wn[o]) |-> QW(cfg.wn[o][i])]])
      rows == RowsOf(kind, cfg, x)
      one(row) == LET xq == TLCEval([i \in 1..Len(row) |-> QX(row[i])]) IN
        TLCEval([o \in 1..Len(cfg.wn) |->
           WithBias(cfg, o, Dy(SumSeq([i \in 1..Len(row) |-> xq[i] * wq[o][i]]), si + sw))])
  IN Layout(kind, cfg, TLCEval([r \in 1..Len(rows) |-> one(rows[r])]))

\* ------------------------------------------------------------------- TLUT ----
\* magnitude split into base-2^wt digits, each limited to cyc - 1, recombined
RECURSIVE Recombine(_, _, _)
Recombine(m, wt, cyc) ==
  IF m = 0 THEN 0 ELSE Min2(m % P2(wt), cyc - 1) + P2(wt) * Recombine(m \div P2(wt), wt, cyc)
TlutCycle(cfg) == LET m == P2(cfg.widtht) IN IF cfg.cyc = -1 THEN m ELSE Min2(cfg.cyc, m)
Mantissa(fmt, w) == CASE fmt = "fxp" -> w - 1 [] fmt = "bfloat16" -> 8 [] fmt = "float16" -> 11 [] fmt = "float32" -> 24
\* an operand as the multiplier sees it; vs = all values of that operand
TlutOperand(cfg, isTemporal, fmt, other, width, vs, d, qn, qd) ==
  LET cyc == TlutCycle(cfg)
      Rec(m) == Sgn(m) * Recombine(Abs(m), cfg.widtht, cyc)
      bothfp == fmt # "fxp" /\ other # "fxp"
      bothfx == fmt = "fxp" /\ other = "fxp"
      wd == IF bothfx THEN width - 1 ELSE Mantissa(fmt, width)
      e  == TLCEval(RangeExp(cfg.rmode, vs, d, qn, qd))
      s  == e - wd
      q  == [v \in {vs[i] : i \in 1..Len(vs)} |->
               IF bothfp /\ isTemporal THEN
                 IF v = 0 THEN DyZero
                 ELSE LET b == FLog2(Abs(v)) + 1
                      IN Dy(Rec(Sgn(v) * SatTrunc(Abs(v), wd - b, P2(wd) - 1)), b - wd - d)
               ELSE IF ~bothfx /\ ~isTemporal THEN Dy(v, -d)
               ELSE LET m == SatTrunc(v, -s - d, P2(wd) - 1)
                    IN Dy(IF isTemporal THEN Rec(m) ELSE m, s)]
  IN TLCEval(q)
TlutOut(kind, cfg, x) ==
  LET rows == RowsOf(kind, cfg, x)
      ti == cfg.temporal = "i"
      \* the convolution measures the range on the padded patches it multiplies
      xq == TlutOperand(cfg, ti, cfg.formati, cfg.formatw, cfg.widthi, Flat(rows), cfg.dx, cfg.qin, cfg.qid)
      wq == TlutOperand(cfg, ~ti, cfg.formatw, cfg.formati, cfg.widthw, Weights(cfg), cfg.dw, cfg.qwn, cfg.qwd)
      one(row) ==
        TLCEval([o \in 1..Len(cfg.wn) |->
           WithBias(cfg, o, DySum([i \in 1..Len(row) |-> DyMul(xq[row[i]], wq[cfg.wn[o][i]])]))])
  IN Layout(kind, cfg, TLCEval([r \in 1..Len(rows) |-> one(rows[r])]))

\* -------------------------------------------------------------- gradients ----
\* of the unquantised layer: in = <<x, g>>; out = grad of input, weight, bias
GradOut(cfg, x, g) ==
  LET conv == cfg.conv
      k    == IF conv THEN "hubconv" ELSE "hublin"
      no == Len(cfg.wn)
      ni == Len(cfg.wn[1])
      rows == RowsOf(k, cfg, x)
      nr == Len(rows)
      n  == IF conv THEN NPos(cfg.g) ELSE 1
      \* incoming gradient of output o at row r
      G(r, o) == IF conv THEN LET b == (r - 1) \div n
                                  p == (r - 1) % n
                              IN g[b * no * n + (o - 1) * n + p + 1]
                 ELSE g[(r - 1) * no + o]
      \* row r gives its column i the gradient sum_o G * w
      RG == TLCEval([r \in 1..nr |-> TLCEval([i \in 1..ni |-> SumSeq([o \in 1..no |-> G(r, o) * cfg.wn[o][i]])])])
      \* which input cell a patch column reads (0 = padding): patches of the cell numbers themselves
      sz == cfg.g.C * cfg.g.H * cfg.g.W
      cells == TLCEval([p \in 1..n |-> TLCEval(PatchAt(cfg.g, [j \in 1..sz |-> j], 0, p))])
      gx == IF conv THEN
              [q \in 1..(cfg.batch * sz) |->
                 LET b == (q - 1) \div sz
                     j == ((q - 1) % sz) + 1
                 IN SumSeq([p \in 1..n |-> SumSeq([i \in 1..ni |-> IF cells[p][i] = j THEN RG[b * n + p][i] ELSE 0])])]
            ELSE Flat(RG)
      gw == [z \in 1..(no * ni) |->
               LET o == ((z - 1) \div ni) + 1
                   i == ((z - 1) % ni) + 1
               IN SumSeq([r \in 1..nr |-> G(r, o) * rows[r][i]])]
      gb == IF cfg.hasb THEN [o \in 1..no |-> SumSeq([r \in 1..nr |-> G(r, o)])] ELSE <<>>
      \* an operand that does not require gradients gets none
      Want(on, s) == IF on THEN s ELSE <<>>
  IN Want(cfg.rgx, [i \in 1..Len(gx) |-> Dy(gx[i], -(cfg.dg + cfg.dw))])
     \o Want(cfg.rgw, [i \in 1..Len(gw) |-> Dy(gw[i], -(cfg.dg + cfg.dx))])
     \o Want(cfg.rgb, [i \in 1..Len(gb) |-> Dy(gb[i], -cfg.dg)])

\* ------------------------------------------------------------ activations ----
\* data over 2^cfg.d; scale sn/sd
HubAct(cfg, v) ==
  LET D == P2(cfg.d) IN
  CASE cfg.f = "hsig"  -> <<Clamp(v * cfg.sn + 3 * D * cfg.sd, 0, 6 * D * cfg.sd), 6 * D * cfg.sd>>
    [] cfg.f = "htanh" -> <<Clamp(v, -D, D), D>>
    [] cfg.f = "relu"  -> <<Clamp(v * cfg.sd, 0, cfg.sn * D), D * cfg.sd>>

\* ------------------------------------------------------------------ cells ----
\* HUB cell: encode, run a fresh streaming cell one full period, decode
MguRun(cfg, hl, xl, st0, T, ones0) ==
  FoldLeft(LAMBDA a, t :
             LET r == TLCEval(MguStep(cfg, hl, a.st, [i \in 1..Len(xl) |-> StreamBit(cfg.r, xl[i], t - 1)],
                                      [h \in 1..Len(hl) |-> StreamBit(cfg.r, hl[h], t - 1)]))
             IN TLCEval([st |-> r.st, ones |-> [h \in 1..Len(hl) |-> a.ones[h] + r.out[h]]]),
           [st |-> st0, ones |-> ones0], [t \in 1..T |-> t]).ones
HubMgu(cfg, in) ==
  LET xl == TLCEval([i \in 1..cfg.nin |-> Level("bipolar", cfg.width, in[i], cfg.hden)])
      hl == TLCEval([h \in 1..Len(cfg.f.w) |-> Level("bipolar", cfg.width, in[cfg.nin + h], cfg.hden)])
      T  == P2(cfg.width)
      on == MguRun(cfg, hl, xl, MguInit(cfg), T, [h \in 1..Len(hl) |-> 0])
  IN [h \in 1..Len(hl) |-> 2 * on[h] - T]

\* Hard cell on data over 8 (hard: exact, over 2^20; soft: table-driven).
\* cfg.sig[k] = sigmoid((k - 65) / 64), cfg.tanh[k] = tanh((k - 513) / 64), over 2^20
SigSoft(cfg, s64) == cfg.sig[s64 + 65]
TanhSoft(cfg, u) ==                               \* u over 2^20
  LET c == Clamp(u, -(8 * P2(20)) + 1, 8 * P2(20) - 1)
      k == c \div P2(14)
      f == c - k * P2(14)
      a == cfg.tanh[k + 513]
      b == cfg.tanh[k + 514]
  IN a + ((b - a) * (f \div 4)) \div P2(12)
HardMgu(cfg, in) ==
  LET nh == Len(cfg.wf)
      x  == SubSeq(in, 1, cfg.nin)
      h  == SubSeq(in, cfg.nin + 1, Len(in))
      hx == h \o x
      B(b, o) == IF cfg.hasb THEN b[o] ELSE 0
      \* over 64, clamped to [-1, 1]
      s  == TLCEval([o \in 1..nh |-> Clamp(SumSeq([i \in 1..Len(hx) |-> cfg.wf[o][i] * hx[i]]) + 8 * B(cfg.bf, o), -64, 64)])
  IN IF cfg.hard
     THEN LET fg == [o \in 1..nh |-> s[o] + 64]                               \* over 128
              fh == TLCEval([o \in 1..nh |-> fg[o] * h[o]])                    \* over 1024
              v  == TLCEval([o \in 1..nh |->                                    \* over 8192
                      Clamp(SumSeq([i \in 1..nh |-> cfg.wn[o][i] * fh[i]])
                            + 128 * SumSeq([i \in 1..cfg.nin |-> cfg.wn[o][nh + i] * x[i]])
                            + 1024 * B(cfg.bb, o), -8192, 8192)])
          IN [o \in 1..nh |-> Clamp(v[o] * 128 - fg[o] * v[o] + fh[o] * 1024, -P2(20), P2(20))]
     ELSE LET fg == TLCEval([o \in 1..nh |-> SigSoft(cfg, s[o])])              \* over 2^20
              fh == TLCEval([o \in 1..nh |-> (fg[o] * h[o]) \div 8])
              u  == TLCEval([o \in 1..nh |->
                      (SumSeq([i \in 1..nh |-> cfg.wn[o][i] * fh[i]]) \div 8)
                      + P2(14) * SumSeq([i \in 1..cfg.nin |-> cfg.wn[o][nh + i] * x[i]])
                      + P2(17) * B(cfg.bb, o)])
              ng == TLCEval([o \in 1..nh |-> TanhSoft(cfg, u[o])])
          IN [o \in 1..nh |-> Clamp(ng[o] - ((fg[o] \div 32) * (ng[o] \div 32)) \div 1024 + fh[o], -P2(20), P2(20))]
\* Fixed-point cell: R rounds to 2^-f.  A value is held over 2^f, products
\* over 2^2f; raw operands are over 8.
HardMguFxp(cfg, in) ==
  LET nh == Len(cfg.wf)
      F  == P2(cfg.fw)
      top == P2(cfg.iw + cfg.fw) - 1
      R(num, den) == Clamp(RoundDiv(num, den), -top, top)                      \* num/den in units of 2^-f
      RR(v) == R(v * F, 8)                                                     \* raw operand over 8
      x  == TLCEval([i \in 1..cfg.nin |-> RR(in[i])])
      h  == TLCEval([i \in 1..nh |-> RR(in[cfg.nin + i])])
      hx == h \o x
      wf == TLCEval([o \in 1..nh |-> [i \in 1..Len(hx) |-> RR(cfg.wf[o][i])]])
      wn == TLCEval([o \in 1..nh |-> [i \in 1..Len(hx) |-> RR(cfg.wn[o][i])]])
      B(b, o) == IF cfg.hasb THEN RR(b[o]) ELSE 0
      s  == TLCEval([o \in 1..nh |->
              R(Clamp(SumSeq([i \in 1..Len(hx) |-> wf[o][i] * hx[i]]) + F * B(cfg.bf, o), -F * F, F * F), F)])
      \* sigmoid of a grid value, rounded to the grid
      fg == TLCEval([o \in 1..nh |-> IF cfg.hard THEN R(s[o] + F, 2) ELSE cfg.sig[s[o] + F + 1]])
      \* with the hard sigmoid the gate itself is not yet rounded, R(fg) is
      fh == TLCEval([o \in 1..nh |-> R(fg[o] * h[o], F)])
      l  == TLCEval([o \in 1..nh |->
              R(SumSeq([i \in 1..nh |-> wn[o][i] * fh[i]]) + SumSeq([i \in 1..cfg.nin |-> wn[o][nh + i] * x[i]])
                + F * B(cfg.bb, o), F)])
      ng == TLCEval([o \in 1..nh |-> IF cfg.hard THEN R(Clamp(l[o], -F, F), 1) ELSE cfg.tanh[l[o] + top + 1]])
      fn == TLCEval([o \in 1..nh |-> R(fg[o] * ng[o], F)])
  IN [o \in 1..nh |-> Clamp(ng[o] - fn[o] + fh[o], -F, F)]

\* ------------------------------------------------------------ conv helpers ----
\* an argument is <<v>> (both axes), <<h, w>>, or for paddings <<top, bottom, left, right>>
Ax(a, k) == IF Len(a) = 1 THEN a[1] ELSE a[k]
PadSum(a, k) == IF Len(a) = 4 THEN a[2 * k - 1] + a[2 * k] ELSE 2 * Ax(a, k)
ConvLen(a, k)  == (Ax(a.h, k) + PadSum(a.p, k) - Ax(a.d, k) * (Ax(a.k, k) - 1) - 1) \div Ax(a.s, k) + 1
TransLen(a, k) == (Ax(a.h, k) - 1) * Ax(a.s, k) - PadSum(a.p, k) + Ax(a.d, k) * (Ax(a.k, k) - 1) + Ax(a.o, k) + 1
\* total padding that yields the requested length exactly
ConvPad(a, k)  == (Ax(a.t, k) - 1) * Ax(a.s, k) - Ax(a.h, k) + Ax(a.d, k) * (Ax(a.k, k) - 1) + 1
TransPad(a, k) == (Ax(a.h, k) - 1) * Ax(a.s, k) + Ax(a.d, k) * (Ax(a.k, k) - 1) + Ax(a.o, k) + 1 - Ax(a.t, k)
Halves(n) == <<n \div 2, n - (n \div 2)>>
\* f: the helper; the answer is followed by what torch's own operator gives,
\* where it accepts the arguments (cfg.real)
ShapeOut(cfg, a) ==
  CASE cfg.f = "conv"   -> LET s == <<ConvLen(a, 1), ConvLen(a, 2)>> IN IF a.real = 1 THEN s \o s ELSE s
    [] cfg.f = "trans"  -> LET s == <<TransLen(a, 1), TransLen(a, 2)>> IN IF a.real = 1 THEN s \o s ELSE s
    [] cfg.f = "convpad" -> LET s == Halves(ConvPad(a, 1)) \o Halves(ConvPad(a, 2)) IN
                            IF a.real = 1 THEN s \o <<Ax(a.t, 1), Ax(a.t, 2)>> ELSE s
    [] cfg.f = "transpad" -> LET s == Halves(TransPad(a, 1)) \o Halves(TransPad(a, 2)) IN
                             IF a.real = 1 THEN s \o <<Ax(a.t, 1), Ax(a.t, 2)>> ELSE s

\* ----------------------------------------------------------------- clipper ----
\* tensors of integers over 2^d; the grid is 2^-bw (unipolar) or 2^(1-bw)
ClipOne(cfg, xs, norm) ==
  LET D == P2(cfg.d)
      G == IF cfg.mode = "unipolar" THEN P2(cfg.bw) ELSE P2(cfg.bw - 1)
      lo == MinSeq(xs)
      hi == MaxSeq(xs)
      L  == IF cfg.mode = "unipolar" THEN 0 ELSE -D
  IN [i \in 1..Len(xs) |->
        IF norm THEN IF cfg.mode = "unipolar" THEN RoundDiv((xs[i] - lo) * G, hi - lo)
                     ELSE RoundDiv((2 * xs[i] - lo - hi) * G, hi - lo)
        ELSE RoundDiv(Clamp(xs[i], L, D) * G, D)]
ClipInit(cfg) == [f |-> cfg.freq, w |-> <<>>, b |-> <<>>]
\* in.w, in.b: values stored in the parameters before the call (<<>> = whatever
\* the previous call left, which lies on the grid)
Regrid(cfg, xs) == LET G == IF cfg.mode = "unipolar" THEN cfg.bw ELSE cfg.bw - 1
                   IN [i \in 1..Len(xs) |-> IF cfg.d >= G THEN xs[i] * P2(cfg.d - G) ELSE xs[i] \div P2(G - cfg.d)]
ClipStep(cfg, st, in) ==
  LET norm == st.f <= 1
      w0 == IF in.w # <<>> THEN in.w ELSE Regrid(cfg, st.w)
      b0 == IF in.b # <<>> THEN in.b ELSE Regrid(cfg, st.b)
      w1 == IF cfg.hasw THEN TLCEval(ClipOne(cfg, w0, norm)) ELSE <<>>
      b1 == IF cfg.hasb THEN TLCEval(ClipOne(cfg, b0, norm)) ELSE <<>>
  IN [st |-> [f |-> st.f + 1, w |-> w1, b |-> b1], out |-> w1 \o b1]

\* ----------------------------------------------------------------- reports ----
\* Printed statistics, read back as integers.  "outlier": units of 10^-6 (the
\* operands are multiples of 2^-6) and 10^-4 percent.  "prog": a ProgError metric
\* fed between reports; units of 2^-11, which every error is a multiple of (the
\* cycle counts and source denominators are powers of two).
RU == 2048
RepInit(cfg) == [n |-> 0, c |-> Const(cfg.k, 0)]
RepStep(cfg, st, in) ==
  [n |-> st.n + Len(in.bits),
   c |-> [i \in 1..cfg.k |-> st.c[i] + SumSeq([t \in 1..Len(in.bits) |-> in.bits[t][i]])]]
RepPP(cfg, st)  == [i \in 1..cfg.k |-> IF cfg.mode = "bipolar" THEN (2 * st.c[i] - st.n) * (RU \div st.n)
                                       ELSE st.c[i] * (RU \div st.n)]
RepSrc(cfg)     == [i \in 1..cfg.k |-> cfg.src[i] * (RU \div P2(cfg.d))]
\* v within tol of the exact statistic of the integers xs
StatMean(xs, v, tol) == Abs(v * Len(xs) - SumSeq(xs)) <= tol * Len(xs)
Sqs(xs) == SumSeq([i \in 1..Len(xs) |-> xs[i] * xs[i]])
Within(v, tol, m, tot) == LET lo == Max2(0, v - tol) IN v >= 0 /\ lo * lo * m <= tot /\ tot <= (v + tol) * (v + tol) * m
StatRmse(xs, v, tol) == Within(v, tol, Len(xs), Sqs(xs))
StatStd(xs, v, tol)  == LET k == Len(xs)  t == SumSeq(xs) IN Within(v, tol, k * (k - 1), k * Sqs(xs) - t * t)
\* a printed line: <<label, what, min, max, std, mean(, rmse)>>
LineOk(cfg, l, what, xs) ==
  /\ l[1] = cfg.label /\ l[2] = what
  /\ l[3] = MinSeq(xs) /\ l[4] = MaxSeq(xs)
  /\ StatStd(xs, l[5], 1) /\ StatMean(xs, l[6], 1)
  /\ IF what = "Absolute Error" THEN Len(l) = 7 /\ StatRmse(xs, l[7], 1) ELSE Len(l) = 6
\* relative errors in 1/64: E/P, each rounded
RelOk(cfg, l, E, P) ==
  LET Q == TLCEval([i \in 1..Len(E) |-> IF P[i] = 0 THEN 0
                     ELSE RoundDiv(E[i] * 64 * Sgn(P[i]), Abs(P[i]))]) IN
  /\ l[1] = cfg.label /\ l[2] = "Relative Error" /\ Len(l) = 7
  /\ Abs(l[3] - MinSeq(Q)) <= 1 /\ Abs(l[4] - MaxSeq(Q)) <= 1
  /\ StatStd(Q, l[5], 2) /\ StatMean(Q, l[6], 2) /\ StatRmse(Q, l[7], 2)
ReportOk(cfg, st, obs) ==
  CASE cfg.f = "outlier" ->
         LET U == 15625 * P2(6 - cfg.d)
             out == Cardinality({i \in 1..Len(st) : Abs(st[i]) > P2(cfg.d)}) IN
         /\ Len(obs) = 1 /\ Len(obs[1]) = 4 /\ obs[1][1] = cfg.label
         /\ obs[1][2] = MinSeq(st) * U /\ obs[1][3] = MaxSeq(st) * U
         /\ Abs(obs[1][4] * Len(st) - out * 1000000) <= 2 * Len(st)
    [] cfg.f = "prog" ->
         LET P == TLCEval(RepPP(cfg, st))
             S == TLCEval(RepSrc(cfg))
             E == TLCEval([i \in 1..cfg.k |-> P[i] - S[i]])
             o == IF cfg.value THEN 2 ELSE 0 IN
         /\ Len(obs) = o + 1 + B2I(cfg.relative)
         /\ cfg.value => LineOk(cfg, obs[1], "Binary Value", S) /\ LineOk(cfg, obs[2], "Unary Value", P)
         /\ LineOk(cfg, obs[o + 1], "Absolute Error", E)
         /\ cfg.relative => RelOk(cfg, obs[o + 2], E, P)

\* ---------------------------------------------------- truncated normal ----
\* values drawn from a normal distribution, redrawn while they lie outside two
\* standard deviations; in units of 2^-18 standard deviations from the mean
TnU == 262144
TnIn(z) == Abs(z) <= 2 * TnU
TnCount(obs, lo, hi) == Cardinality({i \in 1..Len(obs) : lo <= Abs(obs[i]) /\ Abs(obs[i]) < hi})
\* share of elements with a property: |count/n - p/1000| within 9 deviations of a
\* binomial (sqrt(n)/2 each), so that a sound generator never fails it
Share(n, cnt, p) == LET dev == 1000 * cnt - p * n   q == Abs(dev) \div 1000 IN n < 200 \/ 4 * q * q <= 81 * n
TnOk(cfg, obs) ==
  LET n == Len(obs) IN
  /\ n = cfg.k
  /\ \A i \in 1..n : Abs(obs[i]) <= 2 * TnU + 64
  \* a redrawn value is a new draw: values do not pile up anywhere
  /\ n > 1 => Cardinality({obs[i] : i \in 1..n}) >= n - n \div 3
  \* (nor at a single one, such as an edge of the band: a value's likelihood is below 1/5000)
  /\ LET s == TLCEval(SortSeq(obs, <))   most == 4 + n \div 64
     IN \A i \in 1..n - most : s[i] # s[i + most]
  \* of the truncated normal, 71.5% lie within one deviation, 40.1% within half
  \* of one and 9.2% beyond 1.5; both signs are equally likely
  /\ Share(n, TnCount(obs, 0, TnU), 715)
  /\ Share(n, TnCount(obs, 0, TnU \div 2), 401)
  /\ Share(n, TnCount(obs, 3 * (TnU \div 2), 3 * TnU), 92)
  /\ Share(n, Cardinality({i \in 1..n : obs[i] < 0}), 500)

\* ---------------------------------------------------------------- dispatch ----
LInit(kind, cfg, lp) ==
  CASE kind = "rng" -> RngInit
    [] kind = "clipper" -> ClipInit(cfg)
    [] kind = "report" -> IF cfg.f = "prog" THEN RepInit(cfg) ELSE 0
    [] OTHER -> 0
\* obs is the observed result: relational units (random sources) adopt it
LStep(kind, cfg, lp, st, in, obs) ==
  CASE kind = "rng"       -> LET q == RngRead(cfg, st, obs) IN Res(q, q)
    [] kind = "bingen"    -> Res(0, [i \in 1..Len(in) |-> Level(cfg.mode, cfg.width, in[i], P2(cfg.d))])
    [] kind = "rawscale"  -> Res(0, RawScale(cfg, in))
    [] kind = "round"     -> Res(0, [i \in 1..Len(in) |-> RoundOne(cfg, in[i])])
    [] kind = "roundgrad" -> Res(0, in)
    [] kind = "hubact"    -> Res(0, [i \in 1..Len(in) |-> HubAct(cfg, in[i])])
    [] kind \in {"hublin", "hubconv"}   -> Res(0, HubOut(kind, cfg, in))
    [] kind \in {"fxplin", "fxpconv"}   -> Res(0, FxpOut(kind, cfg, in))
    [] kind \in {"tlutlin", "tlutconv"} -> Res(0, TlutOut(kind, cfg, in))
    [] kind = "grad"      -> Res(0, GradOut(cfg, in.x, in.g))
    [] kind = "hubmgu"    -> Res(0, HubMgu(cfg, in))
    [] kind = "hardmgu"   -> Res(0, HardMgu(cfg, in))
    [] kind = "hardmgufxp" -> Res(0, HardMguFxp(cfg, in))
    [] kind = "shape"     -> Res(0, ShapeOut(cfg, in))
    [] kind = "clipper"   -> ClipStep(cfg, st, in)
    [] kind = "pipe"      -> Res(0, PipeOut(cfg, in))
    [] kind = "report"    -> LET q == IF cfg.f = "prog" THEN RepStep(cfg, st, in) ELSE in IN Res(q, q)
    [] kind = "tnorm"     -> Res(0, obs)
    [] kind = "actgrad"   -> Res(0, [i \in 1..Len(in.x) |-> ActGrad(cfg, in.x[i], in.g[i])])
    [] kind = "cellgrad"  -> Res(0, CellGrad(cfg, in))

\* does the observed result match?  Exact except where the code divides by
\* values that are not powers of two or evaluates transcendental functions.
Near(obs, num, den, S, tol) == Abs(obs) <= 8 * S /\ Abs(obs * den - num * S) <= tol * den
LOk(kind, cfg, st, exp, obs) ==
  CASE kind = "rawscale" -> /\ Len(exp) = Len(obs)
                            /\ \A i \in 1..Len(exp) : 
                                 /\ Abs(obs[i]) <= P2(14)
                                 /\ Near(obs[i], exp[i][1], exp[i][2], P2(14), 1)
                                 /\ (Abs(exp[i][1]) \in {0, exp[i][2]} => obs[i] = Sgn(exp[i][1]) * P2(14))
    [] kind = "hubact"  -> /\ Len(exp) = Len(obs)
                           /\ \A i \in 1..Len(exp) :
                                IF cfg.f = "hsig" THEN Near(obs[i], exp[i][1], exp[i][2], P2(14), 1)
                                                       /\ (exp[i][1] \in {0, exp[i][2]} => obs[i] * exp[i][2] = exp[i][1] * P2(14))
                                ELSE obs[i] * exp[i][2] = exp[i][1] * P2(14)
    [] kind = "hardmgu" -> /\ Len(exp) = Len(obs)
                           /\ \A i \in 1..Len(exp) : /\ Abs(obs[i]) <= P2(20)
                                                      /\ Abs(exp[i] - obs[i]) <= (IF cfg.hard THEN 4 ELSE 192)
    [] kind = "report" -> ReportOk(cfg, exp, obs)
    [] kind = "tnorm" -> TnOk(cfg, obs)
    [] kind = "actgrad" -> /\ Len(exp) = Len(obs)
                           /\ \A i \in 1..Len(exp) : exp[i].open \/ Near(obs[i], exp[i].n, exp[i].d, P2(14), 2)
    [] kind = "cellgrad" -> exp = <<>> \/
                            /\ Len(exp) = Len(obs)
                            /\ \A i \in 1..Len(exp) : Abs(exp[i] - obs[i]) <= (IF cfg.hard THEN 16 ELSE 16384) + Abs(exp[i]) \div 65536
    [] OTHER -> exp = obs

\* ------------------------------------------------- clauses on results ----
\* What the properties promise about ANY result, judged on the observed one.
Mono(xs, ys) == \A i, j \in 1..Len(xs) : xs[i] <= xs[j] => ys[i] <= ys[j]
LBad(kind, cfg, in, obs) ==
  CASE kind = "rng" -> RngBad(cfg, obs)
    [] kind = "pipe" -> PipeBad(cfg, in, obs)
    [] kind = "bingen" ->
         LET D == P2(cfg.d)
             \* level * D vs value on the level scale
             V(i) == IF cfg.mode = "unipolar" THEN 2 * in[i] ELSE in[i] + D
         IN IF \E i \in 1..Len(in) : obs[i] < 0 \/ obs[i] > P2(cfg.width) THEN "range"
            ELSE IF \E i \in 1..Len(in) : Abs(2 * obs[i] * D - V(i) * P2(cfg.width)) > D THEN "nearest"
            ELSE IF Len(in) <= 40 /\ ~Mono(in, obs) THEN "monotone" ELSE ""
    [] kind = "rawscale" ->
         IF Len(in) <= 40 /\ ~Mono(in, obs) THEN "order" ELSE ""
    [] kind = "round" ->
         LET top == Dy(P2(cfg.iw + cfg.fw) - 1, -cfg.fw) IN
         IF \E i \in 1..Len(in) : DyLess(top, obs[i]) \/ DyLess(obs[i], DyNeg(top)) THEN "range"
         ELSE IF \E i \in 1..Len(in) : obs[i][1] # 0 /\ obs[i][2] < -cfg.fw THEN "grid"
         ELSE IF \E i \in 1..Len(in) : RoundOne(cfg, obs[i]) # obs[i] THEN "idempotent"
         ELSE IF Len(in) <= 30 /\ \E i, j \in 1..Len(in) : DyLess(in[i], in[j]) /\ DyLess(obs[j], obs[i]) THEN "monotone"
         ELSE IF Len(in) <= 30 /\ \E i, j \in 1..Len(in) : in[i] = DyNeg(in[j]) /\ obs[i] # DyNeg(obs[j]) THEN "odd"
         ELSE ""
    [] kind \in {"hublin", "hubconv"} ->
         LET n == P2(cfg.width - 1) IN
         IF \E o \in 1..Len(obs) : ~IsNumber(obs[o]) THEN "finite"
         ELSE IF n <= 8 /\ \E i, w \in 0..(n - 1) : HubTab[cfg.hm][i][w] > Min2(i, w) THEN "map-bound"
         ELSE ""
    [] kind = "tlutlin" ->
         \* without early termination the digits recombine to the operand itself
         LET rows == RowsOf(kind, cfg, in)
             xq == TlutOperand(cfg, FALSE, "fxp", "fxp", cfg.widthi, in, cfg.dx, cfg.qin, cfg.qid)
             wq == TlutOperand(cfg, FALSE, "fxp", "fxp", cfg.widthw, Weights(cfg), cfg.dw, cfg.qwn, cfg.qwd)
         IN IF cfg.formati = "fxp" /\ cfg.formatw = "fxp" /\ TlutCycle(cfg) = P2(cfg.widtht)
               /\ obs # Flat([r \in 1..Len(rows) |-> [o \in 1..Len(cfg.wn) |->
                    WithBias(cfg, o, DySum([i \in 1..Len(rows[r]) |-> DyMul(xq[rows[r][i]], wq[cfg.wn[o][i]])]))]])
            THEN "recombination" ELSE ""
    [] kind \in {"fxplin", "fxpconv"} ->
         \* data already on the grid and in range: the ordinary layer
         LET ei == RangeExp(cfg.rmode, in, cfg.dx, cfg.qin, cfg.qid)
             ew == RangeExp(cfg.rmode, Weights(cfg), cfg.dw, cfg.qwn, cfg.qwd)
             On(v, e, w, d) == LET s == w - 1 - e - d IN
                /\ (s < 0 => -s <= 30 /\ v % P2(-s) = 0)
                /\ Abs(SatTrunc(v, s, P2(w))) < P2(w - 1)
             rows == RowsOf(kind, cfg, in)
         IN IF (\A i \in 1..Len(in) : On(in[i], ei, cfg.widthi, cfg.dx))
               /\ (\A i \in 1..Len(Weights(cfg)) : On(Weights(cfg)[i], ew, cfg.widthw, cfg.dw))
               /\ obs # Layout(kind, cfg, [r \in 1..Len(rows) |-> [o \in 1..Len(cfg.wn) |->
                     WithBias(cfg, o, Dy(SumSeq([i \in 1..Len(rows[r]) |-> rows[r][i] * cfg.wn[o][i]]), -(cfg.dx + cfg.dw)))]])
            THEN "grid-identity" ELSE ""
    [] kind = "shape" -> IF cfg.f = "convpad" /\ (obs[2] - obs[1] \notin {0, 1} \/ obs[4] - obs[3] \notin {0, 1}) THEN "sides"
                         ELSE IF cfg.f = "convpad" /\ ConvLen([in EXCEPT !.p = SubSeq(obs, 1, 4)], 1) # Ax(in.t, 1) THEN "inverse"
                         ELSE IF cfg.f = "transpad" /\ TransLen([in EXCEPT !.p = SubSeq(obs, 1, 4)], 1) # Ax(in.t, 1) THEN "inverse"
                         ELSE ""
    [] OTHER -> ""
=============================================================================
