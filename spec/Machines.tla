------------------------------ MODULE Machines ------------------------------
(* The streaming units of UnarySim as deterministic integer state machines.  *)
(* One step = one call of forward() = one hardware cycle, for ONE element    *)
(* (lane) of the tensors, because elements never interact.  Every unit `k`   *)
(* has  <k>Init(...)  and  <k>Step(..., st, in...)  yielding                 *)
(* [st |-> next state, out |-> sequence of output bits].  The arithmetic of   *)
(* the accumulating units is in Core, about which Proofs has theorems.       *)
EXTENDS Sources

Res(st, out) == [st |-> st, out |-> out]
Num(r, p) == RngTab[r][(p % Len(RngTab[r])) + 1]

\* ------------------------------------------------------------- encoding ----
\* BinGen: nearest level, ties to even; the source value is num/den
Level(mode, w, num, den) ==
  IF mode = "unipolar" THEN RoundDiv(num * P2(w), den)
                       ELSE RoundDiv((num + den) * P2(w), 2 * den)
\* BSGen: bit of value v at stream index c
StreamBit(r, v, c) == B2I(v > Num(r, c))

\* ------------------------------------------------------------ polarity -----
PolMax(depth) == P2(depth - 2)
Bi2UniInit == 0
Bi2UniStep(depth, acc, b) ==
  Res(AccNext(PolMax(depth), 1, acc, 2 * b - 1), <<AccOut(PolMax(depth), 1, acc, 2 * b - 1)>>)
Uni2BiInit == 0
Uni2BiStep(depth, acc, b) ==
  Res(AccNext(PolMax(depth), 2, acc, b + 1), <<AccOut(PolMax(depth), 2, acc, b + 1)>>)

\* ---------------------------------------------------------- skewed sync ----
SyncInit == 0
SyncStep(depth, cnt, x, y) ==
  LET top == P2(depth) - 1 IN Res(SyncNext(top, cnt, x, y), <<SyncOut(top, cnt, x, y), y>>)

\* ------------------------------------------------------- shift register ----
ShiftInit(n) == [i \in 1..n |-> (i - 1) % 2]
ShiftOf(win, b) == Append(Tail(win), b)
\* mask = 1 shifts, mask = 0 holds; outputs are taken before shifting
ShiftStep(win, b, mask, idx) ==
  Res(IF mask = 1 THEN ShiftOf(win, b) ELSE win,
      << win[(IF idx < 0 THEN Len(win) + idx ELSE idx) + 1], SumSeq(win) >>)

\* ------------------------------------------------------------------ JK -----
JKInit == 0
JKStep(q, j, k) ==
  LET J == B2I(j # 0)
      K == B2I(k # 0)
      n == IF J = 0 /\ K = 0 THEN q ELSE IF K = 0 THEN 1 ELSE IF J = 0 THEN 0 ELSE 1 - q
  IN Res(n, <<n>>)

\* ------------------------------------------------------- sign / absolute ---
SignAbsInit(depth) == P2(depth - 1)
SignAbsStep(depth, acc, b) ==
  LET a == CountNext(P2(depth - 1), acc, b)
      s == B2I(a < P2(depth - 1))
  IN Res(a, <<s, XorB(s, b)>>)

\* ---------------------------------------------------------------- ReLU -----
ReluInit(depth) == P2(depth - 1)
ReluStep(depth, acc, b) ==
  LET o == ReluOut(P2(depth - 1), acc, b)
  IN Res(CountNext(P2(depth - 1), acc, o), <<o>>)

\* ------------------------------------------------------------- addition ----
\* All quantities are multiplied by an even D so that fractional scales and
\* half-integer bipolar offsets stay integers; sc = scale * D.
AddOffset(mode, entry, sc, D) == IF mode = "bipolar" THEN (entry * D - sc) \div 2 ELSE 0
AddInit == 0
AddStep(mode, depth, entry, sc, D, acc, ones) ==
  LET lim == P2(depth - 2) * D
      dlt == ones * D - AddOffset(mode, entry, sc, D)
  IN Res(AccNext(lim, sc, acc, dlt), <<AccOut(lim, sc, acc, dlt)>>)

\* ------------------------------------------------------- multiplication ----
\* static multiplier of level v read through source r; n1/n0 are read positions
MulSInit == [n1 |-> 0, n0 |-> 0]
MulSStep(mode, r, v, st, b) ==
  LET per == Len(RngTab[r]) IN
  IF b = 1 THEN Res([st EXCEPT !.n1 = (@ + 1) % per], <<StreamBit(r, v, st.n1)>>)
  ELSE IF mode = "unipolar" THEN Res(st, <<0>>)
  ELSE Res([st EXCEPT !.n0 = (@ + 1) % per], <<1 - StreamBit(r, v, st.n0)>>)
\* in-stream multiplier: the level is the number of ones in a sliding window
MulIInit(r) == [win |-> ShiftInit(Len(RngTab[r])), n1 |-> 0, n0 |-> 0]
MulIStep(mode, r, st, b, c) ==
  LET v == SumSeq(st.win)
      m == MulSStep(mode, r, v, [n1 |-> st.n1, n0 |-> st.n0], b)
  IN Res([win |-> ShiftOf(st.win, c), n1 |-> m.st.n1, n0 |-> m.st.n0], m.out)

\* ------------------------------------------------------------- division ----
\* entry = Len(RngTab[r]) stored quotient bits; idx advances every cycle
KernInit(entry) == [win |-> ShiftInit(entry), idx |-> 0]
KernStep(r, st, dividend, divisor) ==
  LET q == IF divisor = 1 THEN dividend ELSE st.win[Num(r, st.idx) + 1]
  IN Res([win |-> IF divisor = 1 THEN ShiftOf(st.win, q) ELSE st.win,
          idx |-> (st.idx + 1) % Len(RngTab[r])], <<q>>)

DivInit(mode, cfg) ==
  LET base == [sync |-> SyncInit, kern |-> KernInit(cfg.entry)] IN
  IF mode = "unipolar" THEN base
  ELSE base @@ [sa1 |-> SignAbsInit(cfg.depth_sa), sa2 |-> SignAbsInit(cfg.depth_sa),
                bu1 |-> Bi2UniInit, bu2 |-> Bi2UniInit, ub |-> Uni2BiInit]
DivUni(cfg, st, x, y) ==
  LET s == SyncStep(cfg.depth_ss, st.sync, x, y)
      k == KernStep(cfg.r, st.kern, s.out[1], s.out[2])
  IN [sync |-> s.st, kern |-> k.st, q |-> k.out[1]]
DivStep(mode, cfg, st, x, y) ==
  IF mode = "unipolar"
  THEN LET u == DivUni(cfg, st, x, y) IN Res([sync |-> u.sync, kern |-> u.kern], <<u.q>>)
  ELSE LET a1 == SignAbsStep(cfg.depth_sa, st.sa1, x)
           a2 == SignAbsStep(cfg.depth_sa, st.sa2, y)
           b1 == Bi2UniStep(3, st.bu1, a1.out[2])
           b2 == Bi2UniStep(3, st.bu2, a2.out[2])
           u  == DivUni(cfg, st, b1.out[1], b2.out[1])
           q  == Uni2BiStep(4, st.ub, u.q)
       IN Res([sync |-> u.sync, kern |-> u.kern, sa1 |-> a1.st, sa2 |-> a2.st,
               bu1 |-> b1.st, bu2 |-> b2.st, ub |-> q.st],
              <<XorB(XorB(a1.out[1], a2.out[1]), q.out[1])>>)

\* ---------------------------------------------------------- square root ----
\* variants: "emit", "jk", "div"; cfg.r is the source of the division kernel
SqrtInit(mode, cfg) ==
  LET v == cfg.variant IN
     (IF v = "emit" THEN [fb |-> 0, add |-> AddInit, win |-> ShiftInit(cfg.entry_sr)]
      ELSE IF v = "jk" THEN [fb |-> 0, jk |-> JKInit]
      ELSE [fb |-> 0, kern |-> KernInit(4), dff |-> 0])
  @@ (IF mode = "bipolar" THEN [bu |-> Bi2UniInit] ELSE [bu |-> -1])
SqrtStep(mode, cfg, st, b) ==
  LET v == cfg.variant
      bi == mode = "bipolar" IN
  IF v = "emit" THEN
    LET a  == AddStep("unipolar", 10, 2, 2, 2, st.add, b + st.fb)
        o  == a.out[1]
        bu == IF bi THEN Bi2UniStep(3, st.bu, o) ELSE Res(st.bu, <<o>>)
        fb == Min2(st.win[1], bu.out[1])
    IN Res([fb |-> fb, add |-> a.st, win |-> ShiftOf(st.win, 1 - o), bu |-> bu.st], <<o>>)
  ELSE
    LET o  == Max2(b, st.fb)
        bu == IF bi THEN Bi2UniStep(3, st.bu, o) ELSE Res(st.bu, <<o>>)
        u  == bu.out[1]
    IN IF v = "jk"
       THEN LET j == JKStep(st.jk, u, 1)
            IN Res([fb |-> j.out[1], jk |-> j.st, bu |-> bu.st], <<o>>)
       ELSE LET nd == (1 - st.dff) * u
                k  == KernStep(cfg.r, st.kern, nd, Min2(1, st.dff + nd))
            IN Res([fb |-> k.out[1], kern |-> k.st, dff |-> 1 - st.dff, bu |-> bu.st], <<o>>)

\* --------------------------------------------------------------- layers ----
\* Linear: cfg.w[o][i], cfg.b[o] are levels; tc = temporal weights.
\* state: per-input ones/zeros seen (mod period) and the cycle (mod period)
LinInit(nin) == [p1 |-> Const(nin, 0), p0 |-> Const(nin, 0), t |-> 0]
LinCount(mode, tc, r, wrow, p1, p0, t, x) ==
  SumSeq([i \in 1..Len(x) |->
     IF x[i] = 1 THEN StreamBit(r, wrow[i], IF tc THEN t ELSE p1[i])
     ELSE IF mode = "unipolar" THEN 0
     ELSE 1 - StreamBit(r, wrow[i], IF tc THEN t ELSE p0[i])])
LinStep(mode, cfg, st, x) ==
  LET per == Len(RngTab[cfg.r])
      out == TLCEval([o \in 1..Len(cfg.w) |->
                LinCount(mode, cfg.tc, cfg.r, cfg.w[o], st.p1, st.p0, st.t, x)
                + (IF cfg.hasb THEN StreamBit(cfg.r, cfg.b[o], st.t) ELSE 0)])
  IN Res([p1 |-> [i \in 1..Len(x) |-> (st.p1[i] + x[i]) % per],
          p0 |-> [i \in 1..Len(x) |-> (st.p0[i] + 1 - x[i]) % per],
          t  |-> (st.t + 1) % per], out)
\* accumulate a sequence of counts, one adder per output
AccInit(n) == Const(n, 0)
AccStep(mode, cfg, accs, counts) ==
  LET rs == TLCEval([o \in 1..Len(counts) |->
               AddStep(mode, cfg.depth, cfg.entry, cfg.sc, cfg.D, accs[o], counts[o])])
  IN Res([o \in 1..Len(counts) |-> rs[o].st], [o \in 1..Len(counts) |-> rs[o].out[1]])
FLinInit(cfg) == [pc |-> LinInit(Len(cfg.w[1])), acc |-> AccInit(Len(cfg.w))]
FLinStep(mode, cfg, st, x) ==
  LET pc == LinStep(mode, cfg, st.pc, x)
      a  == AccStep(mode, cfg, st.acc, pc.out)
  IN Res([pc |-> pc.st, acc |-> a.st], a.out)

\* Convolution geometry g: C,H,W input; kh,kw kernel; sh,sw stride; ph,pw pad;
\* dh,dw dilation.  Patches are flattened channel-major like the weights.
OutH(g) == (g.H + 2 * g.ph - g.dh * (g.kh - 1) - 1) \div g.sh + 1
OutW(g) == (g.W + 2 * g.pw - g.dw * (g.kw - 1) - 1) \div g.sw + 1
PatchAt(g, x, pad, p) ==        \* p = 1..OutH*OutW
  LET oy == (p - 1) \div OutW(g)
      ox == (p - 1) % OutW(g)
  IN [i \in 1..(g.C * g.kh * g.kw) |->
        LET c == (i - 1) \div (g.kh * g.kw)
            ky == ((i - 1) \div g.kw) % g.kh
            kx == (i - 1) % g.kw
            yy == oy * g.sh + ky * g.dh - g.ph
            xx == ox * g.sw + kx * g.dw - g.pw
        IN IF yy < 0 \/ yy >= g.H \/ xx < 0 \/ xx >= g.W THEN pad
           ELSE x[c * g.H * g.W + yy * g.W + xx + 1]]
NPos(g) == OutH(g) * OutW(g)
ConvInit(cfg) ==
  [lin |-> [p \in 1..NPos(cfg.g) |-> LinInit(Len(cfg.w[1]))],
   acc |-> [p \in 1..NPos(cfg.g) |-> AccInit(Len(cfg.w))], phase |-> 0]
\* output flattened channel-major: (o-1)*NPos + p
ConvStep(mode, cfg, st, x, accumulate) ==
  LET g == cfg.g
      n == NPos(g)
      pad == IF mode = "bipolar" THEN st.phase ELSE 0
      ls == TLCEval([p \in 1..n |-> LinStep(mode, cfg, st.lin[p], TLCEval(PatchAt(g, x, pad, p)))])
      as == TLCEval([p \in 1..n |-> AccStep(mode, cfg, st.acc[p], ls[p].out)])
      oo == IF accumulate THEN [p \in 1..n |-> as[p].out] ELSE [p \in 1..n |-> ls[p].out]
  IN Res([lin |-> [p \in 1..n |-> ls[p].st],
          acc |-> IF accumulate THEN [p \in 1..n |-> as[p].st] ELSE st.acc,
          phase |-> 1 - st.phase],
         [i \in 1..(n * Len(cfg.w)) |-> oo[((i - 1) % n) + 1][((i - 1) \div n) + 1]])

\* --------------------------------------------------------- gated unit ------
\* cfg.f, cfg.n: linear sub-configs; cfg.hl[h]: buffered hidden levels (static
\* multiplier, source cfg.r); cfg.ri: source of the in-stream multiplier.
\* in = input bits, hidden bits
MguInit(cfg) ==
  LET nh == Len(cfg.f.w) IN
  [f |-> FLinInit(cfg.f), n |-> FLinInit(cfg.n),
   sg |-> Const(nh, 0), hm |-> [h \in 1..nh |-> MulSInit],
   im |-> [h \in 1..nh |-> MulIInit(cfg.ri)], hy |-> Const(nh, 0)]
MguStep(cfg, hl, st, x, hb) ==
  LET nh == Len(cfg.f.w)
      f  == TLCEval(FLinStep("bipolar", cfg.f, st.f, hb \o x))
      sg == TLCEval([h \in 1..nh |-> AddStep("bipolar", cfg.depth, 2, 4, 2, st.sg[h], f.out[h] + 1)])
      hm == TLCEval([h \in 1..nh |-> MulSStep("bipolar", cfg.r, hl[h], st.hm[h], sg[h].out[1])])
      n  == TLCEval(FLinStep("bipolar", cfg.n, st.n, [h \in 1..nh |-> hm[h].out[1]] \o x))
      im == TLCEval([h \in 1..nh |-> MulIStep("bipolar", cfg.ri, st.im[h], sg[h].out[1], n.out[h])])
      hy == TLCEval([h \in 1..nh |-> AddStep("bipolar", cfg.depth, 3, 2, 2, st.hy[h],
                                n.out[h] + (1 - im[h].out[1]) + hm[h].out[1])])
  IN Res([f |-> f.st, n |-> n.st, sg |-> [h \in 1..nh |-> sg[h].st],
          hm |-> [h \in 1..nh |-> hm[h].st], im |-> [h \in 1..nh |-> im[h].st],
          hy |-> [h \in 1..nh |-> hy[h].st]],
         [h \in 1..nh |-> hy[h].out[1]])

\* -------------------------------------------------------------- metrics ----
\* Monitors: in = <<0, bits...>> observes one cycle, in = <<1>> reads.  A read
\* returns fractions <<num, den>>, den > 0.
Metrics == {"progerr", "scc", "stab"}
Ratio(n, d) == <<n, d>>
ProgInit == [n |-> 0, ones |-> 0]
ProgPP(mode, st) == IF mode = "bipolar" THEN Ratio(2 * st.ones - st.n, st.n) ELSE Ratio(st.ones, st.n)
\* source lp = <<num, den>>; scale = sn/sd; clamped to [-1, 1]
ProgRef(cfg, lp) == LET a == lp[1] * cfg.sd
                        b == lp[2] * cfg.sn
                    IN IF a > b THEN <<1, 1>> ELSE IF a < -b THEN <<-1, 1>> ELSE <<a, b>>
ProgPE(cfg, lp, st) == LET p == ProgPP(cfg.mode, st)
                           q == ProgRef(cfg, lp)
                       IN Ratio(p[1] * q[2] - q[1] * p[2], p[2] * q[2])
ProgStep(cfg, lp, st, in) ==
  IF in[1] = 0 THEN Res([n |-> st.n + 1, ones |-> st.ones + in[2]], <<>>)
  ELSE Res(st, <<ProgPP(cfg.mode, st), ProgPE(cfg, lp, st)>>)

SccInit == [a |-> 0, b |-> 0, c |-> 0, d |-> 0, prev |-> 0]
SccStep(cfg, st, in) ==
  IF in[1] = 0 THEN
    LET x == in[2]
        y == IF cfg.single THEN st.prev ELSE in[3]
    IN Res([a |-> st.a + x * y, b |-> st.b + x * (1 - y), c |-> st.c + (1 - x) * y,
            d |-> st.d + (1 - x) * (1 - y), prev |-> x], <<>>)
  ELSE
    LET n  == st.a + st.b + st.c + st.d
        k  == st.a * st.d - st.b * st.c
        ab == st.a + st.b
        ac == st.a + st.c
        e1 == n * Min2(ab, ac) - ab * ac
        e2 == ab * ac - n * Max2(st.a - st.d, 0)
    IN Res(st, <<Ratio(k, Max2(IF k > 0 THEN e1 ELSE e2, 1))>>)

\* last = last cycle at which |error| exceeded thr = tn/td
StabInit == [n |-> 0, ones |-> 0, last |-> 0]
StabStep(cfg, lp, st, in) ==
  IF in[1] = 0 THEN
    LET m == [n |-> st.n + 1, ones |-> st.ones + in[2]]
        e == ProgPE(cfg, lp, m)
    IN Res([n |-> m.n, ones |-> m.ones,
            last |-> IF Abs(e[1]) * cfg.td > cfg.tn * e[2] THEN m.n ELSE st.last], <<>>)
  ELSE Res(st, <<Ratio(st.n - Max2(1, st.last), st.n)>>)

\* ------------------------------------------------------------- dispatch ----
\* One lane of a unit: kind, configuration, lane parameter lp (a sequence).
MInit(kind, cfg, lp) ==
  CASE kind = "bsgen"   -> 0
    [] kind = "bi2uni"  -> Bi2UniInit
    [] kind = "uni2bi"  -> Uni2BiInit
    [] kind = "sync"    -> SyncInit
    [] kind = "shift"   -> ShiftInit(cfg.entry)
    [] kind = "jk"      -> JKInit
    [] kind = "signabs" -> SignAbsInit(cfg.depth)
    [] kind = "relu"    -> ReluInit(cfg.depth)
    [] kind = "add"     -> AddInit
    [] kind = "hsig"    -> AddInit
    [] kind = "htanh"   -> 0
    [] kind = "muls"    -> MulSInit
    [] kind = "muli"    -> MulIInit(cfg.r)
    [] kind = "kern"    -> KernInit(cfg.entry)
    [] kind = "div"     -> DivInit(cfg.mode, cfg)
    [] kind = "sqrt"    -> SqrtInit(cfg.mode, cfg)
    [] kind = "linpc"   -> LinInit(Len(cfg.w[1]))
    [] kind = "lin"     -> FLinInit(cfg)
    [] kind = "convpc"  -> ConvInit(cfg)
    [] kind = "conv"    -> ConvInit(cfg)
    [] kind = "mgu"     -> MguInit(cfg)
    [] kind = "progerr" -> ProgInit
    [] kind = "scc"     -> SccInit
    [] kind = "stab"    -> StabInit

MStep(kind, cfg, lp, st, in) ==
  CASE kind = "bsgen"   -> Res(0, <<StreamBit(cfg.r, lp[1], in[1])>>)
    [] kind = "bi2uni"  -> Bi2UniStep(cfg.depth, st, in[1])
    [] kind = "uni2bi"  -> Uni2BiStep(cfg.depth, st, in[1])
    [] kind = "sync"    -> SyncStep(cfg.depth, st, in[1], in[2])
    [] kind = "shift"   -> ShiftStep(st, in[1], in[2], in[3])
    [] kind = "jk"      -> JKStep(st, in[1], in[2])
    [] kind = "signabs" -> SignAbsStep(cfg.depth, st, in[1])
    [] kind = "relu"    -> ReluStep(cfg.depth, st, in[1])
    [] kind = "add"     -> AddStep(cfg.mode, cfg.depth, cfg.entry, cfg.sc, cfg.D, st, SumSeq(in))
    [] kind = "hsig"    -> AddStep(cfg.mode, cfg.depth, 2, 4, 2, st, in[1] + 1)
    [] kind = "htanh"   -> Res(0, <<in[1]>>)
    [] kind = "muls"    -> MulSStep(cfg.mode, cfg.r, Level(cfg.mode, cfg.width, lp[1], lp[2]), st, in[1])
    [] kind = "muli"    -> MulIStep(cfg.mode, cfg.r, st, in[1], in[2])
    [] kind = "kern"    -> KernStep(cfg.r, st, in[1], in[2])
    [] kind = "div"     -> DivStep(cfg.mode, cfg, st, in[1], in[2])
    [] kind = "sqrt"    -> SqrtStep(cfg.mode, cfg, st, in[1])
    [] kind = "linpc"   -> LinStep(cfg.mode, cfg, st, in)
    [] kind = "lin"     -> FLinStep(cfg.mode, cfg, st, in)
    [] kind = "convpc"  -> ConvStep(cfg.mode, cfg, st, in, FALSE)
    [] kind = "conv"    -> ConvStep(cfg.mode, cfg, st, in, TRUE)
    [] kind = "mgu"     -> MguStep(cfg, lp, st, SubSeq(in, 1, cfg.nin), SubSeq(in, cfg.nin + 1, Len(in)))
    [] kind = "progerr" -> ProgStep(cfg, lp, st, in)
    [] kind = "scc"     -> SccStep(cfg, st, in)
    [] kind = "stab"    -> StabStep(cfg, lp, st, in)
=============================================================================
