------------------------------ MODULE Pipeline -------------------------------
(* The purpose of unary computing: chain an encoder, a unit and a decoder    *)
(* for one full period and read the real-valued result back.  The machines   *)
(* give the exact count; the clauses bound its distance from real arithmetic *)
(* and are judged on what the real chain returned.                           *)
EXTENDS Prep

\* stages: what is computed between encoder and decoder
\*   stream: nothing; mul: a static multiply per element; add: scaled addition
\*   of all elements; lin/linpc: a (scaled / parallel-counter) layer; hsig;
\*   relu; muli: in-stream product of the first two elements; sync: min/max
PLin(cfg, in) ==
  PrepCfg("lin", [mode |-> cfg.mode, width |-> cfg.width, rng |-> cfg.rng, r |-> cfg.rw, wn |-> in.w, wden |-> P2(cfg.d),
                  hasb |-> cfg.hasb, bn |-> in.b, depth |-> cfg.depth, D |-> 2, csc |-> -1, rsc |-> -1, centry |-> -1, rentry |-> -1])
PLevel(cfg, v) == Level(cfg.mode, cfg.width, v, P2(cfg.d))
PInit(cfg, in) ==
  CASE cfg.f = "stream" -> 0
    [] cfg.f = "mul"  -> [i \in 1..Len(in.x) |-> MulSInit]
    [] cfg.f = "muli" -> MulIInit(cfg.rw)
    [] cfg.f = "add"  -> AddInit
    [] cfg.f = "hsig" -> Const(Len(in.x), AddInit)
    [] cfg.f = "relu" -> Const(Len(in.x), ReluInit(cfg.depth))
    [] cfg.f = "linpc" -> LinInit(Len(in.x))
    [] cfg.f = "lin"  -> FLinInit(PLin(cfg, in))
Each(rs) == Res([i \in 1..Len(rs) |-> rs[i].st], [i \in 1..Len(rs) |-> rs[i].out[1]])
PStep(cfg, lc, wl, st, b) ==
  CASE cfg.f = "stream" -> Res(0, b)
    [] cfg.f = "mul"  -> Each(TLCEval([i \in 1..Len(b) |-> MulSStep(cfg.mode, cfg.rw, wl[i], st[i], b[i])]))
    [] cfg.f = "muli" -> MulIStep(cfg.mode, cfg.rw, st, b[1], b[2])
    [] cfg.f = "add"  -> AddStep(cfg.mode, cfg.depth, Len(b), 2 * Len(b), 2, st, SumSeq(b))
    [] cfg.f = "hsig" -> Each(TLCEval([i \in 1..Len(b) |-> AddStep(cfg.mode, cfg.depth, 2, 4, 2, st[i], b[i] + 1)]))
    [] cfg.f = "relu" -> Each(TLCEval([i \in 1..Len(b) |-> ReluStep(cfg.depth, st[i], b[i])]))
    [] cfg.f = "linpc" -> LinStep(cfg.mode, lc, st, b)
    [] cfg.f = "lin"  -> FLinStep(cfg.mode, lc, st, b)
PRun(cfg, lc, wl, xl, st0, ones0) ==
  FoldLeft(LAMBDA a, t :
             LET r == TLCEval(PStep(cfg, lc, wl, a.st, [i \in 1..Len(xl) |-> StreamBit(cfg.rx, xl[i], t - 1)]))
             IN TLCEval([st |-> r.st, ones |-> [o \in 1..Len(ones0) |-> a.ones[o] + r.out[o]]]),
           [st |-> st0, ones |-> ones0], [t \in 1..P2(cfg.width) |-> t]).ones
POuts(cfg, in) == CASE cfg.f \in {"stream", "mul", "hsig", "relu"} -> Len(in.x)
                    [] cfg.f \in {"add", "muli"} -> 1
                    [] OTHER -> Len(in.w)
PipeOut(cfg, in) ==
  LET xl == TLCEval([i \in 1..Len(in.x) |-> PLevel(cfg, in.x[i])])
      wl == IF cfg.f = "mul" THEN TLCEval([i \in 1..Len(in.w) |-> PLevel(cfg, in.w[i])]) ELSE <<>>
      lc == IF cfg.f \in {"lin", "linpc"} THEN TLCEval(PLin(cfg, in)) ELSE cfg
  IN PRun(cfg, lc, wl, xl, PInit(cfg, in), Const(POuts(cfg, in), 0))

\* ------------------------------------------------------------- clauses ----
\* Star discrepancy of a base-2 digital sequence: any prefix of k numbers holds
\* k*v/2^w below v, give or take w/3 + 1.  Stated as 3*|err|*... <= w + 3.
Star(cfg) == cfg.width + 3
\* one product over a full period, in units of 1/2^w ones: expected count is
\* xl*wl/2^w (unipolar), xl*wl/2^w + (n-xl)*(n-wl)/2^w (bipolar), n = 2^w
ExactMul(cfg, a, b) == LET n == P2(cfg.width) IN
  IF cfg.mode = "unipolar" THEN a * b ELSE a * b + (n - a) * (n - b)
Pols(cfg) == IF cfg.mode = "unipolar" THEN 1 ELSE 2
\* total of a layer's row, bias included, in ones/2^w
ExactRow(cfg, in, o) == LET n == P2(cfg.width) IN
  SumSeq([i \in 1..Len(in.x) |-> ExactMul(cfg, PLevel(cfg, in.x[i]), PLevel(cfg, in.w[o][i]))])
  + (IF cfg.hasb THEN PLevel(cfg, in.b[o]) * n ELSE 0)
PipeBad(cfg, in, obs) ==
  LET n == P2(cfg.width)
      xl == [i \in 1..Len(in.x) |-> PLevel(cfg, in.x[i])]
      I == 1..Len(in.x)
  IN IF \E o \in 1..Len(obs) : obs[o] < 0 \/ (cfg.f # "linpc" /\ obs[o] > n) THEN "range"
     ELSE CASE cfg.f = "stream" -> IF \E i \in I : obs[i] # xl[i] THEN "decode" ELSE ""
       [] cfg.f = "mul" -> IF cfg.lowd /\ \E i \in I : 3 * Abs(obs[i] * n - ExactMul(cfg, xl[i], PLevel(cfg, in.w[i]))) > Pols(cfg) * Star(cfg) * n
                           THEN "product-error" ELSE ""
       [] cfg.f = "add" -> IF obs[1] # SumSeq(xl) \div Len(xl) THEN "scaled-sum" ELSE ""
       [] cfg.f = "hsig" -> IF \E i \in I : obs[i] # (xl[i] + n) \div 2 THEN "half-sum" ELSE ""
       [] cfg.f = "relu" -> IF cfg.vdc /\ \E i \in I : obs[i] # Max2(xl[i], n \div 2) THEN "rectify" ELSE ""
       [] cfg.f = "linpc" -> IF cfg.lowd /\ \E o \in 1..Len(obs) : 3 * Abs(obs[o] * n - ExactRow(cfg, in, o)) > Pols(cfg) * Len(in.x) * Star(cfg) * n
                             THEN "layer-error" ELSE ""
       [] cfg.f = "lin" -> LET s == Len(in.x) + B2I(cfg.hasb) IN
                           \* conservation: what is not emitted is pending, and less than one output one (scale)
                           IF cfg.lowd /\ \E o \in 1..Len(obs) :
                                 3 * Abs(s * obs[o] * n - ExactRow(cfg, in, o)) > (Pols(cfg) * Len(in.x) * Star(cfg) + 3 * s) * n
                           THEN "layer-error" ELSE ""
       [] OTHER -> ""
=============================================================================
