------------------------------- MODULE Props --------------------------------
(* What users rely on, stated over histories rather than over single steps.  *)
(* For each unit a bounded history variable h is folded along a behaviour    *)
(* and HBad names the violated clause ("" if none).  The same operators are  *)
(* evaluated in the exhaustive models (MC) and on every recorded execution   *)
(* of the real code (Conform), there with the OBSERVED outputs.              *)
EXTENDS Machines

\* d = value received - value emitted since the start, sat = ever saturated
Bal0 == [d |-> 0, sat |-> FALSE]
BalNext(h, delta, emitted, before, lim) ==
  IF h.sat THEN h
  ELSE IF Abs(before + delta) > lim THEN [d |-> 0, sat |-> TRUE]
  ELSE [h EXCEPT !.d = @ + delta - emitted]
\* conservation: what was received is emitted or still pending
BalBad(h, pending) == IF ~h.sat /\ h.d # pending THEN "conservation" ELSE ""

OnesBefore(r, v, k) == SumSeq([j \in 1..k |-> StreamBit(r, v, j - 1)])
AccOf(kind, st) == IF kind \in {"lin"} THEN st.acc ELSE st

HInit(kind, cfg, lp) ==
  CASE kind \in {"bi2uni", "uni2bi", "add", "hsig"} -> Bal0
    [] kind = "lin"   -> [o \in 1..Len(cfg.w) |-> Bal0]
    [] kind = "sync"  -> 0
    [] kind = "relu"  -> 0
    [] kind = "signabs" -> 0
    [] kind = "muls"  -> [k1 |-> 0, k0 |-> 0, ones |-> 0]
    [] kind = "bsgen" -> [last |-> -1, run |-> 0, ones |-> 0]
    [] OTHER -> 0

\* a precision or stability reading needs at least one observed cycle
Enabled(kind, st, in) ==
  CASE kind \in {"progerr", "stab"} -> in[1] = 0 \/ st.n > 0
    [] kind = "scc" -> in[1] = 0 \/ st.a + st.b + st.c + st.d > 0
    [] OTHER -> TRUE

\* st/st2: specification state before/after; in/out: bits at the interface
HNext(kind, cfg, lp, h, st, in, out, st2) ==
  CASE kind = "bi2uni" -> BalNext(h, 2 * in[1] - 1, out[1], st, PolMax(cfg.depth))
    [] kind = "uni2bi" -> BalNext(h, in[1] + 1, 2 * out[1], st, PolMax(cfg.depth))
    [] kind = "hsig"   -> BalNext(h, 2 * (in[1] + 1), 4 * out[1], st, 2 * P2(cfg.depth - 2))
    [] kind = "add"    -> BalNext(h, SumSeq(in) * cfg.D - AddOffset(cfg.mode, cfg.entry, cfg.sc, cfg.D),
                                  cfg.sc * out[1], st, P2(cfg.depth - 2) * cfg.D)
    [] kind = "lin"    ->
         LET pc == LinStep(cfg.mode, cfg, st.pc, in).out IN
         [o \in 1..Len(cfg.w) |->
            BalNext(h[o], pc[o] * cfg.D - AddOffset(cfg.mode, cfg.entry, cfg.sc, cfg.D),
                    cfg.sc * out[o], st.acc[o], P2(cfg.depth - 2) * cfg.D)]
    [] kind = "sync"   -> h + in[1] - out[1]
    [] kind = "relu"   -> Min2(h + 2 * out[1] - 1, P2(cfg.depth - 1) - 1)
    [] kind = "signabs" -> Clamp(h + 2 * in[1] - 1, -P2(cfg.depth - 1), P2(cfg.depth - 1) - 1)
    [] kind = "muls"   -> LET per == Len(RngTab[cfg.r])
                              k1 == h.k1 + in[1]
                              k0 == h.k0 + 1 - in[1]
                              on == h.ones + out[1]
                          IN IF per > 64 /\ k1 % per = 0 /\ k0 % per = 0
                             THEN [k1 |-> k1, k0 |-> k0, ones |-> on]
                             ELSE [k1 |-> k1, k0 |-> k0, ones |-> on]
    [] kind = "bsgen"  -> LET per == Len(RngTab[cfg.r]) IN
                          IF in[1] = h.last + 1 /\ h.run < per
                          THEN [last |-> in[1], run |-> h.run + 1, ones |-> h.ones + out[1]]
                          ELSE [last |-> in[1], run |-> 1, ones |-> out[1]]
    [] OTHER -> 0

HBad(kind, cfg, lp, h2, st, in, out, st2) ==
  CASE kind = "bi2uni" -> BalBad(h2, st2)
    [] kind = "uni2bi" -> IF cfg.depth >= 4 /\ st2 \notin {0, 1} THEN "residue" ELSE BalBad(h2, st2)
    [] kind = "hsig"   -> IF cfg.depth >= 4 /\ st2 \notin {0, 2} THEN "residue" ELSE BalBad(h2, st2)
    [] kind = "add"    -> BalBad(h2, st2)
    [] kind = "lin"    -> IF \E o \in 1..Len(h2) : BalBad(h2[o], st2.acc[o]) # "" THEN "conservation" ELSE ""
    [] kind = "sync"   -> IF h2 # st2 \/ h2 < 0 \/ h2 > P2(cfg.depth) - 1 THEN "conservation"
                          ELSE IF out[2] # in[2] THEN "stream2"
                          ELSE IF out[1] = 1 /\ out[2] = 0 /\ st # P2(cfg.depth) - 1 THEN "pairing"
                          ELSE ""
    [] kind = "relu"   -> IF h2 < -1 THEN "prefix" ELSE IF out[1] < in[1] THEN "dropped-one" ELSE ""
    [] kind = "signabs" -> IF out[1] # B2I(h2 < 0) THEN "sign"
                           ELSE IF out[2] # XorB(in[1], out[1]) THEN "abs" ELSE ""
    [] kind = "scc"    -> LET q == SccStep(cfg, st2, <<1>>).out[1] IN
                          IF Abs(q[1]) > q[2] THEN "range"
                          ELSE IF st2.b + st2.c = 0 /\ st2.a > 0 /\ st2.d > 0 /\ q[1] # q[2] THEN "identical"
                          ELSE IF st2.a + st2.d = 0 /\ st2.b > 0 /\ st2.c > 0 /\ q[1] # -q[2] THEN "complement"
                          ELSE ""
    [] kind = "stab"   -> IF st2.last > st2.n \/ st2.last < 0 THEN "range" ELSE ""
    [] kind = "progerr" -> LET q == ProgPP(cfg.mode, st2) IN
                           IF st2.n > 0 /\ Abs(q[1]) > q[2] THEN "range" ELSE ""
    [] kind = "sqrt"   -> IF cfg.variant # "emit" /\ out[1] < in[1] THEN "dropped-one" ELSE ""
    [] kind = "muls"   ->
         LET per == Len(RngTab[cfg.r])
             v == Level(cfg.mode, cfg.width, lp[1], lp[2])
             Whole(k) == k % per = 0
             S1 == (h2.k1 \div per) * OnesBefore(cfg.r, v, per) + OnesBefore(cfg.r, v, h2.k1 % per)
             S0 == IF cfg.mode = "unipolar" THEN 0
                   ELSE h2.k0 - ((h2.k0 \div per) * OnesBefore(cfg.r, v, per) + OnesBefore(cfg.r, v, h2.k0 % per))
         IN IF per <= 16
            THEN IF h2.ones # S1 + S0 THEN "order-independence" ELSE ""
            ELSE IF Whole(h2.k1) /\ Whole(h2.k0)
            THEN IF h2.ones # S1 + S0 THEN "period-product" ELSE "" ELSE ""
    [] kind = "bsgen"  -> IF cfg.perm /\ h2.run = Len(RngTab[cfg.r]) /\ h2.ones # lp[1] THEN "ones-per-period" ELSE ""
    [] OTHER -> ""
=============================================================================
