-------------------------------- MODULE Units --------------------------------
(* One interface over every unit: streaming machines and call-by-call layers. *)
EXTENDS Rtl

UPrep(kind, cfg) ==
  IF kind = "hubmgu" THEN PrepCfg("mgu", cfg)
  ELSE IF kind \in LayerKinds \cup RtlKinds THEN cfg
  ELSE PrepCfg(kind, cfg)
UPrepLp(kind, cfg, lp) == IF kind \in RtlKinds THEN lp ELSE PrepLp(kind, cfg, lp)

\* lane parameters of a layer are unused
UInit(kind, cfg, lp) == IF kind = "rtl" THEN RtlReset(cfg) ELSE IF kind \in LayerKinds THEN LInit(kind, cfg, lp) ELSE MInit(kind, cfg, lp)
UHInit(kind, cfg, lp) == IF kind = "rtl" THEN RtlHInit(cfg) ELSE IF kind \in LayerKinds THEN 0 ELSE HInit(kind, cfg, lp)
UStep(kind, cfg, lp, st, in, obs) ==
  IF kind = "rtl" THEN RtlStep(cfg, st, in) ELSE IF kind \in LayerKinds THEN LStep(kind, cfg, lp, st, in, obs) ELSE MStep(kind, cfg, lp, st, in)
UHNext(kind, cfg, lp, h, st, in, out, st2) ==
  IF kind = "rtl" THEN RtlHNext(cfg, h, in, out) ELSE IF kind \in LayerKinds THEN 0 ELSE HNext(kind, cfg, lp, h, st, in, out, st2)
UHBad(kind, cfg, lp, h2, st, in, out, st2) ==
  IF kind = "rtl" THEN RtlBad(cfg, h2, in, out, st2) ELSE IF kind \in LayerKinds THEN LBad(kind, cfg, in, out) ELSE HBad(kind, cfg, lp, h2, st, in, out, st2)

\* bits and integers must agree exactly; metrics are reals, logged as integers
\* scaled by 2^14 (2^12 for correlation) and expected as fractions <<num, den>>
UOk(kind, cfg, st, exp, obs) ==
  IF kind \in LayerKinds THEN LOk(kind, cfg, st, exp, obs)
  ELSE IF kind \in Metrics
  THEN /\ Len(exp) = Len(obs)
       /\ \A i \in 1..Len(exp) :
            LET S == IF kind = "scc" THEN P2(12) ELSE P2(14) IN
            /\ Abs(obs[i]) <= 4 * S
            /\ Abs(obs[i] * exp[i][2] - exp[i][1] * S) <= 2 * exp[i][2]
  ELSE exp = obs
=============================================================================
