-------------------------------- MODULE Prep --------------------------------
(* Effective configuration of a unit: defaults and run-time overrides        *)
(* resolved, weights quantised.  -1 stands for "not given" (None).           *)
EXTENDS Props

\* precedence: first-call override, constructor value, default
Eff(run, ctor, dflt) == IF run # -1 THEN run ELSE IF ctor # -1 THEN ctor ELSE dflt

AddCfg(cfg, dflt_entry, dflt_sc_is_ctor) ==
  LET entry == Eff(cfg.rentry, cfg.centry, dflt_entry)
      sc    == Eff(cfg.rsc, cfg.csc, IF dflt_sc_is_ctor THEN dflt_entry * cfg.D ELSE entry * cfg.D)
  IN [entry |-> entry, sc |-> sc]

LinCfg(cfg) ==
  LET nin == Len(cfg.wn[1])
      dflt == nin + B2I(cfg.hasb)
      base == [w |-> [o \in 1..Len(cfg.wn) |-> [i \in 1..nin |->
                        Level(cfg.mode, cfg.width, cfg.wn[o][i], cfg.wden)]],
               b |-> [o \in 1..Len(cfg.wn) |->
                        IF cfg.hasb THEN Level(cfg.mode, cfg.width, cfg.bn[o], cfg.wden) ELSE 0],
               tc |-> cfg.rng \in Temporal]
  IN base @@ AddCfg(cfg, dflt, TRUE) @@ cfg

PrepCfg(kind, cfg) ==
  CASE kind = "add" -> AddCfg(cfg, cfg.n, FALSE) @@ cfg
    [] kind \in {"lin", "linpc", "conv", "convpc"} -> LinCfg(cfg)
    [] kind = "mgu" -> [f |-> LinCfg(cfg.f), n |-> LinCfg(cfg.n)] @@ cfg
    [] OTHER -> cfg
\* lane parameters: the MGU's buffered hidden values become levels
PrepLp(kind, cfg, lp) ==
  IF kind = "mgu" THEN [h \in 1..Len(lp) |-> Level("bipolar", cfg.width, lp[h], cfg.hden)] ELSE lp
=============================================================================
