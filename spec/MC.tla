--------------------------------- MODULE MC ---------------------------------
(* Exhaustive exploration of one unit at a time in small configurations:     *)
(* the environment may present any input at any cycle.  Doc.mc lists         *)
(* configurations [kind, cfg, lp, ins] with `ins` the finite input alphabet. *)
EXTENDS Units

NM == Len(Doc.mc)
Cfgs == TLCEval([c \in 1..NM |-> UPrep(Doc.mc[c].kind, Doc.mc[c].cfg)])
Lps  == TLCEval([c \in 1..NM |-> UPrepLp(Doc.mc[c].kind, Doc.mc[c].cfg, Doc.mc[c].lp)])

VARIABLES c, st, h, bad, n
vars == <<c, st, h, bad, n>>

Init == /\ c \in 1..NM
        /\ st = UInit(Doc.mc[c].kind, Cfgs[c], Lps[c])
        /\ h = UHInit(Doc.mc[c].kind, Cfgs[c], Lps[c])
        /\ bad = ""
        /\ n = 0

\* history counters of the static multiplier are explored up to two periods
HBound(k, hh, in) == 
  CASE k.kind = "muls" -> hh.k1 <= 2 * Len(RngTab[k.cfg.r]) /\ hh.k0 <= 2 * Len(RngTab[k.cfg.r])
    [] OTHER -> TRUE

\* fractions over one common denominator are judged by their numerators
Plain(kind, out) == IF kind = "rawscale" THEN [i \in 1..Len(out) |-> out[i][1]] ELSE out

\* The step counter n bounds stateless or very large units (0 = unbounded)
Next ==
  LET k == Doc.mc[c] IN
  /\ (k.depth = 0 \/ n < k.depth)
  /\ n' = IF k.depth = 0 THEN 0 ELSE n + 1
  /\ \E x \in 1..Len(k.ins) :
       \E r \in {UStep(k.kind, Cfgs[c], Lps[c], st, k.ins[x], <<>>)} :
       \E h2 \in {UHNext(k.kind, Cfgs[c], Lps[c], h, st, k.ins[x], r.out, r.st)} :
          /\ Enabled(k.kind, st, k.ins[x])
          /\ HBound(k, h2, k.ins[x])
          /\ st' = r.st
          /\ h' = h2
          /\ bad' = UHBad(k.kind, Cfgs[c], Lps[c], h2, st, k.ins[x], Plain(k.kind, r.out), r.st)
          /\ (k.emit = 0 \/ PrintT(ToJson(<<"E", c, st, x, r.out, r.st>>)))
  /\ c' = c

\* every history clause of the unit holds in every reachable state
Holds == bad = ""
\* outputs are bits and states stay in their declared ranges
InRange ==
  LET k == Doc.mc[c] IN
  CASE k.kind \in {"bi2uni", "uni2bi"} -> st \in (-PolMax(k.cfg.depth))..PolMax(k.cfg.depth)
    [] k.kind = "sync"    -> st \in 0..(P2(k.cfg.depth) - 1)
    [] k.kind = "relu"    -> st \in (P2(k.cfg.depth - 1) - 1)..(P2(k.cfg.depth) - 1)
    [] k.kind = "signabs" -> st \in 0..(P2(k.cfg.depth) - 1)
    [] k.kind = "add"     -> Abs(st) <= P2(k.cfg.depth - 2) * k.cfg.D
    [] k.kind = "shift"   -> Len(st) = k.cfg.entry /\ \A i \in 1..Len(st) : st[i] \in {0, 1}
    [] OTHER -> TRUE
=============================================================================
