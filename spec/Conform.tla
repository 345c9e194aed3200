------------------------------ MODULE Conform -------------------------------
(* Trace validation.  Doc holds executions recorded from the real modules;   *)
(* a behaviour of this module replays one of them: each step is accepted     *)
(* only if the unit's own Step yields the observed outputs for every lane    *)
(* and no history clause of Props is violated.  Verdicts are total: a        *)
(* mismatch sets `bad` to the failing clause and ends that behaviour.        *)
EXTENDS Units

NC == Len(Doc.cases)
Cfgs == TLCEval([c \in 1..NC |-> UPrep(Doc.cases[c].kind, Doc.cases[c].cfg)])
Lps  == TLCEval([c \in 1..NC |-> [k \in 1..Doc.cases[c].lanes |->
           UPrepLp(Doc.cases[c].kind, Doc.cases[c].cfg, Doc.cases[c].lp[k])]])

VARIABLES c, l, st, h, bad
vars == <<c, l, st, h, bad>>

\* clauses about the execution as a whole, judged before the first step
Meta(k) ==
  IF k.err # "" THEN <<"raised", k.err>>
  ELSE IF \E i \in 1..Len(k.odt) : k.odt[i] # k.xdt THEN <<"dtype", k.odt, k.xdt>>
  ELSE IF \E i \in 1..Len(k.oshape) : k.oshape[i] # k.xshape THEN <<"shape", k.oshape, k.xshape>>
  ELSE IF Len(k.retro) > 0 THEN <<"returned-output-changed", k.retro>>
  ELSE IF Len(k.imut) > 0 THEN <<"input-modified", k.imut>>
  ELSE <<>>

Init == /\ c \in 1..NC
        /\ l = 0
        /\ bad = Meta(Doc.cases[c])
        /\ LET k == Doc.cases[c] IN
           /\ st = [i \in 1..k.lanes |-> UInit(k.kind, Cfgs[c], Lps[c][i])]
           /\ h  = [i \in 1..k.lanes |-> UHInit(k.kind, Cfgs[c], Lps[c][i])]

Lowest(S) == CHOOSE i \in S : \A j \in S : i <= j

Next ==
  LET k   == Doc.cases[c]
      cfg == Cfgs[c]
      lp  == Lps[c]
      L   == 1..k.lanes
  IN /\ bad = <<>>
     /\ l < Len(k.steps)
     /\ LET s == k.steps[l + 1] IN
        \* (the singleton sets bind values once: TLC re-evaluates LETs in actions)
        \E r \in {[i \in L |-> UStep(k.kind, cfg, lp[i], st[i], s.i[i], s.o[i])]} :
        \E h2 \in {[i \in L |-> UHNext(k.kind, cfg, lp[i], h[i], st[i], s.i[i], s.o[i], r[i].st)]} :
        \E W \in {{i \in L : ~UOk(k.kind, cfg, st[i], r[i].out, s.o[i])}} :
        \E B \in {[i \in L |-> IF i \in W THEN ""
                   ELSE UHBad(k.kind, cfg, lp[i], h2[i], st[i], s.i[i], s.o[i], r[i].st)]} :
           /\ st' = [i \in L |-> r[i].st]
           /\ h' = IF W # {} THEN h ELSE h2
           /\ bad' = IF W # {} THEN LET i == Lowest(W) IN <<"output", l + 1, i, r[i].out, s.o[i]>>
                     ELSE LET H == {i \in L : B[i] # ""} IN
                          IF H = {} THEN <<>> ELSE LET i == Lowest(H) IN <<B[i], l + 1, i>>
     /\ l' = l + 1
     /\ c' = c

\* report, never stop: BAD with the clause, DONE once a behaviour is consumed
Report ==
  IF bad # <<>> THEN PrintT(ToJson(<<"BAD", c, bad>>))
  ELSE IF l = Len(Doc.cases[c].steps) THEN PrintT(ToJson(<<"DONE", c>>))
  ELSE TRUE
=============================================================================
