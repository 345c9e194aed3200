------------------------------ MODULE Session -------------------------------
(* Several instances living together: any of two configurations may be       *)
(* instantiated, any instance stepped, any instance deep-copied, in any      *)
(* order.  What an instance has experienced is the sequence of ticks of its  *)
(* own lineage and nothing else.  Complete schedules are printed; the        *)
(* harness performs them on the real units and every lineage must then be    *)
(* an execution of the unit's own machine (Conform).                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Doc == JsonDeserialize(IOEnv.DOC)
MaxOps  == Doc.ops
MaxInst == Doc.inst

VARIABLES sched, cfgOf, hist
vars == <<sched, cfgOf, hist>>
\* op: <<kind, instance, argument>>
New(k)  == /\ Len(cfgOf) < MaxInst
           /\ sched' = Append(sched, <<"new", Len(cfgOf) + 1, k>>)
           /\ cfgOf' = Append(cfgOf, k)
           /\ hist'  = Append(hist, <<>>)
Tick(i) == /\ sched' = Append(sched, <<"tick", i, Len(sched) + 1>>)
           /\ hist'  = [hist EXCEPT ![i] = Append(@, Len(sched) + 1)]
           /\ UNCHANGED cfgOf
Copy(i) == /\ Len(cfgOf) < MaxInst
           /\ sched' = Append(sched, <<"copy", Len(cfgOf) + 1, i>>)
           /\ cfgOf' = Append(cfgOf, cfgOf[i])
           /\ hist'  = Append(hist, hist[i])
Init == sched = <<>> /\ cfgOf = <<>> /\ hist = <<>>
Next == /\ Len(sched) < MaxOps
        /\ \/ \E k \in 1..2 : New(k) /\ (Len(sched) = 0 => k = 1)
           \/ \E i \in 1..Len(cfgOf) : Tick(i) \/ Copy(i)

\* Isolation: an instance's experience can be recomputed from the operations
\* that name it, or that name what it was copied from before the copy
RECURSIVE Lineage(_, _)
Lineage(i, upto) ==
  IF upto = 0 THEN <<>>
  ELSE LET op == sched[upto] IN
       IF op[1] = "tick" /\ op[2] = i THEN Append(Lineage(i, upto - 1), op[3])
       ELSE IF op[1] = "copy" /\ op[2] = i THEN Lineage(op[3], upto - 1)
       ELSE IF op[1] = "new" /\ op[2] = i THEN <<>>
       ELSE Lineage(i, upto - 1)
Isolation == \A i \in 1..Len(cfgOf) : hist[i] = Lineage(i, Len(sched))

\* schedules worth performing: they end in a tick and involve two instances
Emit == Len(sched) = MaxOps /\ sched[MaxOps][1] = "tick" /\ Len(cfgOf) >= 2
          /\ (\A i \in 1..Len(cfgOf) : \E t \in 1..MaxOps : sched[t][1] = "tick" /\ sched[t][2] = i)
        => PrintT(ToJson(<<"S", sched, cfgOf, hist>>))
=============================================================================
