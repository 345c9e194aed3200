------------------------------- MODULE Redraw -------------------------------
(* Truncated normal initialisation as a process: all elements are drawn, then *)
(* those outside two standard deviations are drawn again until none is left.  *)
(* Draws are multiples of a standard deviation, any value at any time.        *)
EXTENDS Layers
N == Doc.n
ASSUME N \in 1..4
Draws == {d * TnU : d \in -Doc.d .. Doc.d}

VARIABLES v, first
vars == <<v, first>>
Out == {i \in 1..N : ~TnIn(v[i])}
Init == v \in [1..N -> Draws] /\ first = v
Next == /\ Out # {}
        /\ \E w \in [Out -> Draws] : v' = [i \in 1..N |-> IF i \in Out THEN w[i] ELSE v[i]]
        /\ UNCHANGED first
Done == Out = {}
\* what was acceptable at first is never drawn again
Kept == \A i \in 1..N : TnIn(first[i]) => v[i] = first[i]
\* what is left at the end is in band, and satisfies everything asked of an observed result but the shares
Settled == Done => \A i \in 1..N : Abs(v[i]) <= 2 * TnU
\* every vector in band is a possible result (printed and counted by the harness)
Emit == Done => PrintT(ToJson(<<"V", v>>))
=============================================================================
