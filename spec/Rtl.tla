--------------------------------- MODULE Rtl ---------------------------------
(* The hardware descriptions under hw/, one clock cycle per step.            *)
(* in = <<rst_n, other inputs in port order>>; reset is asynchronous and      *)
(* active low.  Outputs are those visible before the clock edge.  A module's  *)
(* state is what its registers hold; widths wrap where the registers do.      *)
EXTENDS Layers

RtlKinds == {"rtl"}
\* accumulators are D-bit registers read as signed offsets from their middle (Core!Wrap)

\* ------------------------------------------- registers of single modules ----
RJk(q, j, k) == CASE j = 0 /\ k = 0 -> q [] j = 1 /\ k = 0 -> 1 [] j = 0 /\ k = 1 -> 0 [] OTHER -> 1 - q
RB2uOut(e) == Above(e)
RB2u(D, e, b) == RegNext(P2(D - 1), e, 2 * b - 1)
RU2bOut(s) == B2I(s >= 2)
RU2b(s, b) == (s % 2) + b + 1
RSign(D, cnt) == B2I(cnt < P2(D - 1))
RKernInit(n) == ShiftInit(n)
RKernOut(sr, r, x, y) == IF y = 1 THEN x ELSE sr[r + 1]
\* non-scaled addition in a D-bit accumulator
RAdd(D, e, ones) == RegNext(P2(D - 1), e, ones)

RtlReset(cfg) ==
  LET m == cfg.m IN
  CASE m \in {"JKFF", "Bi2Uni", "Uni2Bi", "SkewedSync", "SkewedSyncInt"} -> 0
    [] m \in {"Abs", "Sign", "GDIV_U"} -> P2(cfg.dep - 1)
    [] m = "CORDIV_kernel" -> RKernInit(cfg.dep)
    [] m = "GDIV_B" -> [c |-> P2(cfg.dep - 1), d |-> 0]
    [] m \in {"GSQRT_U", "GSQRT_B"} -> [c |-> P2(cfg.dep - 1), d |-> 0]
    [] m = "ISCBDIV_U" -> [s |-> 0, k |-> RKernInit(cfg.dep)]
    [] m = "ISCBDIV_B" -> [a |-> P2(cfg.depa - 1), b |-> P2(cfg.depa - 1), u |-> 0, v |-> 0,
                           s |-> 0, k |-> RKernInit(cfg.dep), q |-> 0]
    [] m = "BISQRT_S_JK_U" -> 0
    [] m = "BISQRT_S_JK_B" -> [j |-> 0, u |-> 0]
    [] m = "BISQRT_S_IS_U" -> [o |-> 0, d |-> 0, k |-> RKernInit(cfg.dep)]
    [] m = "BISQRT_S_IS_B" -> [u |-> 0, d |-> 0, k |-> RKernInit(cfg.dep)]
    [] m = "BISQRT_O_U" -> [e |-> 0, w |-> ShiftInit(cfg.deps)]
    [] m = "BISQRT_O_B" -> [e |-> 0, w |-> ShiftInit(cfg.deps), u |-> 0]

\* outputs and next state from the registers s and the inputs x (without reset)
RtlCore(cfg, s, x) ==
  LET m == cfg.m   D == cfg.dep IN
  CASE m = "JKFF"       -> Res(RJk(s, x[1], x[2]), <<s>>)
    [] m = "Bi2Uni"     -> Res(RB2u(D, s, x[1]), <<RB2uOut(s)>>)
    [] m = "Uni2Bi"     -> Res(RU2b(s, x[1]), <<RU2bOut(s)>>)
    [] m = "SkewedSync" -> SyncStep(D, s, x[1], x[2])
    [] m = "SkewedSyncInt" ->
         \* everything held leaves with the next 1, as far as it fits
         Res(SsiNext(P2(D) - 1, s, x[1], x[2]), <<SsiOut(P2(D) - 1, s, x[1], x[2]), x[2]>>)
    [] m = "Sign"       -> Res(CountNext(P2(D - 1), s, x[1]), <<RSign(D, s)>>)
    [] m = "Abs"        -> Res(CountNext(P2(D - 1), s, x[1]), <<RSign(D, s), XorB(RSign(D, s), x[1])>>)
    \* randNum, dividend, divisor
    [] m = "CORDIV_kernel" -> LET q == RKernOut(s, x[1], x[2], x[3]) IN Res(ShiftOf(s, q), <<q>>)
    [] m = "GDIV_U" -> LET q == B2I(s > x[1]) IN Res(UpDown(P2(D) - 1, s, x[2] = 1, q = 1 /\ x[3] = 1), <<q>>)
    \* bipolar products are agreements: dividend with divisor, and quotient with
    \* the divisor's agreement with itself one cycle ago
    [] m = "GDIV_B" ->
         LET q == B2I(s.c > x[1])
             num == x[2] = x[3]
             den == q = B2I(x[3] = s.d)
         IN Res([c |-> UpDown(P2(D) - 1, s.c, num /\ ~den, ~num /\ den), d |-> x[3]], <<q>>)
    [] m = "ISCBDIV_U" ->
         LET y == SyncStep(cfg.sync, s.s, x[2], x[3])
             q == RKernOut(s.k, x[1], y.out[1], y.out[2])
         IN Res([s |-> y.st, k |-> ShiftOf(s.k, q)], <<q>>)
    [] m = "ISCBDIV_B" ->
         LET sa == RSign(cfg.depa, s.a)   sb == RSign(cfg.depa, s.b)
             y == SyncStep(cfg.sync, s.s, RB2uOut(s.u), RB2uOut(s.v))
             q == RKernOut(s.k, x[1], y.out[1], y.out[2])
         IN Res([a |-> CountNext(P2(cfg.depa - 1), s.a, x[2]), b |-> CountNext(P2(cfg.depa - 1), s.b, x[3]),
                 u |-> RB2u(3, s.u, XorB(sa, x[2])), v |-> RB2u(3, s.v, XorB(sb, x[3])),
                 s |-> y.st, k |-> ShiftOf(s.k, q), q |-> RU2b(s.q, q)],
                <<XorB(RU2bOut(s.q), XorB(sa, sb))>>)
    \* randNum, in
    [] m \in {"GSQRT_U", "GSQRT_B"} ->
         LET q == B2I(s.c > x[1])
             sq == IF m = "GSQRT_U" THEN q = 1 /\ s.d = 1 ELSE q = s.d
         IN Res([c |-> UpDown(P2(D) - 1, s.c, x[2] = 1, sq), d |-> q], <<q>>)
    [] m = "BISQRT_S_JK_U" -> LET o == IF s = 1 THEN 1 ELSE x[1] IN Res(RJk(s, o, 1), <<o>>)
    [] m = "BISQRT_S_JK_B" ->
         LET o == IF s.j = 1 THEN 1 ELSE x[1] IN Res([j |-> RJk(s.j, RB2uOut(s.u), 1), u |-> RB2u(D, s.u, o)], <<o>>)
    [] m = "BISQRT_S_IS_U" ->
         LET n == IF s.d = 0 THEN s.o ELSE 0
             q == RKernOut(s.k, x[1], n, Max2(s.d, n))
         IN Res([o |-> IF q = 1 THEN 1 ELSE x[2], d |-> 1 - s.d, k |-> ShiftOf(s.k, q)], <<s.o>>)
    [] m = "BISQRT_S_IS_B" ->
         LET n == IF s.d = 0 THEN RB2uOut(s.u) ELSE 0
             q == RKernOut(s.k, x[1], n, Max2(s.d, n))
             o == IF q = 1 THEN 1 ELSE x[2]
         IN Res([u |-> RB2u(3, s.u, o), d |-> 1 - s.d, k |-> ShiftOf(s.k, q)], <<o>>)
    [] m = "BISQRT_O_U" ->
         LET o == B2I(s.e > 0) IN
         Res([e |-> RAdd(D, s.e, x[2] + (IF o = 1 THEN s.w[x[1] + 1] ELSE 0)), w |-> ShiftOf(s.w, 1 - o)], <<o>>)
    [] m = "BISQRT_O_B" ->
         LET o == B2I(s.e > 0) IN
         Res([e |-> RAdd(D, s.e, x[2] + (IF RB2uOut(s.u) = 1 THEN s.w[x[1] + 1] ELSE 0)),
              w |-> ShiftOf(s.w, 1 - o), u |-> RB2u(3, s.u, o)], <<o>>)

RtlStep(cfg, st, in) ==
  LET r == RtlCore(cfg, IF in[1] = 0 THEN RtlReset(cfg) ELSE st, Tail(in)) IN
  IF in[1] = 0 THEN Res(RtlReset(cfg), r.out) ELSE r

\* ---------------------------------------------------------------- clauses ----
\* Where the functional units have a counterpart, the hardware shows what the
\* counterpart does: combinational paths in the same cycle (h.n), registered ones
\* a cycle later (h.p; empty right after reset).  h.f is the counterpart's state;
\* h.ok ends where one of the two saturates and the other does not.
\* h.d counts what was received and not yet given back.
RtlFInit(cfg) ==
  CASE cfg.m = "Abs" \/ cfg.m = "Sign" -> SignAbsInit(cfg.dep)
    [] cfg.m = "BISQRT_S_JK_U" -> SqrtInit("unipolar", [variant |-> "jk"])
    [] OTHER -> 0
RtlHas(cfg) == cfg.m \in {"JKFF", "Bi2Uni", "Uni2Bi", "SkewedSync", "Sign", "Abs", "BISQRT_S_JK_U"}
RtlF(cfg, f, x) ==
  CASE cfg.m = "JKFF" -> JKStep(f, x[1], x[2])
    [] cfg.m = "Bi2Uni" -> Bi2UniStep(cfg.dep, f, x[1])
    [] cfg.m = "Uni2Bi" -> Uni2BiStep(4, f, x[1])
    [] cfg.m = "SkewedSync" -> SyncStep(cfg.dep, f, x[1], x[2])
    [] cfg.m \in {"Sign", "Abs"} -> SignAbsStep(cfg.dep, f, x[1])
    [] cfg.m = "BISQRT_S_JK_U" -> SqrtStep("unipolar", [variant |-> "jk"], f, x[1])
RtlHInit(cfg) == [f |-> RtlFInit(cfg), p |-> <<>>, n |-> <<>>, z |-> TRUE, ok |-> TRUE, d |-> 0]
RtlGot(cfg, x, out) ==
  CASE cfg.m = "Uni2Bi" -> x[1] + 1 - 2 * out[1]
    [] cfg.m \in {"SkewedSync", "SkewedSyncInt"} -> x[1] - out[1]
    [] OTHER -> 0
RtlLoses(cfg, g, x) ==
  CASE cfg.m = "Bi2Uni" -> Abs(g.f + 2 * x[1] - 1) > PolMax(cfg.dep)
    [] cfg.m = "SkewedSyncInt" -> x[2] = 0 /\ g.d + x[1] > P2(cfg.dep) - 1
    [] OTHER -> FALSE
RtlHNext(cfg, h, in, out) ==
  LET g == IF in[1] = 0 THEN RtlHInit(cfg) ELSE h
      x == Tail(in)
      r == IF RtlHas(cfg) THEN RtlF(cfg, g.f, x) ELSE Res(0, <<>>)
  IN IF in[1] = 0 THEN [g EXCEPT !.n = r.out]
     ELSE LET ok == g.ok /\ ~RtlLoses(cfg, g, x) IN
          [f |-> r.st, p |-> IF g.z THEN <<>> ELSE g.n, n |-> r.out, z |-> FALSE, ok |-> ok,
           d |-> IF ok THEN g.d + RtlGot(cfg, x, out) ELSE 0]
RtlBad(cfg, h, in, out, st2) ==
  LET m == cfg.m   seen == h.p # <<>>   x == Tail(in) IN
  IF m \in {"SkewedSync", "BISQRT_S_JK_U"} /\ out # h.n THEN "counterpart"
  ELSE IF m \in {"JKFF", "Uni2Bi"} /\ seen /\ out # h.p THEN "counterpart"
  ELSE IF m = "Bi2Uni" /\ seen /\ h.ok /\ out # h.p THEN "counterpart"
  ELSE IF m \in {"Sign", "Abs"} /\ seen /\ out[1] # h.p[1] THEN "counterpart"
  ELSE IF m = "Abs" /\ seen /\ out[2] # XorB(h.p[1], x[1]) THEN "counterpart"
  ELSE IF m = "Uni2Bi" /\ h.d \notin 0..3 THEN "conservation"
  ELSE IF m \in {"SkewedSync", "SkewedSyncInt"} /\ h.ok /\ (h.d # st2 \/ h.d \notin 0..(P2(cfg.dep) - 1)) THEN "conservation"
  ELSE ""
=============================================================================
