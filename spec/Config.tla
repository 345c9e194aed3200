------------------------------- MODULE Config -------------------------------
(* What may be constructed.  For every unit: the configuration fields with   *)
(* legal and illegal values, which combinations are legal, and what an       *)
(* accepted unit must report back.  TLC walks from each base configuration   *)
(* by changing one field at a time, up to Doc.changes fields, and prints     *)
(* every configuration with the verdict; the harness constructs each one.    *)
(* A name is <<spelling, case>>: case 0 lower, 1 upper, 2 capitalised.       *)
(* -1 stands for None.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Doc == JsonDeserialize(IOEnv.DOC)

Spell(S) == {<<n, c>> : n \in S, c \in 0..2}
Plain(S) == {<<n, 0>> : n \in S}
Modes     == Spell({"unipolar", "bipolar"})
BadModes  == Plain({"tripolar", "unipola", ""})
Temporal  == {"race", "tc", "race10", "tc10"}
RngNames  == {"sobol", "race", "lfsr", "sys", "rc", "tc", "race10", "tc10"}
Rngs      == Spell({"sobol", "race"}) \cup Plain(RngNames) \cup {<<"race10", 1>>, <<"tc", 2>>, <<"sys", 1>>}
BadRngs   == Plain({"halton", "sobol1", ""})
Rounds    == Spell({"round"}) \cup Plain({"ceil", "floor"}) \cup {<<"ceil", 1>>}
BadRounds == Plain({"trunc", "rounds"})
Quarters  == {-2, 0, 1, 2, 3, 4, 5, 8}             \* quantile times 4
WShapes   == {"ok", "transposed", "short", "wide", "absent"}
BShapes   == {"ok", "short", "long"}
Formats   == Spell({"fxp"}) \cup Plain({"bfloat16", "float16", "float32"}) \cup {<<"bfloat16", 1>>}
BadFormats == Plain({"float64", "int8", "bf16"})
Temps     == Plain({"i", "w", "input", "weight"}) \cup {<<"i", 1>>, <<"weight", 1>>, <<"input", 2>>}
BadTemps  == Plain({"x", "output"})
Types     == {"float", "double", "int8"}

Mode(d)   == [v |-> <<d, 0>>, dom |-> Modes \cup BadModes]
Rng       == [v |-> <<"sobol", 0>>, dom |-> Rngs \cup BadRngs]
Num(v, S) == [v |-> v, dom |-> S]
Bool(v)   == [v |-> v, dom |-> BOOLEAN]
Str(v, S) == [v |-> v, dom |-> S]

FsuLayer == [mode |-> Mode("bipolar"), width |-> Num(3, {2, 3}), rng |-> Rng, dimr |-> Num(1, {1, 3}), bias |-> Bool(TRUE),
             wshape |-> Str("ok", WShapes \ {"absent"}), bshape |-> Str("ok", BShapes)]
FsuAcc   == [scale |-> Num(-1, {-1, 1, 2, 4, 3}), depth |-> Num(8, {8, 10}), btype |-> Str("float", Types), rtype |-> Str("float", Types), stype |-> Str("float", Types)]
ConvArgs == [groups |-> Num(1, {1, 2}), padmode |-> Str("zeros", {"zeros", "reflect", "circular", "replicate"})]
Params   == [bias |-> Bool(TRUE), wshape |-> Str("ok", WShapes), bshape |-> Str("ok", BShapes)]
Quant    == [quantilei |-> Num(4, Quarters), quantilew |-> Num(4, Quarters), rounding |-> [v |-> <<"round", 0>>, dom |-> Rounds \cup BadRounds]]
Hub      == [width |-> Num(3, {3, 4}), rngi |-> Rng, rngw |-> Rng, signmag |-> Bool(TRUE), cycle |-> Num(4, {-1, 1, 3, 4, 5, 16})]
Tlut     == [temporal |-> [v |-> <<"i", 0>>, dom |-> Temps \cup BadTemps], widtht |-> Num(2, {1, 2, 4}),
             formati |-> [v |-> <<"fxp", 0>>, dom |-> Formats \cup BadFormats], formatw |-> [v |-> <<"fxp", 0>>, dom |-> Formats \cup BadFormats],
             widthi |-> Num(4, {4, 5}), widthw |-> Num(4, {4, 8}), signmag |-> Bool(TRUE), cycle |-> Num(-1, {-1, 1, 3, 4, 16})]
Fxp      == [widthi |-> Num(4, {4, 8}), widthw |-> Num(4, {4, 8})]

\* fields of every unit: f -> [v: base value, dom: values]
Fields(k) ==
  CASE k = "rng"      -> [rng |-> Rng, width |-> Num(3, {2, 3, 4}), dimr |-> Num(1, {1, 2, 5})]
    [] k = "rawscale" -> [quantile |-> Num(4, Quarters)]
    [] k = "bingen"   -> [mode |-> Mode("bipolar"), width |-> Num(3, {1, 3})]
    [] k = "bsgen"    -> [len |-> Num(4, 1..10)]
    [] k = "add"      -> [mode |-> Mode("bipolar"), scale |-> Num(-1, {-1, 1, 2}), entry |-> Num(-1, {-1, 2, 3}), depth |-> Num(6, {4, 6}), dima |-> Num(0, {0, 1, -1})]
    [] k = "hsig"     -> [mode |-> Mode("bipolar"), depth |-> Num(6, {6, 8})]
    [] k = "mul"      -> [mode |-> Mode("bipolar"), static |-> Bool(TRUE), prob |-> Bool(TRUE), rng |-> Rng, width |-> Num(3, {2, 3}), dimr |-> Num(1, {1, 2})]
    [] k = "kern"     -> [rng |-> Rng, entry |-> Num(4, {2, 4, 8}), dimr |-> Num(4, {1, 4})]
    [] k = "div"      -> [mode |-> Mode("bipolar"), rng |-> Rng, entry_kn |-> Num(4, {2, 4}), depth_sa |-> Num(3, {3, 4}), depth_ss |-> Num(2, {2, 3}), dimr |-> Num(4, {1, 4})]
    [] k = "sqrt"     -> [mode |-> Mode("bipolar"), jk_trace |-> Bool(TRUE), emit |-> Bool(TRUE), entry_kn |-> Num(1, 1..9), entry_sr |-> Num(2, 1..9), rng |-> Rng, dimr |-> Num(4, {1, 4})]
    [] k = "linpc"    -> FsuLayer
    [] k = "lin"      -> FsuLayer @@ FsuAcc
    [] k = "convpc"   -> FsuLayer @@ ConvArgs
    [] k = "conv"     -> FsuLayer @@ FsuAcc @@ ConvArgs
    [] k = "mgu"      -> [mode |-> Mode("bipolar"), rng |-> Rng, width |-> Num(3, {3}), depth |-> Num(8, {6, 8}), depth_ismul |-> Num(3, {2, 3}), dimr |-> Num(1, {1, 2}),
                          bias |-> Bool(TRUE), wshapef |-> Str("ok", WShapes \ {"absent"}), wshapen |-> Str("ok", WShapes \ {"absent"}),
                          bshapef |-> Str("ok", BShapes), bshapen |-> Str("ok", BShapes)]
    [] k = "hublin"   -> Hub @@ Quant @@ Params
    [] k = "hubconv"  -> Hub @@ Quant @@ Params @@ ConvArgs
    [] k = "fxplin"   -> Fxp @@ Quant @@ Params
    [] k = "fxpconv"  -> Fxp @@ Quant @@ Params @@ ConvArgs
    [] k = "tlutlin"  -> Tlut @@ Quant @@ Params
    [] k = "tlutconv" -> Tlut @@ Quant @@ Params @@ ConvArgs
    [] k = "progerr"  -> [mode |-> Mode("bipolar"), scale |-> Num(1, {1, 2, 4})]
    [] k = "stab"     -> [mode |-> Mode("bipolar"), scale |-> Num(1, {1, 2}), quarter |-> Num(1, {0, 1, 2})]
    [] k = "clipper"  -> [mode |-> [v |-> <<"bipolar", 0>>, dom |-> Plain({"unipolar", "bipolar", "tripolar", ""})], bitwidth |-> Num(4, {2, 4})]
    \* calls whose operands must fit the unit
    [] k = "mgucall"  -> [batch |-> Num(2, {1, 2, 3}), hbatch |-> Num(2, {1, 2, 3}), features |-> Num(3, {2, 3, 4}), hidden |-> Num(2, {1, 2, 3})]
    [] k = "shiftcall" -> [n |-> Num(3, {2, 3}), mask |-> Num(3, {1, 2, 3, 4})]
    [] k = "lincall"  -> [dims |-> Num(2, {1, 2, 3}), family |-> Str("hub", {"hub", "fsu"})]

Kinds == Doc.kinds
IsMode(m)  == m[1] \in {"unipolar", "bipolar"}
IsRng(r)   == r[1] \in RngNames
IsTemporal(r) == r[1] \in Temporal
IsRound(r) == r[1] \in {"round", "ceil", "floor"}
IsQuant(q) == q > 0 /\ q <= 4
Pow2(n)    == n \in {1, 2, 4, 8, 16, 32}
LayerShapes(c) == c.wshape \in {"ok", "absent"} /\ (c.bias => c.bshape = "ok")
ConvOk(c)      == c.groups = 1 /\ c.padmode = "zeros"
QuantOk(c)     == IsQuant(c.quantilei) /\ IsQuant(c.quantilew) /\ IsRound(c.rounding)
FsuOk(c)       == IsMode(c.mode) /\ IsRng(c.rng) /\ LayerShapes(c)
\* a temporal-coded weight needs scaled addition over all summands in bipolar mode
AccOk(c, nin)  == /\ c.btype = "float" /\ c.rtype = "float" /\ c.stype = "float"
                  /\ ~(c.mode[1] = "bipolar" /\ c.scale \notin {-1, nin + (IF c.bias THEN 1 ELSE 0)} /\ IsTemporal(c.rng))
HubOk(c)       == IsRng(c.rngi) /\ IsRng(c.rngw) /\ ~(IsTemporal(c.rngi) /\ IsTemporal(c.rngw)) /\ c.signmag /\ QuantOk(c) /\ LayerShapes(c)
TlutOk(c)      == /\ c.temporal[1] \in {"i", "w", "input", "weight"} /\ c.signmag /\ QuantOk(c) /\ LayerShapes(c)
                  /\ c.formati[1] \in {"fxp", "bfloat16", "float16", "float32"}
                  /\ c.formatw[1] \in {"fxp", "bfloat16", "float16", "float32"}

\* the layers under construction have three inputs (a 1x3 kernel on one channel)
Legal(k, c) ==
  CASE k = "rng"      -> IsRng(c.rng)
    [] k = "rawscale" -> IsQuant(c.quantile)
    [] k = "bingen"   -> IsMode(c.mode)
    [] k = "bsgen"    -> Pow2(c.len)
    [] k = "add"      -> IsMode(c.mode)
    [] k = "hsig"     -> IsMode(c.mode)
    [] k = "mul"      -> IsMode(c.mode) /\ IsRng(c.rng) /\ (c.static => c.prob)
    [] k = "kern"     -> IsRng(c.rng)
    [] k = "div"      -> IsMode(c.mode) /\ IsRng(c.rng)
    [] k = "sqrt"     -> IsMode(c.mode) /\ Pow2(c.entry_kn) /\ Pow2(c.entry_sr) /\ ((c.emit \/ ~c.jk_trace) => IsRng(c.rng))
    [] k = "linpc"    -> FsuOk(c)
    [] k = "lin"      -> FsuOk(c) /\ AccOk(c, 3)
    [] k = "convpc"   -> FsuOk(c) /\ ConvOk(c)
    [] k = "conv"     -> FsuOk(c) /\ AccOk(c, 3) /\ ConvOk(c)
    [] k = "mgu"      -> /\ c.mode[1] = "bipolar" /\ IsRng(c.rng) /\ ~IsTemporal(c.rng)
                         /\ c.wshapef = "ok" /\ c.wshapen = "ok"
                         /\ (c.bias => c.bshapef = "ok" /\ c.bshapen = "ok")
    [] k = "hublin"   -> HubOk(c)
    [] k = "hubconv"  -> HubOk(c) /\ ConvOk(c)
    [] k = "fxplin"   -> QuantOk(c) /\ LayerShapes(c)
    [] k = "fxpconv"  -> QuantOk(c) /\ LayerShapes(c) /\ ConvOk(c)
    [] k = "tlutlin"  -> TlutOk(c)
    [] k = "tlutconv" -> TlutOk(c) /\ ConvOk(c)
    [] k \in {"progerr", "stab", "clipper"} -> IsMode(c.mode)
    [] k = "mgucall"  -> c.batch = c.hbatch /\ c.features = 3 /\ c.hidden = 2
    [] k = "shiftcall" -> c.n = c.mask
    [] k = "lincall"  -> c.dims = 2

Low(n) == n[1]
\* what an accepted unit reports: names in lower case, everything else as given,
\* the run cycle limited to a full run
Lesser(a, b) == IF a < b THEN a ELSE b
RunCycle(c, full) == IF c.cycle = -1 THEN full ELSE Lesser(c.cycle, full)
P2(n) == 2 ^ n
QEcho(c) == [quantilei |-> c.quantilei, quantilew |-> c.quantilew, rounding |-> Low(c.rounding)]
FEcho(c) == [mode |-> Low(c.mode), rng |-> Low(c.rng), width |-> c.width, dimr |-> c.dimr]
Echo(k, c) ==
  CASE k = "rng"      -> [rng |-> Low(c.rng), width |-> c.width, dimr |-> c.dimr]
    [] k = "rawscale" -> [quantile |-> c.quantile]
    [] k = "bingen"   -> [mode |-> Low(c.mode), width |-> c.width]
    [] k = "bsgen"    -> [width |-> CHOOSE w \in 0..5 : P2(w) = c.len]
    [] k = "add"      -> [mode |-> Low(c.mode), scale |-> c.scale, entry |-> c.entry, depth |-> c.depth, dima |-> c.dima]
    [] k = "hsig"     -> [mode |-> Low(c.mode), depth |-> c.depth]
    [] k = "mul"      -> [mode |-> Low(c.mode), static |-> c.static, rng |-> Low(c.rng), width |-> c.width, dimr |-> c.dimr]
    [] k = "kern"     -> [rng |-> Low(c.rng), entry |-> c.entry, dimr |-> c.dimr]
    [] k = "div"      -> [mode |-> Low(c.mode), rng |-> Low(c.rng), entry_kn |-> c.entry_kn, depth_sa |-> c.depth_sa, depth_ss |-> c.depth_ss, dimr |-> c.dimr]
    [] k = "sqrt"     -> [mode |-> Low(c.mode), jk_trace |-> c.jk_trace, emit |-> c.emit, entry_kn |-> c.entry_kn, entry_sr |-> c.entry_sr, rng |-> Low(c.rng), dimr |-> c.dimr]
    [] k \in {"linpc", "convpc"} -> FEcho(c)
    [] k \in {"lin", "conv"}     -> FEcho(c) @@ [scale |-> c.scale, depth |-> c.depth]
    [] k = "mgu"      -> [mode |-> Low(c.mode), rng |-> Low(c.rng), width |-> c.width, depth |-> c.depth, depth_ismul |-> c.depth_ismul, dimr |-> c.dimr]
    [] k \in {"hublin", "hubconv"}   -> QEcho(c) @@ [rngi |-> Low(c.rngi), rngw |-> Low(c.rngw), widthi |-> c.width, widthw |-> c.width,
                                                     signmag |-> c.signmag, cycle |-> RunCycle(c, P2(c.width - 1))]
    [] k \in {"fxplin", "fxpconv"}   -> QEcho(c) @@ [widthi |-> c.widthi, widthw |-> c.widthw]
    [] k \in {"tlutlin", "tlutconv"} -> QEcho(c) @@ [temporal |-> Low(c.temporal), widtht |-> c.widtht, formati |-> Low(c.formati), formatw |-> Low(c.formatw),
                                                     widthi |-> c.widthi, widthw |-> c.widthw, signmag |-> c.signmag]
    [] k = "progerr"  -> [mode |-> Low(c.mode), scale |-> c.scale]
    [] k = "stab"     -> [mode |-> Low(c.mode), scale |-> c.scale]
    [] OTHER -> [none |-> 0]

Base(k) == [f \in DOMAIN Fields(k) |-> Fields(k)[f].v]

VARIABLES kind, cfg, changed
vars == <<kind, cfg, changed>>
Init == /\ kind \in {Kinds[i] : i \in 1..Len(Kinds)}
        /\ cfg = Base(kind)
        /\ changed = {}
Next == /\ Cardinality(changed) < Doc.changes
        /\ \E f \in DOMAIN cfg \ changed :
           \E v \in Fields(kind)[f].dom \ {cfg[f]} :
              /\ cfg' = [cfg EXCEPT ![f] = v]
              /\ changed' = changed \cup {f}
        /\ UNCHANGED kind

\* the base configurations are legal, and an illegal field is never repaired by
\* changing an unrelated one: legality is a conjunction over the fields involved
BaseLegal == changed = {} => Legal(kind, cfg)
\* a feedback shift register needs at least two bits; what a narrower one does
\* is left open
Open(k, c) == /\ k \in {"kern", "div", "sqrt"} /\ c.rng[1] = "lfsr"
              /\ (IF k = "kern" THEN c.entry < 4 ELSE c.entry_kn < 4 \/ (k = "sqrt" /\ c.entry_sr < 4))
Report == Open(kind, cfg) \/ PrintT(ToJson(<<"C", kind, cfg, Legal(kind, cfg), IF Legal(kind, cfg) THEN Echo(kind, cfg) ELSE [none |-> 0]>>))
=============================================================================
