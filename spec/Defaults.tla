------------------------------ MODULE Defaults ------------------------------
(* What a constructor argument means when it is left out.  A call is a class  *)
(* plus the set of arguments actually given; the unit built must be the one   *)
(* the machine describes with the documented value in every open place.       *)
(* TLC walks from the fully spelled-out call to the empty one, an argument at *)
(* a time, and prints the table of values the executions are checked against. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Float3 == [btype |-> "float", rtype |-> "float", stype |-> "float"]
Float2 == [btype |-> "float", stype |-> "float"]
Sob(w, d) == [width |-> w, rng |-> "sobol", dimr |-> d]
None == "None"
LinHw == Sob(8, 1) @@ [mode |-> "bipolar", scale |-> None, depth |-> 12]
PcHw  == Sob(8, 1) @@ [mode |-> "bipolar"]
MguHw == Sob(8, 1) @@ [mode |-> "bipolar", depth |-> 10, depth_ismul |-> 6]
HubHw == [widthi |-> 8, rngi |-> "sobol", quantilei |-> 1, widthw |-> 8, rngw |-> "sobol", quantilew |-> 1,
          cycle |-> 128, rounding |-> "round", signmag |-> TRUE]
FxpHw == [widthi |-> 8, quantilei |-> 1, widthw |-> 8, quantilew |-> 1, rounding |-> "round"]
TlutHw == FxpHw @@ [temporal |-> "i", widtht |-> 4, formati |-> "fxp", formatw |-> "fxp", cycle |-> None, signmag |-> TRUE]
Geo == [stride |-> 1, padding |-> 0, dilation |-> 1, bias |-> TRUE]

Default ==
  [RNG |-> [hwcfg |-> Sob(8, 1), swcfg |-> [rtype |-> "float"]],
   RawScale |-> [hwcfg |-> [quantile |-> 1]],
   BinGen |-> [hwcfg |-> [width |-> 8, mode |-> "bipolar"], swcfg |-> [rtype |-> "float"]],
   BSGen |-> [swcfg |-> [stype |-> "float"]],
   SkewedSync |-> [hwcfg |-> [depth |-> 2], swcfg |-> Float2],
   Bi2Uni |-> [hwcfg |-> [depth |-> 3], swcfg |-> Float2],
   Uni2Bi |-> [hwcfg |-> [depth |-> 4], swcfg |-> Float2],
   FSUSignAbs |-> [hwcfg |-> [depth |-> 3], swcfg |-> Float2],
   FSUReLU |-> [hwcfg |-> [depth |-> 6], swcfg |-> Float2],
   ShiftReg |-> [hwcfg |-> [entry |-> 8], swcfg |-> [stype |-> "float"]],
   JKFF |-> [swcfg |-> [stype |-> "float"]],
   FSUAdd |-> [hwcfg |-> [mode |-> "bipolar", scale |-> None, dima |-> 0, depth |-> 10, entry |-> None], swcfg |-> Float2],
   FSUHardsigmoid |-> [hwcfg |-> [mode |-> "bipolar", scale |-> 2, dima |-> 0, depth |-> 8, entry |-> 2], swcfg |-> Float2],
   FSUMul |-> [in_1_prob |-> None, hwcfg |-> Sob(8, 1) @@ [mode |-> "bipolar", static |-> FALSE], swcfg |-> [rtype |-> "float", stype |-> "float"]],
   CORDIV_kernel |-> [hwcfg |-> [entry |-> 4, rng |-> "sobol", dimr |-> 4], swcfg |-> [stype |-> "float"]],
   FSUDiv |-> [hwcfg |-> [depth_sa |-> 3, depth_ss |-> 2, entry_kn |-> 2, mode |-> "bipolar", rng |-> "sobol", dimr |-> 4], swcfg |-> Float2],
   FSUSqrt |-> [hwcfg |-> [mode |-> "bipolar", jk_trace |-> TRUE, emit |-> TRUE, entry_kn |-> 1, entry_sr |-> 2, rng |-> "sobol", dimr |-> 4], swcfg |-> Float2],
   FSULinear |-> [hwcfg |-> LinHw, swcfg |-> Float3, bias |-> TRUE],
   FSULinearPC |-> [hwcfg |-> PcHw, swcfg |-> Float3, bias |-> TRUE],
   FSUConv2d |-> Geo @@ [hwcfg |-> LinHw, swcfg |-> Float3],
   FSUConv2dPC |-> Geo @@ [hwcfg |-> PcHw, swcfg |-> Float3],
   FSUMGUCell |-> [hwcfg |-> MguHw, swcfg |-> Float3, bias |-> TRUE],
   HUBMGUCell |-> [hwcfg |-> MguHw, bias |-> TRUE],
   HUBLinear |-> [hwcfg |-> HubHw, bias |-> TRUE],
   HUBConv2d |-> Geo @@ [hwcfg |-> HubHw],
   FXPLinear |-> [hwcfg |-> FxpHw, bias |-> TRUE],
   FXPConv2d |-> Geo @@ [hwcfg |-> FxpHw],
   TLUTLinear |-> [hwcfg |-> TlutHw, bias |-> TRUE],
   TLUTConv2d |-> Geo @@ [hwcfg |-> TlutHw],
   HardMGUCell |-> [bias |-> TRUE, hard |-> TRUE],
   HardMGUCellFXP |-> [bias |-> TRUE, hard |-> TRUE, intwidth |-> 3, fracwidth |-> 4],
   Round |-> [intwidth |-> 3, fracwidth |-> 4],
   HUBReLU |-> [scale |-> 1],
   HUBHardsigmoid |-> [scale |-> 3],
   NN_SC_Weight_Clipper |-> [frequency |-> 1, mode |-> "bipolar", bitwidth |-> 8],
   ProgError |-> [hwcfg |-> [scale |-> 1, mode |-> "bipolar"]],
   Stability |-> [hwcfg |-> [scale |-> 1, mode |-> "bipolar", threshold |-> <<1, 20>>]]]

VARIABLES cls, open
vars == <<cls, open>>
Init == cls \in DOMAIN Default /\ open = {}
Next == \E a \in DOMAIN Default[cls] \ open : open' = open \cup {a} /\ UNCHANGED cls
\* omitting is optional in any combination; the table decides each place alone
Closed == open \subseteq DOMAIN Default[cls]
Report == PrintT(ToJson(<<"D", cls, open, [a \in open |-> Default[cls][a]]>>))
=============================================================================
