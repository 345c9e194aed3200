import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Number sources emit exactly the sequence their name promises",
"For every bit width w and dimension, RNG yields 2^w integers that never change between reads, in the requested element type: 'sobol'/'rc' is the Sobol digital sequence of that dimension (a permutation of 0..2^w-1 in which every aligned block of 2^k draws hits each of the 2^k equal sub-ranges exactly once), 'race'/'tc' ascends 0..2^w-1, 'race10'/'tc10' descends. 'sys' is some permutation of 0..2^w-1, and 'lfsr' visits every value 1..2^w-1 exactly once before returning to its first value in the last position. Source names are case-insensitive.",
["configurations","inputs"],"all widths, dimensions, source names (any letter case), element types and repeated constructions/reads",
"test_stream_rng prints a few width-2..8 sequences and asserts nothing; it never checks permutation, block balance, dtype or other dimensions.",
["stream/gen.py"],[("RNG","stream/gen.py:RNG"),("get_lfsr_seq","stream/gen.py:get_lfsr_seq"),("get_sysrand_seq","stream/gen.py:get_sysrand_seq")],
observe=["RNG(hwcfg, swcfg)()"])

p("C02","BinGen quantises sources to the nearest of 2^w levels, both polarities",
"For every source value in range, BinGen returns round-half-to-even of v*2^w for unipolar data and of (v+1)/2*2^w for bipolar data, as a tensor of the source's shape and the requested element type, leaving the source untouched. The result is therefore always within 0..2^w, monotone in the source, and off by at most half a level.",
["inputs","configurations"],"all source tensors (any shape, including exact ties and the range ends), widths, modes and element types",
"test_stream_bingen prints four random values at one width; ties, range ends, modes and dtypes are never asserted.",
["stream/gen.py"],[("BinGen","stream/gen.py:BinGen")],observe=["BinGen(source, hwcfg, swcfg)()"])

p("C03","Bitstream encoding: each cycle emits 1 iff value > number, exactly v ones/period",
"BSGen emits at index c the bit (binary value > sequence[c mod period]) for every element independently, for any index (beyond one period too), in the requested stream type. Hence over any whole period of a permutation source the number of ones equals the binary value exactly, wherever the period starts, and ascending (descending) sources give a stream whose ones form one leading (trailing) run. Elements indexed by different cycles do not affect one another.",
["inputs","histories","configurations"],"all binary values 0..2^w, sources, index histories (contiguous, strided, random, past wrap-around, per-element), shapes and stream types",
"test_stream_bsgen prints a few cycles of one small stream; it never counts ones, wraps around, or indexes elements separately.",
["stream/gen.py"],[("BSGen","stream/gen.py:BSGen.forward"),("BinGen","stream/gen.py:BinGen")],observe=["BSGen(binary, rng, swcfg)(cycle)"])

p("C04","RawScale is a clamped symmetric scaling into [-1, 1]",
"For every raw tensor and quantile q in (0,1], RawScale clamps values to the lower (0.5-q/2) and upper (0.5+q/2) quantiles of the tensor and divides by the larger absolute quantile. The output has the input's shape, lies in [-1,1], preserves order and sign relations of unclamped values, and with q=1 is exactly raw/max|raw|; q outside (0,1] is rejected.",
["inputs","configurations"],"all raw tensors with a non-zero extreme, all quantiles, shapes and signs",
"test_stream_rawscale only plots/prints one random Gaussian tensor; nothing about bounds, order or asymmetry is asserted.",
["stream/gen.py"],[("RawScale","stream/gen.py:RawScale")],observe=["RawScale(hwcfg)(raw)"])

p("C05","SkewedSync never loses a one and pairs the smaller stream under the larger",
"For every pair of input streams SkewedSync passes stream 2 unchanged and re-times stream 1 using a counter bounded by 2^depth-1: a lone 1 of stream 1 is held back unless the counter is full, and a stored 1 is released when stream 2 is alone, so at every cycle ones(in1) = ones(out1) + counter. Stream 1 is 1 while stream 2 is 0 in the output only at a cycle where the counter was already full.",
["histories","configurations"],"all pairs of streams of any length, depths, element types and shapes, each element independent",
"test_stream_skewedsync runs one random value pair and prints the SCC; saturation, conservation and other depths are not asserted.",
["stream/shuffle.py"],[("SkewedSync","stream/shuffle.py:SkewedSync.forward")],
state=[("counter","ones of stream 1 held back, 0..2^depth-1","stream/shuffle.py:SkewedSync")],observe=["SkewedSync.forward outputs"])

p("C06","Bi2Uni and Uni2Bi convert polarity without losing value",
"At each cycle Bi2Uni adds 2*bit-1 (Uni2Bi: bit+1) to an accumulator saturating at +-2^(depth-2), emits 1 exactly when the accumulator reaches 1 (Uni2Bi: 2) and subtracts what it emitted. So while the accumulator is not saturated, ones(out)+residue = 2*ones(in)-cycles for Bi2Uni and 2*ones(out)+residue = ones(in)+cycles for Uni2Bi, with Uni2Bi's residue always 0 or 1 for depth >= 4. Each element converts independently of the others.",
["histories","configurations"],"all input streams, depths, element types and shapes",
"the two tests run a random value set for one configuration and print an error; saturation, negative excursions and long histories are unasserted.",
["stream/shuffle.py"],[("Bi2Uni","stream/shuffle.py:Bi2Uni.forward"),("Uni2Bi","stream/shuffle.py:Uni2Bi.forward")],
state=[("accumulator","pending value not emitted yet","stream/shuffle.py")],observe=["Bi2Uni.forward","Uni2Bi.forward"])

p("C07","FSUAdd conserves value: scale*ones(out) + residue = sum of inputs",
"At each cycle FSUAdd adds the number of ones along the reduced dimension (minus the offset (entry-scale)/2 in bipolar mode) to an accumulator saturating at +-2^(depth-2), emits 1 exactly when it is >= scale, and then subtracts scale from it, so that while unsaturated scale*ones(out)+residue equals everything added. Scale may be fractional, scale and entry default to the size of the reduced dimension and may be given at construction or overridden at the first call (later overrides are ignored). Every output element depends only on its own column of input bits.",
["histories","configurations","inputs"],"all input histories, modes, scales (integer, fractional, default, run-time), entries, reduced dimensions (negative too), depths, shapes and element types",
"test_kernel_fsuadd uses one random value set and prints the error; saturation, fractional scale, run-time overrides, residues and other dims are unasserted.",
["kernel/add.py"],[("FSUAdd","kernel/add.py:FSUAdd.forward")],
state=[("accumulator","value received but not yet emitted","kernel/add.py:FSUAdd")],observe=["FSUAdd.forward outputs"])

p("C08","Static FSUMul multiplies by conditional bitstream generation",
"With a static multiplier, cycle by cycle an input 1 emits the next unread bit of the multiplier's own bitstream (value > number at the position equal to how many input ones came before, modulo the period), and in bipolar mode an input 0 emits the complement of the next unread bit of a second copy advanced only by zeros; in unipolar mode an input 0 emits 0. Hence the ones emitted after any history depend only on how many ones and zeros were read, not on their order, and over whole periods the product is exact.",
["histories","inputs","configurations"],"all input streams (any length, past wrap-around), multiplier values, widths, sources, dimensions, modes, shapes and element types",
"test_kernel_fsumul samples one random run and prints the error; order-independence, wrap-around and per-element read positions are unasserted.",
["kernel/mul.py"],[("FSUMul static","kernel/mul.py:FSUMul.FSUMul_forward")],
state=[("read positions","number of ones/zeros read per element","kernel/mul.py:FSUMul")],observe=["FSUMul.forward outputs"])

p("C09","In-stream FSUMul multiplies using a sliding window of its second stream",
"With two input streams, the multiplier value at each cycle is the number of ones among the last 2^w bits of the second stream before this cycle (initially an alternating 0,1,... window), and the first stream reads number positions exactly as in the static multiplier, advancing the ones-reader on a 1 and, in bipolar mode, the zeros-reader on a 0, both modulo 2^w. A 1 emits (window count > number at the ones-reader); in bipolar mode a 0 emits the complement of (count > number at the zeros-reader); in unipolar mode a 0 emits 0.",
["histories","configurations"],"all pairs of streams of any length, widths, sources, dimensions, modes, shapes and element types",
"test_kernel_fsumul_in_stream runs one random value set and prints an error; window contents, initial window and wrap-around are unasserted.",
["kernel/mul.py","kernel/shiftreg.py"],[("FSUMul in-stream","kernel/mul.py:FSUMul.FSUMul_forward"),("ShiftReg","kernel/shiftreg.py")],
state=[("window","last 2^w bits of stream 2","kernel/shiftreg.py:ShiftReg")],observe=["FSUMul.forward outputs"])

p("C10","ShiftReg is a FIFO window with per-element hold",
"A ShiftReg of n entries starts with the alternating bits 0,1,0,1,... (oldest first); each call returns the entry at the requested index and the number of ones stored, both before shifting, and then drops the oldest bit and appends the input, for exactly those elements whose mask is 1 (all when no mask is given), holding every other element unchanged. A mask of a different shape is rejected.",
["histories","configurations","inputs"],"all histories of inputs, masks and indices, entry counts, shapes and element types",
"test_kernel_shiftreg prints a handful of steps of one 1-D register; masks per element, indices and long histories are unasserted.",
["kernel/shiftreg.py"],[("ShiftReg","kernel/shiftreg.py:ShiftReg.ShiftReg_forward")],
state=[("register","stored bits per element","kernel/shiftreg.py:ShiftReg")],observe=["ShiftReg.forward outputs"])

p("C11","JKFF obeys the JK truth table from a zero start",
"From initial state 0, at every cycle and for every element JKFF outputs its new state: hold for J=K=0, 1 for J=1,K=0, 0 for J=0,K=1, toggle for J=K=1. Any non-zero J or K counts as 1, and bits already returned never change later.",
["histories","inputs"],"all J/K histories, shapes and element types",
"test_kernel_jkff prints a few steps without asserting; returned-value stability and other element types are not exercised.",
["kernel/jkff.py"],[("JKFF","kernel/jkff.py:JKFF.forward")],state=[("flip-flop","current state per element","kernel/jkff.py:JKFF")],observe=["JKFF.forward output"])

p("C12","FSUSignAbs tracks the running sign and outputs input XOR sign",
"Starting at half of 2^depth, a per-element counter moves +1 on an input 1 and -1 on an input 0, saturating at 0 and 2^depth-1; the returned sign is 1 exactly when the updated counter is below half, and the returned absolute-value bit is the input bit XOR that sign.",
["histories","configurations"],"all input streams, depths, shapes and element types",
"test_kernel_fsusignabs prints the error of one random set; saturation edges and sign flips are unasserted.",
["kernel/signabs.py"],[("FSUSignAbs","kernel/signabs.py:FSUSignAbs.forward")],state=[("counter","running bipolar sum","kernel/signabs.py:FSUSignAbs")],observe=["FSUSignAbs.forward outputs"])

p("C13","Streaming division follows the correlated-division machine in both modes",
"The division kernel outputs the dividend bit whenever the divisor bit is 1 (and stores it in a window of recent quotient bits), and otherwise replays the stored bit selected by its random sequence at a position that advances every cycle, starting from an alternating window. FSUDiv feeds it with skew-synchronised streams in unipolar mode; in bipolar mode it takes sign and absolute value of both operands, converts them to unipolar, divides, converts back to bipolar and XORs both signs. Every element divides independently.",
["histories","configurations"],"all dividend/divisor stream pairs, modes, depths, window sizes, sources, dimensions, shapes and element types",
"test_kernel_fsudiv prints errors of one random set; none of the replay order, window updates or sign paths is asserted.",
["kernel/div.py","stream/shuffle.py","kernel/signabs.py"],[("CORDIV_kernel","kernel/div.py:CORDIV_kernel.forward"),("FSUDiv","kernel/div.py:FSUDiv")],
state=[("quotient window","stored quotient bits","kernel/div.py:CORDIV_kernel")],observe=["CORDIV_kernel.forward","FSUDiv.forward"])

p("C14","Streaming square root follows its feedback loop in every variant",
"In emit mode FSUSqrt adds (non-scaled, unipolar) the input bit and the previously emitted bit, and emits as feedback (oldest bit of the complement-output window) AND (output, converted to unipolar first in bipolar mode). Otherwise it outputs input OR trace, where the next trace comes from a toggling JK flip-flop or from the correlated-division kernel fed with every second output bit, on the output (converted to unipolar first in bipolar mode). Every element computes independently.",
["histories","configurations"],"all input streams, both modes, emit/JK/division variants, window sizes, shapes and element types",
"test_kernel_fsusqrt prints the error of one random set per variant; the feedback value after long or adversarial histories is unasserted.",
["kernel/sqrt.py"],[("FSUSqrt","kernel/sqrt.py:FSUSqrt")],state=[("feedback","trace/emitted bit","kernel/sqrt.py:FSUSqrt")],observe=["FSUSqrt.forward"])

p("C15","FSUReLU lifts a stream just enough to keep its running value non-negative",
"At each cycle FSUReLU outputs 0 exactly when the input is 0 and its counter (start half of 2^depth, moving +1/-1 with the output and saturating at 0 and 2^depth-1) is at least half; otherwise it outputs 1. So an input 1 is never dropped, the running bipolar sum of the output never falls below -1, and outputs have the requested stream type for any configured counter type.",
["histories","configurations"],"all input streams, depths, stream and counter types and shapes",
"test_kernel_fsurelu prints the error of one random set with equal types; saturation, prefix bounds and type handling are unasserted.",
["kernel/relu.py"],[("FSUReLU","kernel/relu.py:FSUReLU.forward")],state=[("counter","running output sum","kernel/relu.py:FSUReLU")],observe=["FSUReLU.forward"])

p("C16","Activation functions: hard sigmoid, hard tanh and clipped ReLU",
"FSUHardsigmoid computes the scaled addition (x+1)/2 on streams: 2*ones(out)+residue = ones(in)+cycles with residue always 0 or 1, in both modes; FSUHardtanh passes streams through unchanged. HUBHardsigmoid(x) equals clamp((scale*x+3)/6, 0, 1), HUBHardtanh clamps to [-1,1] and HUBReLU clamps to [0, scale], elementwise on every finite input.",
["histories","inputs","configurations"],"all streams and real inputs, modes, depths, scales, shapes and types",
"no test covers these modules except indirectly through the untested recurrent cells.",
["kernel/sigmoid.py","kernel/tanh.py","kernel/relu.py"],[("FSUHardsigmoid","kernel/sigmoid.py"),("HUBHardsigmoid","kernel/sigmoid.py"),("HUBHardtanh","kernel/tanh.py"),("HUBReLU","kernel/relu.py")],observe=["forward outputs"])

p("C17","FSULinear is conditional-generation multiply plus conserving accumulate",
"Every cycle, output neuron o of FSULinear counts, over its inputs, the weight bits read at the position given by how many ones (for input bit 1) or zeros (bipolar, input bit 0, complemented) that input of that batch row has seen, plus the bias stream's bit for this cycle; with an ascending/descending weight source all reads use the cycle number instead. FSULinearPC returns that count and FSULinear accumulates it as FSUAdd does, with scale and entry defaulting to the number of inputs plus bias. Batch rows never influence each other.",
["histories","configurations","inputs"],"all input histories, batch sizes, feature counts, weights, biases, modes, scales, depths, sources, dimensions",
"test_kernel_fsulinear runs one random batch and prints an error; per-row read positions, wrap-around, bias phase and temporal weights are unasserted.",
["kernel/linear.py","kernel/add.py"],[("FSULinearPC","kernel/linear.py:FSULinearPC"),("FSULinear","kernel/linear.py:FSULinear")],
state=[("weight read positions","per batch row and weight","kernel/linear.py:FSULinearPC")],observe=["FSULinear.forward","FSULinearPC.forward"])

p("C18","FSUConv2d equals FSULinear on sliding patches with neutral padding",
"For every stride, padding, dilation and kernel shape, each output position of FSUConv2d behaves as a FSULinear with the same flattened weights and bias reading its own patch of the padded input, with its own read positions, and the output has the standard convolution shape. Padding cells feed 0 every cycle in unipolar mode and alternate 0,1,0,1,... (value zero) starting with 0 in bipolar mode.",
["histories","configurations","inputs"],"all input histories, image/kernel shapes (non-square too), strides, paddings (tuples too), dilations, channels, batch sizes, modes, sources",
"test_kernel_fsuconv2d is not among the passing baseline tests, so nothing is checked at all.",
["kernel/conv.py","kernel/utils.py"],[("FSUConv2dPC","kernel/conv.py:FSUConv2dPC"),("FSUConv2d","kernel/conv.py:FSUConv2d")],
state=[("weight read positions","per output position and weight","kernel/conv.py:FSUConv2dPC"),("padding phase","0/1 alternation","kernel/conv.py:FSUConv2dPC")],observe=["FSUConv2d.forward","FSUConv2dPC.forward"])

p("C19","HUBLinear is a sign-magnitude unary product map plus exact rescale",
"HUBLinear scales input and weight magnitudes by power-of-two shifts derived from their (quantile) ranges, rounds and clamps them to below the run cycle, multiplies each pair by the count of ones the multiplicand emits while its controller is 1 (the temporal-coded operand is the controller, otherwise the input), restores signs, sums, shifts back and adds the bias. An omitted or over-long cycle means a full run of 2^(width-1) cycles. With a low-discrepancy source (Sobol, Rc) on the multiplicand every full-run product is within (width-1)/3+1 counts of the exact one. The result is defined (no error, no NaN) for every finite input.",
["inputs","configurations"],"all inputs, weights, biases, widths, source pairs, quantiles, cycles, rounding modes, batch sizes",
"test_kernel_hublinear is not among the passing baseline tests, so nothing is checked at all.",
["kernel/linear.py","kernel/utils.py"],[("HUBLinear","kernel/linear.py:HUBLinear"),("HUBLinearFunction","kernel/linear.py:HUBLinearFunction"),("rshift_offset","kernel/utils.py:rshift_offset")],observe=["HUBLinear.forward"])

p("C20","FXPLinear is an exact fixed-point matrix product with range clamping",
"FXPLinear scales input and weight by power-of-two shifts derived from their (quantile) ranges, rounds half to even, clamps to the sign-magnitude range +-(2^(width-1)-1), multiplies exactly, shifts back and adds the bias. So for data already on the grid it equals the ordinary linear layer, and otherwise each operand is off by at most half a step unless it is clamped; the result is defined for every finite input.",
["inputs","configurations"],"all inputs, weights, biases, widths, quantiles, rounding modes, batch sizes",
"no baseline test covers it (its test does not pass here).",
["kernel/linear.py","kernel/utils.py"],[("FXPLinear","kernel/linear.py:FXPLinear"),("FXPLinearFunction","kernel/linear.py:FXPLinearFunction"),("rshift_offset","kernel/utils.py")],observe=["FXPLinear.forward"])

p("C21","TLUTLinear splits the temporal operand into clamped digits losslessly",
"TLUTLinear quantises fixed-point operands by truncation to sign-magnitude range (the temporal operand only when the other is floating point), splits the temporal operand's magnitude (or mantissa for floating-point formats) into base-2^widtht digits, clamps each digit to below the run cycle, recombines them and multiplies. With no early termination the recombination is the identity, so the output equals the plain product of the quantised operands plus bias; with early termination each digit is independently limited to cycle-1.",
["inputs","configurations"],"all inputs/weights/biases, temporal side, digit widths, data widths, formats, cycles, rounding modes and quantiles",
"no baseline test covers it (its test does not pass here).",
["kernel/linear.py","kernel/utils.py"],[("TLUTLinear","kernel/linear.py:TLUTLinear"),("TLUTLinearFXPFXPFunction","kernel/linear.py"),("TLUTLinearFXPFPFunction","kernel/linear.py"),("TLUTLinearFPFPFunction","kernel/linear.py")],observe=["TLUTLinear.forward"])

p("C22","Binary-domain convolutions equal their linear layers on zero-padded patches",
"For every stride, padding, dilation and kernel shape, HUBConv2d, FXPConv2d and TLUTConv2d produce, at each output position of the standard convolution shape, the value the corresponding linear layer gives for the zero-padded input patch and the flattened kernel (with the range scaling taken from the whole raw input for HUBConv2d and FXPConv2d, and from all zero-padded patches together for TLUTConv2d), plus the bias of the output channel.",
["inputs","configurations"],"all images, kernels, strides, paddings, dilations, channels, batch sizes and number-format configurations",
"none of the three convolution tests is among the passing baseline tests.",
["kernel/conv.py","kernel/utils.py"],[("HUBConv2d","kernel/conv.py:HUBConv2d"),("FXPConv2d","kernel/conv.py:FXPConv2d"),("TLUTConv2d","kernel/conv.py:TLUTConv2d")],observe=["forward outputs"])

p("C23","Quantised layers train with straight-through gradients",
"For HUBLinear, FXPLinear, TLUTLinear and their convolutions in every format, the gradients delivered to input, weight and bias are exactly those of the unquantised linear/convolution layer with the same parameters, for any incoming gradient; Round passes the incoming gradient through unchanged.",
["inputs","configurations"],"all inputs, weights, biases, upstream gradients, number formats, and which of the operands require gradients",
"the layer tests print gradient differences without asserting and do not pass here.",
["kernel/linear.py","kernel/conv.py","kernel/utils.py"],[("backward","kernel/linear.py:*Function.backward"),("RoundSTE.backward","kernel/utils.py:RoundSTE")],observe=["tensor.grad after backward()"])

p("C24","FSUMGUCell is the exact composition of its streaming parts",
"Each cycle FSUMGUCell computes forget = scaled-add of (linear_f(hidden,input), 1), gated hidden = forget x buffered hidden (static multiply), new = linear_n(gated hidden, input), and outputs the non-scaled addition of new, the complement of forget x new (in-stream multiply) and gated hidden, where each part is the corresponding streaming unit with scale 1 linear layers. Inputs or hidden states whose feature or batch size disagrees with the cell are rejected.",
["histories","configurations"],"all input/hidden stream histories, sizes, biases, widths, depths, batch sizes",
"no passing baseline test runs the cell.",
["kernel/rnn.py"],[("FSUMGUCell","kernel/rnn.py:FSUMGUCell.forward")],observe=["FSUMGUCell.forward"])

p("C25","HUBMGUCell returns the decoded full-period output of the streaming cell",
"HUBMGUCell encodes input and hidden state (zero when absent) as bipolar streams with the configured source, runs a fresh streaming cell for exactly 2^width cycles buffering the hidden value, and returns 2*ones/2^width-1 per hidden unit. Two calls with equal arguments return equal results: no state survives a call.",
["inputs","histories","configurations"],"all inputs, hidden states, weights, biases, widths, batch sizes and call sequences",
"no passing baseline test runs the cell.",
["kernel/rnn.py","metric/metric.py"],[("HUBMGUCell","kernel/rnn.py:HUBMGUCell.forward")],observe=["HUBMGUCell.forward"])

p("C26","Binary gated-unit cells implement the bounded minimal gated unit",
"HardMGUCell computes forget = sigmoid(clamp(W_f[h,x]+b_f)), new = tanh(W_n[forget*h,x]+b_n) and returns clamp(new - forget*new + forget*h) with clamps to [-1,1], using hard sigmoid (x+1)/2 and hard tanh when 'hard' is set; an omitted hidden state is zero and a missing bias is no bias. HardMGUCellFXP is the same with every operand rounded to the configured fixed-point grid, and the output always stays within [-1,1].",
["inputs","configurations"],"all inputs, hidden states, weights, biases, sizes and fixed-point formats",
"no passing baseline test runs either cell.",
["kernel/rnn.py","kernel/utils.py"],[("HardMGUCell","kernel/rnn.py:HardMGUCell"),("HardMGUCellFXP","kernel/rnn.py:HardMGUCellFXP")],observe=["forward outputs"])

p("C27","Round maps every number to the nearest representable fixed-point value",
"Round(intwidth, fracwidth) returns the input rounded half to even to a multiple of 2^-fracwidth and clamped to +-(2^(intwidth+fracwidth)-1)*2^-fracwidth, keeping the input's shape and element type. It is odd, monotone and idempotent, and None maps to None.",
["inputs","configurations"],"all inputs (ties and out-of-range included), all widths, element types",
"test_kernel_round does not pass here; it asserts nothing.",
["kernel/utils.py"],[("Round","kernel/utils.py:Round"),("RoundSTE","kernel/utils.py:RoundSTE")],observe=["Round.forward"])

p("C28","Convolution shape helpers agree with each other and with real convolutions",
"conv2d_output_shape and convtransp2d_output_shape return the shapes torch's convolution and transposed convolution produce for the same arguments (scalar, pair and per-side paddings), and conv2d_get_padding / convtransp2d_get_padding return per-side paddings, differing by at most one, that make the corresponding output shape come out exactly as requested whenever that is possible.",
["inputs"],"all input/output sizes, kernels, strides, paddings, dilations and output paddings, as scalars or tuples",
"no test calls these helpers directly.",
["kernel/utils.py"],[("shape helpers","kernel/utils.py:conv2d_output_shape..convtransp2d_get_padding"),("num2tuple","kernel/utils.py:num2tuple")],observe=["return values"])

p("C29","Weight clipper moves parameters onto the legal unary grid",
"On its first call the weight clipper min-max normalises, and on every later call clamps, each of a module's weight and (if present) bias tensors to [0,1] (unipolar) or [-1,1] (bipolar), rounding to multiples of 2^-bitwidth (unipolar) or 2^(1-bitwidth) (bipolar), in place. Afterwards every parameter is on that grid and within range, order is preserved, and repeating a later call changes nothing; modules without weight or without bias are left alone in that respect.",
["inputs","histories","configurations"],"all weight/bias tensors with non-constant values, modes, bit widths, call sequences, and modules with or without bias",
"no test uses the clipper.",
["kernel/utils.py"],[("NN_SC_Weight_Clipper","kernel/utils.py:NN_SC_Weight_Clipper")],observe=["module.weight / module.bias after the call"])

p("C30","ProgError reports the exact running value and error of a stream",
"After any number of monitored cycles ProgError returns progressive precision ones/cycles (2*ones/cycles-1 in bipolar mode) and progressive error equal to that minus the source divided by scale and clamped to [-1,1], for each element. Reading does not change later results, and the number of reads does not matter. (A reading needs at least one monitored cycle.)",
["histories","configurations","inputs"],"all streams, sources, scales, modes, shapes, and interleavings of monitoring and reading",
"test_metric_progerror prints one run; nothing is asserted about values, scaling or repeated reads.",
["metric/metric.py"],[("ProgError","metric/metric.py:ProgError")],state=[("ones, cycles","running counts","metric/metric.py:ProgError")],observe=["ProgError()"])

p("C31","Correlation reports the exact SCC of the monitored streams",
"After any history Correlation returns the stochastic cross correlation computed from the four joint counts a (11), b (10), c (01), d (00) over all n cycles: (ad-bc)/(n*min(a+b,a+c)-(a+b)(a+c)) if ad>bc, else (ad-bc)/((a+b)(a+c)-n*max(a-d,0)), a zero denominator counting as 1, after at least one monitored cycle. With a single stream the second one is that stream delayed by one cycle (starting from 0). It is computed per element for streams of any shape, and lies in [-1,1] with +1 for identical and -1 for complementary non-constant streams.",
["histories","inputs"],"all stream pairs or single streams of any length and shape",
"test_metric_correlation prints one SCC of shape [1]; other shapes, the delayed mode and degenerate streams are unasserted.",
["metric/metric.py"],[("Correlation","metric/metric.py:Correlation")],state=[("joint counts","a,b,c,d","metric/metric.py:Correlation")],observe=["Correlation()"])

p("C32","Stability is the fraction of time after the error last left its band",
"After n monitored cycles Stability returns 1 - max(1,t)/n per element, where t is the last cycle (0 if none) at which the absolute progressive error of that element exceeded the threshold. It never depends on how often it is read, and elements do not influence each other.",
["histories","configurations","inputs"],"all streams, sources, scales, modes, thresholds, shapes and read interleavings",
"test_metric_stability prints one run; nothing is asserted.",
["metric/metric.py"],[("Stability","metric/metric.py:Stability")],state=[("last unstable cycle","per element","metric/metric.py:Stability")],observe=["Stability()"])

p("C33","Unit instances are isolated: no state is shared, aliased or leaked",
"Whatever units are created (equal or default configurations included), deep-copied and stepped in whatever interleaving, each instance's outputs are those of running it alone, and a copy continues exactly from the state at the copy without affecting the original. Stepping a unit never modifies its input tensors, the configuration dictionaries passed by the caller, or stream outputs returned earlier; and overwriting those input and stream-output tensors after a call does not change later results. (Number sources and encoders hand out their own buffer, and ProgError's returned values alias its state, by design.)",
["schedules","histories"],"all interleavings of create/step/deep-copy over several instances of any streaming unit and configuration",
"every test creates one instance and steps it alone; aliasing, defaults shared between instances and copying are never exercised.",
["kernel/add.py","kernel/mul.py","kernel/shiftreg.py","kernel/jkff.py","kernel/div.py","kernel/sqrt.py","kernel/relu.py","kernel/signabs.py","kernel/linear.py","stream/shuffle.py","stream/gen.py"],
[("module state","constructors and forward of every streaming unit"),("hwcfg/swcfg copies","constructors of every unit")],observe=["interleaved forward outputs","input tensors and config dicts after the calls"])

p("C34","Streams carry the same bits whatever the element types, shape or batch",
"For every streaming unit, the sequence of output bits depends only on the input bits and the numeric configuration: running it in another supported stream/buffer/number element type (fed with bits of its stream type), another memory layout (transposed or strided views), another tensor shape, or as one element among others gives the same bits, all outputs being 0 or 1, of the unit's configured stream type and of the (reduced) input shape.",
["configurations","histories","inputs"],"all streaming units, element-type combinations, shapes, memory layouts and stream histories",
"tests use torch.float and one shape almost everywhere and never compare configurations.",
["kernel/add.py","kernel/mul.py","kernel/shiftreg.py","kernel/jkff.py","kernel/div.py","kernel/sqrt.py","kernel/relu.py","kernel/signabs.py","stream/shuffle.py","stream/gen.py"],
[("type handling","swcfg of every unit"),("state broadcasting","forward of every unit")],observe=["forward outputs: values, dtype, shape"])

p("C35","Illegal configurations are rejected and legal ones echoed",
"Every unit accepts mode and source names in any letter case and rejects unknown modes, sources and rounding names, double temporal coding, out-of-range quantiles, missing static multipliers, mismatched external weight/bias shapes, non-power-of-two BSGen sequences and FSUSqrt windows, grouped or non-zero-padded convolutions, temporal weights in non-scaled bipolar FSU layers, temporal-coded FSUMGUCell sources and non-sign-magnitude requests at construction; operands that do not fit (FSUMGUCell features/hidden/batch, ShiftReg mask shape, linear inputs that are not 2-D) are rejected at the call. A rejected construction never yields a unit, and an accepted one exposes its configuration (names in lower case, an over-long run cycle cut to a full run). The spelling of a name makes no difference to what the unit computes.",
["configurations"],"all combinations of legal and illegal configuration fields for every unit",
"no test constructs an illegal configuration.",
["stream/gen.py","kernel/add.py","kernel/mul.py","kernel/div.py","kernel/sqrt.py","kernel/linear.py","kernel/conv.py","kernel/rnn.py","kernel/sigmoid.py","metric/metric.py"],
[("constructor assertions","every __init__")],observe=["constructor outcome","unit.hwcfg"])

p("C36","A computation over one full period decodes to its real value within a bound",
"Encoding a value with RawScale/BinGen/BSGen, computing for 2^width cycles and decoding with ProgError returns, in units of one emitted 1 out of 2^width: the encoded level itself for a plain stream of any permutation source; exactly floor(total/N) for a default-scaled FSUAdd of N streams; exactly floor((x+1)/2) in levels for FSUHardsigmoid; exactly max(x,0) for FSUReLU (depth >= 3) on a Sobol dimension-1 stream; and, for multipliers and layers whose values are read through a Sobol source, the exact product or layer sum to within w/3+1 per product and polarity (times the number of inputs, plus one output 1, for FSULinear/FSULinearPC), w being the width. Early readings do not disturb the result.",
["inputs","configurations"],"all operand values, widths, sources and chains",
"the tests print an error figure for random operands and never assert one; the bound is a claim about all operands.",
["stream/gen.py","kernel/add.py","kernel/mul.py","kernel/linear.py","kernel/sigmoid.py","kernel/relu.py","metric/metric.py"],
[("StreamBit/Level composition","BinGen.forward, BSGen.forward"),("decoder","ProgError.forward")],observe=["ProgError()[0]","sum of FSULinearPC outputs"])

p("C37","A constructor argument left out means its documented default",
"A unit constructed without hwcfg, swcfg or any other optional argument (bias, stride, padding, dilation, scale, intwidth, frequency, ...) behaves on every input exactly like the unit with the documented default spelled out: e.g. FSUAdd is bipolar, scale = number of operands, depth 10; FSULinear/FSUConv2d are 8-bit bipolar Sobol dimension 1, depth 12, with bias; HUB layers are 8-bit Sobol/Sobol, 128 cycles, round; CORDIV_kernel has 4 entries on Sobol dimension 4; Stability has threshold 0.05; every element type is float.",
["configurations","histories"],"all classes, any subset of arguments omitted, all inputs",
"the tests spell every configuration out.",
["stream/gen.py","stream/shuffle.py","kernel/add.py","kernel/linear.py","kernel/conv.py","kernel/rnn.py","kernel/div.py","kernel/sqrt.py","kernel/mul.py","kernel/relu.py","kernel/sigmoid.py","kernel/signabs.py","kernel/shiftreg.py","kernel/utils.py","metric/metric.py"],
[("default of each parameter","__init__ signatures")],observe=["unit outputs"])

p("C38","Printed reports state the statistics of the data they name",
"tensor_unary_outlier prints the label given, the exact minimum and maximum of the tensor and the percentage of its elements outside [-1, 1]. progerror_report prints, under the label given, one line per requested quantity (binary source values, unary decoded values, absolute error always, relative error = error / decoded value), each with that quantity's own minimum, maximum, unbiased standard deviation, mean and (for errors) root mean square, at any cycle count and any combination of flags, and reporting never disturbs the metric.",
["inputs","histories"],"all tensors, metric histories, flag combinations and labels",
"no test checks a printed number; value reports are never requested.",
["kernel/utils.py","metric/metric.py"],
[("report functions","tensor_unary_outlier, progerror_report in kernel/utils.py")],observe=["printed lines","ProgError() after a report"])

p("C39","Truncated-normal initialisation lies within two standard deviations",
"truncated_normal(t, mean, std) (defaults 0 and 0.01) returns a tensor of t's shape and type whose every element lies within two standard deviations of the mean and is distributed as a normal variable conditioned on that band (elements outside it are drawn again, not clipped; elements inside are kept), whatever t held before. A new HardMGUCell or HardMGUCellFXP with h hidden units holds weights and biases, of the documented shapes, that are such values for mean 0 and deviation 1/sqrt(h); without bias it has no bias parameters.",
["inputs"],"all shapes, types, means, deviations and seeds",
"random results: a test can only sample a seed, and none looks at the values.",
["kernel/utils.py","kernel/rnn.py"],
[("redraw loop","truncated_normal in kernel/utils.py"),("initial parameters","HardMGUCell.reset_parameters, HardMGUCellFXP.reset_parameters")],observe=["returned tensor","parameters of a new cell"])

p("C40","Activations and gated cells deliver the gradients of what they compute",
"Back-propagation through HUBHardsigmoid, HUBHardtanh, HUBReLU, HardMGUCell and HardMGUCellFXP delivers, for any incoming gradient, the derivative of the composed function to every input, hidden state (when given), weight and bias: every clamp passes the gradient inside its range and blocks it outside (at the very edge either is allowed), rounding passes it through unchanged, and hard gates (scale 3) have slope 1/2. An omitted hidden state counts as constant zero, and frozen inputs do not change the parameters' gradients.",
["inputs","configurations"],"all inputs, hidden states, parameters, incoming gradients, sizes, scales and fixed-point formats",
"no test runs a backward pass through activations or cells.",
["kernel/rnn.py","kernel/sigmoid.py","kernel/tanh.py","kernel/relu.py","kernel/utils.py"],
[("cells","HardMGUCell.forward, HardMGUCellFXP.forward"),("activations","HUBHardsigmoid, HUBHardtanh, HUBReLU"),("straight-through rounding","RoundSTE.backward")],observe=["gradients of inputs, hidden states and parameters"])

p("C41","RTL converters, JK flip-flop and sign units behave like their functional units",
"Clocked from reset, with one input bit per rising edge and outputs read before the edge, hw's SkewedSync gives the bits of the functional SkewedSync in the same cycle, and JKFF, Bi2Uni, Uni2Bi and the sign of Sign and Abs give the functional unit's bits one cycle later (Abs' second output is that sign XOR its current input). SkewedSyncInt passes in1; on in1 = 1 releases everything held plus in0 up to 2^DEP-1, holding the rest (saturating at 2^DEP-1), else it releases 0 and holds in0. The active-low asynchronous reset restores the initial state at once, Bi2Uni wraps around beyond what its DEP-bit register holds, and every module compiles with its default parameters.",
["histories","configurations"],"all input and reset histories of any length, all depths and widths",
"no test simulates the RTL; the repository ships it without test benches.",
["hw/stream/shuffle/SkewedSync.sv","hw/stream/shuffle/Bi2Uni.sv","hw/stream/shuffle/Uni2Bi.sv","hw/stream/shuffle_int/SkewedSyncInt.sv","hw/kernel/jkff/JKFF.sv","hw/kernel/sign/Sign.sv","hw/kernel/abs/Abs.sv"],
[("registers","always_ff blocks of the modules"),("functional counterparts","stream/shuffle.py, kernel/jkff.py, kernel/signabs.py")],
state=[("cnt / diff_acc / out","value held between clock edges","the modules' registers")],observe=["output ports before each clock edge"])

p("C42","RTL dividers step as the division circuits they name",
"CORDIV_kernel gives dividend when divisor is 1, else entry randNum of its last DEP quotients (initially alternating 0,1 from entry 0), and shifts its quotient in; GDIV_U gives cnt > randNum for a saturating DEP-bit counter (initially 2^(DEP-1)) that steps up on dividend without feedback and down on feedback without dividend, feedback being quotient AND divisor; GDIV_B does so with dividend XNOR divisor, and the XNOR of quotient with (divisor XNOR previous divisor, initially 0). ISCBDIV_U is SkewedSync (DEP_SYNC) followed by CORDIV_kernel; ISCBDIV_B feeds that with Bi2Uni of the magnitudes by Abs of both operands (DEP_ABS), and gives Uni2Bi of the quotient XORed with both signs. Asynchronous active-low reset restores the initial state at once.",
["histories","configurations"],"all histories of inputs, random numbers and resets, all depths",
"no test simulates the RTL.",
["hw/kernel/div/CORDIV_kernel.sv","hw/kernel/div/GDIV_U.sv","hw/kernel/div/GDIV_B.sv","hw/kernel/div/ISCBDIV_U.sv","hw/kernel/div/ISCBDIV_B.sv"],
[("registers","always_ff blocks of the modules"),("composition","instances inside ISCBDIV_U and ISCBDIV_B")],
state=[("counters, shift registers","what is held between clock edges","the modules' registers")],observe=["quotient before each clock edge"])

p("C43","RTL square roots step as the feedback circuits they name",
"GSQRT_U/_B give cnt > randNum for a saturating DEP-bit counter (initially 2^(DEP-1)) stepped up by in and down by its output AND (XNOR, in _B) its previous output (initially 0); BISQRT_S_* give 1 when a trace is 1, else in; the trace of _JK_ is a JKFF with K=1 and J the output (its Bi2Uni in _B), that of _IS_ a CORDIV_kernel whose dividend is, every other cycle, the output (registered in _U, its Bi2Uni in _B) and whose divisor is 1 otherwise; _IS_U's output is registered. BISQRT_O_* give 1 while a DEP-bit offset accumulator (wrapping) is above its middle; it adds in plus, when the output (its Bi2Uni in _B) is 1, entry randNum of its last DEP_SR inverted outputs (initially 0,1,0,1..), and subtracts the output; Bi2Uni has 3 bits (DEP in _JK_B). Reset restores the initial state at once.",
["histories","configurations"],"all histories of inputs, random numbers and resets, all depths",
"no test simulates the RTL.",
["hw/kernel/sqrt/GSQRT_U.sv","hw/kernel/sqrt/GSQRT_B.sv","hw/kernel/sqrt/BISQRT_S_JK_U.sv","hw/kernel/sqrt/BISQRT_S_JK_B.sv","hw/kernel/sqrt/BISQRT_S_IS_U.sv","hw/kernel/sqrt/BISQRT_S_IS_B.sv","hw/kernel/sqrt/BISQRT_O_U.sv","hw/kernel/sqrt/BISQRT_O_B.sv"],
[("registers","always_ff blocks of the modules"),("composition","instances of JKFF, CORDIV_kernel and Bi2Uni")],
state=[("counters, accumulators, shift registers","what is held between clock edges","the modules' registers")],observe=["out before each clock edge"])

with open(''+__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
