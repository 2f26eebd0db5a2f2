"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

NOASSERT = "The tests print and plot results but assert nothing, and they sample one configuration; only a raised exception fails them. "

p("C01", "Random number sequences cover their range in the requested order",
  "For every width, dimension and kind, the random number generator yields a sequence of exactly 2^width integers: an ascending ramp 0..2^width-1 for race/tc, the descending ramp for race10/tc10, a permutation of 0..2^width-1 for sys, the requested dimension of the Sobol sequence scaled to integers for sobol/rc (a permutation whose every aligned block of 2^k numbers hits each of the 2^k equal sub-ranges once), and for lfsr the states of a maximal-length register, i.e. every value 1..2^width-1 once per period of 2^width-1. Kind names are accepted in any letter case, the data type is the requested one, and deterministic kinds give the same sequence every time.",
  ["configurations", "inputs"], "All kinds, widths 1-12, dimensions 1-16 (more in thorough), data types, letter cases; for lfsr every initial state and polynomial, for sys many seeds.",
  NOASSERT + "One width is drawn and the rare lfsr start states are hit by chance only.",
  ["stream/gen.py"], [("RNG", "stream/gen.py"), ("get_lfsr_seq", "stream/gen.py"), ("get_sysrand_seq", "stream/gen.py")], observe=["RNG()()"])

p("C02", "Binary quantisation of source data is correctly rounded",
  "Quantising source data to a given width yields, element by element and in the original shape, round(source * 2^width) in unipolar mode and round((source+1)/2 * 2^width) in bipolar mode, with ties to even, in the requested data type. The extremes map to 0 and 2^width, the map is monotone, and dequantising loses at most half a step.",
  ["inputs", "configurations"], "Every value on a grid several times finer than the quantisation step (all grid points, all ties), all widths 1-12, both modes in any letter case, several data types and shapes.",
  NOASSERT + "They quantise one random tensor at width 8.",
  ["stream/gen.py"], [("BinGen", "stream/gen.py")], observe=["BinGen()()"])

p("C03", "Bitstream generation encodes each value exactly over every period",
  "The bit generated at cycle index t is 1 exactly when the binary value exceeds the random number at position t modulo the sequence length, so any 2^width consecutive cycles of a sequence that is a permutation contain exactly as many ones as the binary value, whatever the starting cycle. Each tensor element follows its own cycle index, indices past the period wrap around, and the bits have the requested data type.",
  ["inputs", "histories", "configurations"], "Every binary value 0..2^width, every start cycle, several periods, all random number kinds, widths 1-8, scalar and per-element cycle indices, data types and broadcast shapes.",
  NOASSERT + "They generate one period from index 0 for random values.",
  ["stream/gen.py"], [("BSGen", "stream/gen.py")], observe=["BSGen()(cycle)"])

p("C04", "Raw data scaling is symmetric, bounded and quantile-exact",
  "Scaling raw data returns every element clamped to the central quantile range [0.5-q/2, 0.5+q/2] of the whole tensor and divided by the larger magnitude of the two quantile bounds, when that magnitude is not zero. The output therefore keeps the shape and order, lies within [-1,1], maps the dominant bound to magnitude 1, and a quantile of 1 is division by the largest magnitude.",
  ["inputs", "configurations"], "All tensors over a small value alphabet up to length 5 and graded larger tensors, all quantiles on a grid in (0,1], several shapes.",
  NOASSERT + "They scale one random tensor.",
  ["stream/gen.py"], [("RawScale", "stream/gen.py")], observe=["RawScale()(raw)"])

p("C05", "Skewed synchroniser pairs ones without losing or inventing any",
  "For every input history the second stream passes through unchanged, and on cycles where the two inputs differ a lone one of the first stream is withheld unless 2^depth-1 ones are already withheld (then it passes), while a lone one of the second stream releases a withheld one if there is any. Hence ones out plus ones withheld always equals ones in on the first stream, and the withheld count never leaves 0..2^depth-1.",
  ["histories", "configurations"], "All pairs of input bit histories up to the explored length from every reachable synchroniser state, depths 1-5, data types and shapes.",
  NOASSERT + "They run one random pair of streams and print the correlation.",
  ["stream/shuffle.py"], [("SkewedSync.forward", "stream/shuffle.py")], [("cnt", "withheld ones", "stream/shuffle.py")], ["SkewedSync()(a,b)"])

p("C06", "Bipolar-to-unipolar conversion is an exact saturating accumulation",
  "For every input history the converter adds +1 for a one and -1 for a zero to an accumulator saturating at plus/minus 2^(depth-2), outputs a one exactly when the accumulator is then at least 1, and takes that one out of the accumulator. Away from saturation the running count of output ones therefore equals the maximum so far of the input's bipolar sum (never negative).",
  ["histories", "configurations"], "All bit histories up to the explored length from every reachable accumulator state, depths 2-8, data types and shapes.",
  NOASSERT + "They run one random stream.",
  ["stream/shuffle.py"], [("Bi2Uni.forward", "stream/shuffle.py")], [("accumulator", "residual", "stream/shuffle.py")], ["Bi2Uni()(x)"])

p("C07", "Unipolar-to-bipolar conversion is an exact half-scaled addition",
  "For every input history the converter adds input+1 to an accumulator saturating at plus/minus 2^(depth-2), outputs a one exactly when the accumulator is then at least 2, and takes 2 out. With enough depth, after t cycles with k input ones exactly floor((t+k)/2) ones have been output, the residue being carried to later cycles.",
  ["histories", "configurations"], "All bit histories up to the explored length from every reachable accumulator state, depths 3-8 (and the saturating depth 2), data types and shapes.",
  NOASSERT + "They run one random stream.",
  ["stream/shuffle.py"], [("Uni2Bi.forward", "stream/shuffle.py")], [("accumulator", "residual", "stream/shuffle.py")], ["Uni2Bi()(x)"])

p("C08", "Unary adder conserves value for every scale, mode and history",
  "For every input history the adder accumulates, per output element, the sum of the bits along the reduced dimension minus an offset (zero in unipolar, (entry-scale)/2 in bipolar mode), saturating at plus/minus 2^(depth-2); it outputs a one exactly when the accumulator reaches the scale and takes the scale out. So while unsaturated scale*ones_out plus the residue equals the offset-corrected ones_in after every cycle. The scale defaults to the entry count, which defaults to the size of the reduced dimension, and values given with the first cycle override the configured ones for the instance's whole life.",
  ["histories", "configurations", "inputs"], "All input histories up to the explored length from every reachable accumulator state for 1-4 entries, both modes, integer and fractional scales, saturating and deep accumulators, every reduced dimension, runtime and configured scale/entry, data types.",
  NOASSERT + "The adder's own test is too slow to be run at all here.",
  ["kernel/add.py"], [("FSUAdd.forward", "kernel/add.py")], [("accumulator", "residual", "kernel/add.py")], ["FSUAdd()(x)"])

p("C09", "Static-operand multiplier follows conditional bitstream generation",
  "With a static binary operand, for every history of the input bit the multiplier outputs, on an input one, the next bit of the operand's bitstream, and on an input zero a 0 (unipolar) or the inverse of the next bit of a second, independent copy of that bitstream (bipolar); each copy advances only when it is used, and wraps around after 2^width uses. Thus any 2^width consecutive input ones yield exactly as many ones as the quantised operand.",
  ["histories", "inputs", "configurations"], "All input histories up to the explored length, periodic histories over several periods, every operand value, widths 1-8, all random number kinds and dimensions, modes, data types and shapes.",
  NOASSERT + "They multiply one random tensor over one period.",
  ["kernel/mul.py", "stream/gen.py"], [("FSUMul.FSUMul_forward", "kernel/mul.py")], [("rng_idx", "use counters", "kernel/mul.py")], ["FSUMul(static)(x)"])

p("C10", "In-stream multiplier regenerates its second operand from history",
  "With both operands streamed, for every pair of histories the multiplier compares the number of ones among the last 2^width bits of the second operand (before the current one, starting from an alternating pattern) with a random number that advances only on used cycles, and outputs 1 on a first-operand one when the count exceeds it; in bipolar mode a first-operand zero outputs the inverse comparison with its own separately advancing random number. The window really forgets bits older than 2^width cycles and the random numbers wrap after 2^width uses.",
  ["histories", "configurations"], "All pairs of histories up to the explored length plus periodic pairs over several windows, widths 1-6, random number kinds and dimensions, modes, data types and shapes.",
  NOASSERT + "They multiply one random pair.",
  ["kernel/mul.py", "kernel/shiftreg.py"], [("FSUMul.FSUMul_forward", "kernel/mul.py"), ("ShiftReg", "kernel/shiftreg.py")], observe=["FSUMul(in-stream)(a,b)"])

p("C11", "Shift register delays, counts and holds exactly",
  "For every history of input bits, enable masks and read positions, the shift register returns the bit at the requested position and the number of ones held, both as they were before the current shift. Unmasked, the bit at position i is the input from entry-i cycles ago; the content starts as the alternating pattern 0,1,0,1,...; a per-element mask of 0 keeps that element's content unchanged for the cycle.",
  ["histories", "configurations"], "All histories of (bit, mask) up to the explored length, every read position, 1-8 entries, data types and shapes.",
  NOASSERT + "They shift one random stream.",
  ["kernel/shiftreg.py"], [("ShiftReg.ShiftReg_forward", "kernel/shiftreg.py")], [("sr", "held bits", "kernel/shiftreg.py")], ["ShiftReg()(x)"])

p("C12", "JK flip-flop obeys its truth table for every history",
  "For every history of J and K bits the flip-flop's output after a cycle is: unchanged for 00, 0 for J=0,K=1, 1 for J=1,K=0, and toggled for 11, starting from 0, independently per element. Output bits have the requested data type and bits already returned never change later.",
  ["histories", "configurations"], "All J/K histories up to the explored length, all data types and several shapes.",
  NOASSERT + "They run one random history and only look at the mean.",
  ["kernel/jkff.py"], [("JKFF.forward", "kernel/jkff.py")], [("jkff", "state", "kernel/jkff.py")], ["JKFF()(J,K)"])

p("C13", "Sign and magnitude extraction track the running sign exactly",
  "For every input history the sign output is 1 exactly when a counter, starting at 2^(depth-1), counting +1 for ones and -1 for zeros including the current bit and saturating at 0 and 2^depth-1, is below 2^(depth-1). The magnitude output is the input bit, inverted whenever the sign is 1, in the requested data type.",
  ["histories", "configurations"], "All bit histories up to the explored length from every reachable counter state, depths 1-8, data types and shapes.",
  NOASSERT + "They run one random stream.",
  ["kernel/signabs.py"], [("FSUSignAbs.forward", "kernel/signabs.py")], [("acc", "running sign counter", "kernel/signabs.py")], ["FSUSignAbs()(x)"])

p("C14", "Unary ReLU tracks its output and never lets it run negative",
  "For every input history the ReLU passes a one, and passes a zero only while the counter of its own previous outputs (+1 per one, -1 per zero, starting at 2^(depth-1), saturating at 0 and 2^depth-1) is at least 2^(depth-1), otherwise it outputs a one instead. Output bits have the stream data type whatever the buffer data type, and the output's running bipolar sum never falls more than one below zero before saturation.",
  ["histories", "configurations"], "All bit histories up to the explored length from every reachable counter state, depths 1-8, all combinations of stream and buffer data types, shapes.",
  NOASSERT + "They use equal data types and one random stream.",
  ["kernel/relu.py"], [("FSUReLU.forward", "kernel/relu.py")], [("acc", "output tracker", "kernel/relu.py")], ["FSUReLU()(x)"])

p("C15", "Unary division follows correlated division for every history",
  "The correlated division core outputs the dividend bit whenever the divisor bit is 1, and otherwise replays the stored quotient bit selected by a random number that advances every cycle; it stores the quotient bit only on divisor ones, in a register that starts as 0,1,0,1,.... The unipolar divider is skewed synchronisation followed by that core, and the bipolar divider takes signs and magnitudes of both operands, converts them to unipolar, divides, converts back to bipolar and flips the result exactly when the two signs differ.",
  ["histories", "configurations"], "All pairs of histories up to the explored length plus long periodic pairs, 1-8 stored bits, depths, random number kinds and dimensions, both modes, data types and shapes.",
  NOASSERT + "They divide one random pair of streams.",
  ["kernel/div.py", "stream/shuffle.py", "kernel/signabs.py", "kernel/shiftreg.py"], [("CORDIV_kernel.forward", "kernel/div.py"), ("FSUDiv.bipolar_forward", "kernel/div.py"), ("FSUDiv.unipolar_forward", "kernel/div.py")], observe=["CORDIV_kernel()(a,b)", "FSUDiv()(a,b)"])

p("C16", "Unary square root obeys its feedback equations for every history",
  "In inserting mode every output bit is the unscaled unipolar saturating sum of the input bit and a feedback bit, the feedback being the current output (converted to unipolar in bipolar mode) gated by the inverted output of a fixed number of cycles earlier. In tracing mode every output bit is the input bit or the trace bit, the trace being produced from the previous output (converted to unipolar in bipolar mode) by a toggling flip-flop or by correlated division of alternate bits. All four variants in both modes start from the same zero state and depend on nothing but the input history.",
  ["histories", "configurations"], "All bit histories up to the explored length plus long periodic ones, every variant, both modes, 1-8 register entries, data types and shapes.",
  NOASSERT + "They run one random stream per variant.",
  ["kernel/sqrt.py", "kernel/add.py", "kernel/jkff.py", "kernel/div.py"], [("FSUSqrt.forward", "kernel/sqrt.py"), ("FSUSqrt.bipolar_emit", "kernel/sqrt.py"), ("FSUSqrt.unipolar_trace", "kernel/sqrt.py")], observe=["FSUSqrt()(x)"])

p("C17", "Unary fully connected layer computes every product and accumulates",
  "For external weights and biases, each output bit of the unary fully connected layer is the scaled-addition output of the number of ones among its products and its bias bit; with rate-coded weights each product is that of a static-operand multiplier with its own advancing per batch item and weight, and with temporally coded weights each weight bit advances every cycle and is multiplied by AND (unipolar) or XNOR (bipolar). The bias bit of each output advances every cycle, and scale and entry default to the number of inputs plus bias, with values given at the first cycle overriding.",
  ["histories", "configurations", "inputs"], "All input histories up to the explored length in parallel batch items plus long periodic ones, 1-3 inputs, 1-4 outputs, with and without bias, both modes, all deterministic random number kinds, widths 1-6, scales, saturating depths.",
  NOASSERT + "They run one random layer and print the error.",
  ["kernel/linear.py", "kernel/add.py", "stream/gen.py"], [("FSULinear", "kernel/linear.py"), ("FSULinearPC.FSULinear_PC_wrc", "kernel/linear.py"), ("FSULinearPC.FSULinear_PC_wtc", "kernel/linear.py")], [("wrdx_i1", "per-weight stream positions", "kernel/linear.py")], ["FSULinear()(x)"])

p("C18", "Unary convolution equals the unary dense layer on every window",
  "For external weights and biases, each output bit of the unary convolution equals the one a unary fully connected layer with the flattened kernel gives for that window's bits, every output position of every batch item advancing independently, for all kernel sizes, strides, paddings and dilations. Padding contributes 0 bits in unipolar mode and, in bipolar mode, bits alternating 0,1,0,1 from the first cycle, so padded positions carry the value zero.",
  ["histories", "configurations", "inputs"], "All image histories up to the explored length in parallel batch items plus long periodic ones, square and non-square kernels, strides, paddings, dilations, channels, with and without bias, both modes, rate and temporal weights.",
  NOASSERT + "The convolution's own test is too slow to be run at all here.",
  ["kernel/conv.py", "kernel/add.py"], [("FSUConv2d", "kernel/conv.py"), ("FSUConv2dPC.FSUConv2d_PC_wrc", "kernel/conv.py"), ("FSUConv2dPC.FSUConv2d_PC_wtc", "kernel/conv.py")], [("even_cycle_flag", "padding phase", "kernel/conv.py")], ["FSUConv2d()(x)"])

p("C19", "Unary recurrent cell composes its gates exactly, cycle by cycle",
  "Every output bit of the unary minimal gated unit equals the composition: forget gate = half-scaled addition of 1 to the unscaled unary dense layer of (hidden, input); gated hidden = static multiplication of the forget bit with the buffered hidden value; new gate = unscaled unary dense layer of (gated hidden, input); output = unscaled addition of new gate, inverted in-stream product of forget and new gate, and gated hidden. The binary-in, binary-out wrapper encodes input and hidden values as bipolar streams, runs 2^width cycles and returns the bipolar value of the output stream, a missing hidden value being zero.",
  ["histories", "inputs", "configurations"], "All input/hidden bit histories up to the explored length and all value combinations on a small grid for the wrapper, 1-2 inputs and hidden units, with and without bias, widths 2-5.",
  NOASSERT + "The test of this cell runs one random cell and prints the error.",
  ["kernel/rnn.py"], [("FSUMGUCell.forward", "kernel/rnn.py"), ("HUBMGUCell.forward", "kernel/rnn.py")], observe=["FSUMGUCell()(x,h)", "HUBMGUCell()(x,h)"])

p("C20", "Hybrid unary-binary layers multiply by their bitstream product table",
  "Hybrid dense and convolution layers normalise inputs and weights by powers of two derived from their quantile magnitudes, quantise each magnitude to a rounded integer limited to one less than the run cycle count, replace each product of magnitudes by the number of ones the two unary generators produce together, restore signs and scale, and add the unquantised bias. The run cycle count is the configured one or, if larger or absent, the full period. For rate-coded operands each table entry is the exact product up to the low-discrepancy error and is monotone in both operands.",
  ["inputs", "configurations"], "Every pair of magnitudes and signs representable at widths 3-6 (8 in thorough), generator kinds (rate/rate, temporal/rate, rate/temporal), early termination cycles, rounding modes, quantiles, batches, window geometries, with and without bias.",
  "The tests of these layers fail in this environment before reaching the layer and assert nothing.",
  ["kernel/linear.py", "kernel/conv.py", "kernel/utils.py"], [("HUBLinear", "kernel/linear.py"), ("HUBLinearFunction.forward", "kernel/linear.py"), ("HUBConv2d.forward", "kernel/conv.py"), ("rshift_offset", "kernel/utils.py")], observe=["HUBLinear()(x)", "HUBConv2d()(x)"])

p("C21", "Fixed-point layers equal exact products of correctly rounded operands",
  "Fixed-point dense and convolution layers return exactly the product of inputs and weights each rounded, ties to even, to a multiple of a power-of-two step (the rounded, floored or ceiled power of two of the operand's quantile magnitude, divided by 2^(width-1)) and limited to magnitude (2^width-1) steps, plus the unquantised bias. All-zero operands yield just the bias.",
  ["inputs", "configurations"], "All operand values on fine grids, widths 2-10 chosen independently, rounding modes, quantiles, batches, window geometries, with and without bias, zero tensors.",
  "The tests of these layers fail in this environment before reaching the layer and assert nothing.",
  ["kernel/linear.py", "kernel/conv.py", "kernel/utils.py"], [("FXPLinear", "kernel/linear.py"), ("FXPLinearFunction.forward", "kernel/linear.py"), ("FXPConv2d.forward", "kernel/conv.py"), ("rshift_offset", "kernel/utils.py")], observe=["FXPLinear()(x)", "FXPConv2d()(x)"])

p("C22", "Temporal look-up layers are exact unless cycles are cut, digit by digit",
  "Temporal look-up dense and convolution layers split the chosen operand's truncated magnitude (fixed-point integer, or floating-point mantissa) into base-2^t digits, limit each digit to one less than the run cycle count, and multiply exactly with the other operand, adding the unquantised bias; without early termination no digit is changed. A fixed-point operand is truncated toward zero to its width after power-of-two normalisation by its quantile magnitude (that of the unfolded windows for convolution), a floating-point operand has the data type of its format, and in mixed formats the fixed-point operand is the one that is split.",
  ["inputs", "configurations"], "All mantissa/integer values of the widths explored, signs, digit widths 1-8, cycle limits, temporal operand input or weight, fixed/fixed, fixed/float and float/float formats, rounding modes, geometries, with and without bias.",
  "The tests of these layers fail in this environment before reaching the layer and assert nothing.",
  ["kernel/linear.py", "kernel/conv.py", "kernel/utils.py"], [("TLUTLinear", "kernel/linear.py"), ("TLUTLinearFXPFXPFunction.forward", "kernel/linear.py"), ("TLUTLinearFXPFPFunction.forward", "kernel/linear.py"), ("TLUTLinearFPFPFunction.forward", "kernel/linear.py"), ("TLUTConv2d.forward", "kernel/conv.py")], observe=["TLUTLinear()(x)", "TLUTConv2d()(x)"])

p("C23", "Quantised layers and rounding back-propagate straight-through gradients",
  "The gradients of the hybrid, fixed-point and temporal look-up layers with respect to input, weight and bias equal those of the ordinary dense or convolution layer with the same unquantised values, for every upstream gradient; the gradient of the rounding quantiser is the identity. Gradients are produced only for the operands that need them and a missing bias changes nothing.",
  ["inputs", "configurations"], "All layers and formats, every unit upstream gradient (a basis, hence all by linearity) and combinations, all subsets of operands that require gradients, batches and geometries, with and without bias.",
  "No test calls backward on these layers.",
  ["kernel/linear.py", "kernel/conv.py", "kernel/utils.py"], [("HUBLinearFunction.backward", "kernel/linear.py"), ("FXPLinearFunction.backward", "kernel/linear.py"), ("TLUTLinear*Function.backward", "kernel/linear.py"), ("RoundSTE.backward", "kernel/utils.py")], observe=["Tensor.grad"])

p("C24", "Signed fixed-point rounding is exact, saturating and idempotent",
  "Rounding to a signed fixed-point format with i integer and f fraction bits returns round(x*2^f), ties to even, limited to plus/minus (2^(i+f)-1), divided by 2^f, in the shape and data type of the input; a missing input stays missing. It is therefore idempotent, odd, monotone, and off by at most half a step inside the range.",
  ["inputs", "configurations"], "Every value on a grid four times finer than the step over twice the range (all ties and both saturations), i 0-6, f 0-8, data types and shapes.",
  "The existing test fails in this environment before reaching the quantiser.",
  ["kernel/utils.py"], [("Round", "kernel/utils.py"), ("RoundSTE.forward", "kernel/utils.py")], observe=["Round()(x)"])

p("C25", "Binary-domain recurrent cells compute the bounded gate equations",
  "The floating-point minimal gated unit returns hardtanh(n - f*n + f*h) with f = sigmoid(hardtanh(W_f[h,x]+b_f)) and n = tanh(W_n[f*h,x]+b_n), using the hard (piecewise-linear) or smooth activations as selected, a missing hidden value being zero; the fixed-point variant is the same with every operand and intermediate rounded to the signed fixed-point format. Outputs stay within [-1,1], and fresh weights lie within two standard deviations of 1/sqrt(hidden size).",
  ["inputs", "configurations"], "All input and hidden values on a small grid, weight patterns reaching every activation segment, sizes 1-3, with and without bias, hard and smooth, several fixed-point formats.",
  "No test asserts on these cells.",
  ["kernel/rnn.py", "kernel/utils.py"], [("HardMGUCell.forward", "kernel/rnn.py"), ("HardMGUCellFXP.forward", "kernel/rnn.py"), ("truncated_normal", "kernel/utils.py")], observe=["HardMGUCell()(x,h)", "HardMGUCellFXP()(x,h)"])

p("C26", "Hard activations match their piecewise-linear and streaming definitions",
  "The binary-domain activations are exactly clip(x,0,scale), clip(x,-1,1) and clip((scale*x+3)/6,0,1); with the default scale of 3 the last is (x+1)/2 clipped. The streaming hard tanh passes every bit unchanged, and the streaming hard sigmoid outputs, for every input history in either mode, exactly the ones of a half-scaled addition of the stream and constant one: floor((t+k)/2) ones after t cycles with k input ones.",
  ["inputs", "histories", "configurations"], "Every value on a fine grid over and beyond the linear range, scales, all bit histories up to the explored length, both modes, data types and shapes.",
  "No test covers these activations.",
  ["kernel/relu.py", "kernel/sigmoid.py", "kernel/tanh.py"], [("HUBReLU", "kernel/relu.py"), ("HUBHardsigmoid.forward", "kernel/sigmoid.py"), ("FSUHardsigmoid.forward", "kernel/sigmoid.py"), ("HUBHardtanh", "kernel/tanh.py")], observe=["activation(x)"])

p("C27", "Weight clipper leaves only legal quantised weights and biases",
  "After each call of the weight clipper, every weight and every bias of the module is a multiple of the quantisation step (2^-bitwidth in unipolar, 2^(1-bitwidth) in bipolar mode) within [0,1] or [-1,1]: a call made when its call counter is at most 1 min-max normalises each tensor to the full range (a constant tensor, having no range, is clipped), every later call clips it, and rounding is to nearest. Modules lacking a bias or weight are handled, and clipping calls are idempotent.",
  ["inputs", "histories", "configurations"], "All small weight tensors over a value alphabet, call sequences up to length 4 from several initial counters, both modes, bit widths 1-10, modules with and without bias.",
  "No test covers the clipper.",
  ["kernel/utils.py"], [("NN_SC_Weight_Clipper.__call__", "kernel/utils.py"), ("NN_SC_Weight_Clipper.clipping", "kernel/utils.py")], [("frequency", "call counter", "kernel/utils.py")], ["module.weight", "module.bias"])

p("C28", "Convolution shape and padding helpers agree with real convolutions",
  "The output-shape helpers for convolution and transposed convolution give exactly the spatial size the framework's own layers produce, for scalar and per-axis (and asymmetric) arguments. The padding helpers return, per axis, a low and a high padding, the high one being larger by one when they differ, whose total makes the corresponding shape helper yield the requested output size.",
  ["inputs", "configurations"], "All combinations of input size, kernel, stride, padding, dilation and output padding within small bounds, scalar and tuple forms.",
  "No test covers these helpers.",
  ["kernel/utils.py"], [("conv2d_output_shape", "kernel/utils.py"), ("convtransp2d_output_shape", "kernel/utils.py"), ("conv2d_get_padding", "kernel/utils.py"), ("convtransp2d_get_padding", "kernel/utils.py")], observe=["return values"])

p("C29", "Progressive error is the exact error of the stream value so far",
  "After any history of monitored bits, the reported progressive precision is the fraction of ones seen so far (mapped to 2p-1 in bipolar mode) per element, and the reported error is that value minus the source divided by the scale and limited to [-1,1]. Reading the report any number of times, at any point, never changes later reports.",
  ["histories", "inputs", "configurations"], "All bit histories up to the explored length, with reads after every subset of cycles, sources on a grid beyond the range, scales, modes, data types and shapes.",
  NOASSERT + "They print the error once at the end.",
  ["metric/metric.py"], [("ProgError.Monitor", "metric/metric.py"), ("ProgError.forward", "metric/metric.py")], [("one_cnt", "ones so far", "metric/metric.py")], ["ProgError()()"])

p("C30", "Stability reports the share of cycles after the last large error",
  "After any history of monitored bits, the reported stability of each element is one minus c/t, where t is the number of cycles monitored and c is the last cycle at which the magnitude of the progressive error exceeded the threshold, at least 1. Reading the report never changes later reports and elements do not influence each other.",
  ["histories", "inputs", "configurations"], "All bit histories up to the explored length, sources, thresholds, scales, modes, shapes, reads after every cycle.",
  NOASSERT + "They print one stability value.",
  ["metric/metric.py"], [("Stability.Monitor", "metric/metric.py"), ("Stability.forward", "metric/metric.py")], [("cycle_to_stable", "last unstable cycle", "metric/metric.py")], ["Stability()()"])

p("C31", "Correlation equals the stochastic cross correlation of the streams",
  "After any pair of bit histories of any shape, the reported correlation of each element is the stochastic cross correlation: with a,b,c,d the counts of the joint outcomes 11,10,01,00 over n cycles, (ad-bc)/(n*min(a+b,a+c)-(a+b)(a+c)) if ad>bc and (ad-bc)/((a+b)(a+c)-n*max(a-d,0)) otherwise, a vanishing denominator counting as 1; with a single stream it is taken against the stream delayed by one cycle (first delayed bit 0). It is +1 for identical and -1 for complementary non-constant streams, symmetric in the two streams, and 0 for constant ones.",
  ["histories", "configurations"], "All pairs of bit histories up to the explored length, single-stream mode, data types and shapes, reads after every cycle.",
  NOASSERT + "They print the correlation of single-element streams.",
  ["metric/metric.py"], [("Correlation.Monitor", "metric/metric.py"), ("Correlation.forward", "metric/metric.py")], [("paired_*", "joint counts", "metric/metric.py")], ["Correlation()()"])

p("C32", "Instances are isolated: no interleaving of calls changes any output",
  "However calls to several instances are interleaved, and whatever instances were created before, each instance produces the outputs it produces when run alone; constructing with identical arguments gives identical behaviour. No call of a stream or kernel component modifies its inputs, the constructor arguments (including the default configurations), or a result returned earlier, and overwriting an input tensor after a call changes no later output (components that draw from the global random state, in-place activations, the weight clipper and the metrics' live reports aside).",
  ["schedules", "histories", "configurations"], "All interleavings of two instances' call sequences for every streaming component and metric, equal and different configurations and shapes, with snapshots of all arguments and returned values.",
  NOASSERT + "They run one instance at a time.",
  ["stream/gen.py", "stream/shuffle.py", "kernel/add.py", "kernel/mul.py", "kernel/div.py", "kernel/sqrt.py", "kernel/shiftreg.py", "kernel/jkff.py", "kernel/signabs.py", "kernel/relu.py", "kernel/sigmoid.py", "kernel/linear.py", "kernel/conv.py", "metric/metric.py"],
  [("per-instance state allocated in __init__ / first forward", "kernel/*.py, stream/*.py, metric/metric.py")], observe=["all component outputs"])

p("C33", "Tensor elements are independent lanes for every component and shape",
  "Feeding a tensor of streams of any shape of one or more dimensions (or any batch size for unary layers and cells) gives, element by element and cycle by cycle, exactly the outputs obtained by feeding each element (or batch item) alone to a fresh component. The output shape is that of the input (with the reduced dimension removed for addition, and the layer's output shape for layers).",
  ["inputs", "histories", "configurations"], "For every streaming component, lanes carrying all histories up to the explored length laid out in several shapes and orders, compared with single-lane runs.",
  NOASSERT + "They use one shape.",
  ["stream/shuffle.py", "kernel/add.py", "kernel/mul.py", "kernel/div.py", "kernel/sqrt.py", "kernel/shiftreg.py", "kernel/jkff.py", "kernel/signabs.py", "kernel/relu.py", "kernel/sigmoid.py", "kernel/linear.py", "kernel/conv.py", "metric/metric.py"],
  [("lazy broadcast of per-element state on the first call", "kernel/*.py, stream/*.py")], observe=["all component outputs"])

p("C34", "Data types never change the bits, only their representation",
  "For every component that accepts stream and buffer data types, any allowed combination of integer and floating-point types yields the same bits for the same history, and the output has the stream data type. Likewise the random number data type never changes quantised values or generated bits as long as it can hold them.",
  ["configurations", "histories"], "All pairs of stream and buffer data types from {int8, int32, int64, float16, float32, float64} for every component, all histories up to the explored length and long periodic histories.",
  NOASSERT + "They use the default types.",
  ["stream/gen.py", "stream/shuffle.py", "kernel/add.py", "kernel/mul.py", "kernel/div.py", "kernel/sqrt.py", "kernel/shiftreg.py", "kernel/jkff.py", "kernel/signabs.py", "kernel/relu.py", "kernel/sigmoid.py"],
  [("swcfg stype/btype/rtype conversions", "kernel/*.py, stream/*.py")], observe=["all component outputs"])

p("C35", "End to end, unary arithmetic converges to the true arithmetic result",
  "When operands are encoded as recommended (independent low-discrepancy generators), for every operand value of widths 3-8 the output decoded over one full period is within a fixed bound of the arithmetic result, in output steps (2^-width unipolar, twice that bipolar): 1/2 for plain generation, 1 for scaled addition, hard sigmoid and ReLU, 4 for unscaled addition (clipped to the range), width/2+1 for static multiplication, 15 for in-stream multiplication, and width/2+2 for the scaled dense layer. Division (divisor at least 1/4 unipolar or 1/2 bipolar, and at least the dividend) is within 0.4, 0.27, 0.17, 0.16, 0.13, 0.12 for widths 3 to 8 in unipolar and 0.8 then 0.6 in bipolar mode; square root within 0.27 unipolar and 0.28 (inserting) or 0.55 (tracing) bipolar. Running for further whole periods never exceeds the same bounds for generation, addition, static multiplication, ReLU, hard sigmoid and the dense layer.",
  ["inputs", "configurations"], "Every operand value (pair) on the grid of widths 3-8 (thinned at 7 and 8 in quick), both modes.",
  NOASSERT + "They print the error of random operands.",
  ["stream/gen.py", "kernel/add.py", "kernel/mul.py", "kernel/div.py", "kernel/sqrt.py", "kernel/linear.py", "kernel/relu.py", "metric/metric.py"],
  [("generator/kernel dimension pairing", "kernel/mul.py"), ("FSUAdd", "kernel/add.py"), ("CORDIV_kernel", "kernel/div.py"), ("FSUSqrt", "kernel/sqrt.py")], observe=["decoded outputs through the progressive error metric"])

p("C36", "Saved or copied components resume exactly where they stopped",
  "A component, layer or metric that is deep-copied, pickled or saved with torch.save at any point of its life, before the first call or after any call, and then used in its place, in the same or another process, gives exactly the results the original would have given for the same further inputs: all of its history, its random sequences and its drawn weights travel with it. Afterwards original and copy are independent: no call on one changes any later result of the other.",
  ["histories", "schedules"], "Every component and metric, every snapshot point within the first calls, three ways of taking a snapshot, all interleavings of further calls on original and copy with diverging inputs, chains of snapshots after every call, and restoring in another process.",
  NOASSERT + "No test copies or saves a component.",
  ["stream/gen.py", "stream/shuffle.py", "kernel/add.py", "kernel/conv.py", "kernel/div.py", "kernel/linear.py", "kernel/mul.py", "kernel/rnn.py", "kernel/shiftreg.py", "kernel/sqrt.py", "metric/metric.py"],
  [("module state held in parameters and attributes", "kernel/*.py"), ("BSGen.source", "stream/gen.py")], [("all module state", "what a snapshot has to carry", "kernel/*.py")], ["forward results after copy.deepcopy, pickle, torch.save"])

p("C37", "Memory layout and execution mode never change any result",
  "The results of every component, layer and metric depend on the values of its inputs, weights and source data only: contiguous, strided, axis-permuted (such as channels-last) and offset tensors holding the same values give the same results, for inputs and constructor arguments alike, and so do weights given as parameters. Calling under no_grad or inference mode, in evaluation or training mode, or with inputs and weights that record gradients (not for stream inputs of the dense, convolution and recurrent streaming layers) changes nothing, in whatever order calls of different modes follow each other.",
  ["histories", "configurations", "inputs"], "Every component, layer and metric, all words of three calls over seven layouts and modes, and every layout of the constructor tensors.",
  NOASSERT + "They use contiguous tensors and one mode.",
  ["stream/gen.py", "stream/shuffle.py", "kernel/add.py", "kernel/conv.py", "kernel/linear.py", "kernel/mul.py", "kernel/rnn.py", "kernel/shiftreg.py", "metric/metric.py"],
  [("unfold/reshape in the convolution layers", "kernel/conv.py"), ("in-place state updates", "kernel/*.py")], observe=["forward results"])

p("C38", "Error and outlier reports print the exact statistics",
  "The progressive error report prints, under the given name, the range, sample deviation, mean and root-mean-square of the error of the stream value so far; on request, in addition, the range, deviation and mean of the scaled source (binary value) and of the stream value (unary value) and the same statistics of the error relative to the stream value, undefined quotients counting as zero. The outlier report prints smallest and largest element and the exact percentage of elements strictly outside [-1,1]. Any tensor shape is accepted, and reporting leaves metric and tensor unchanged.",
  ["inputs", "histories", "configurations"], "All small sources and stream histories, both modes, scales, shapes and report switches; all small tensors around the bounds.",
  NOASSERT + "They print one report for a person to look at, and never the optional parts.",
  ["kernel/utils.py", "metric/metric.py"], [("progerror_report", "kernel/utils.py"), ("tensor_unary_outlier", "kernel/utils.py")], observe=["printed report"])

p("C39", "Hardware sources compute the simulated components, cycle by cycle",
  "Each circuit description under hw/ elaborates, leaves no state undefined after reset, and produces for every input history the bits of its simulated counterpart, one cycle later where the output passes a register: the skewed synchroniser, sign and magnitude extraction, the JK flip-flop, the bipolar/unipolar converters (within the range of their counter), and the square root circuits and correlated dividers as compositions of these components, the correlated core selecting among its most recent quotients by the random number while the divisor bit is 0. The counter-based dividers and square roots follow their saturating counters, and the integer synchroniser passes on exactly the sum it collected. Reset restores the initial behaviour at any point.",
  ["inputs", "histories", "configurations"], "All input histories of 12-16 bits and all periodic ones over 40 cycles, depths 1-5, several random number sequences, reset after a prefix.",
  "The test suite does not touch hw/ at all, and no simulator is part of the build; the equivalence must hold for every history.",
  ["hw/stream/shuffle/SkewedSync.sv", "hw/stream/shuffle/Bi2Uni.sv", "hw/stream/shuffle/Uni2Bi.sv", "hw/kernel/abs/Abs.sv", "hw/kernel/sign/Sign.sv", "hw/kernel/jkff/JKFF.sv", "hw/kernel/div/CORDIV_kernel.sv", "hw/kernel/div/ISCBDIV_B.sv", "hw/kernel/sqrt/BISQRT_S_JK_B.sv", "hw/kernel/sqrt/BISQRT_O_U.sv"],
  [("circuits", "hw/kernel, hw/stream"), ("simulated components", "stream/shuffle.py, kernel/*.py")], observe=["output ports before each clock edge"])

p("C40", "Trainable layers follow their current parameters under every training history",
  "For the hybrid, fixed-point and temporal look-up layers (linear and convolution) and the hard minimal gated cells, after any history of calls with and without gradients, backward passes (also several calls followed by their backward passes in another order), gradient clearing, optimiser steps, state loading, in-place changes and replacement of parameters, weight clipping, deep copying, switching between training and evaluation and calls that fail, the next call gives exactly what a fresh layer with the current parameters gives, the parameters are what these operations make them, and gradients accumulate exactly the contributions of the backward passes. A layer built without given parameters behaves like one that is given them.",
  ["histories", "configurations", "inputs"], "All words of 3 operations (4 for several layers in thorough) and longer cyclic words over 14 operations, 18 layer configurations.",
  "Layers quantise, precompute and save context for their gradients; a stale or shared value shows only after a particular order of training operations, and tests run one forward (and at most one backward) pass on a fresh layer.",
  ["kernel/linear.py:HUBLinear", "kernel/linear.py:FXPLinear", "kernel/linear.py:TLUTLinear", "kernel/conv.py:HUBConv2d", "kernel/conv.py:FXPConv2d", "kernel/conv.py:TLUTConv2d", "kernel/rnn.py:HardMGUCell", "kernel/rnn.py:HardMGUCellFXP", "kernel/utils.py:NN_SC_Weight_Clipper"],
  [("parameters and gradients", "layer.parameters()"), ("values saved for the gradient", "autograd functions in kernel/linear.py")], observe=["outputs after each operation", "parameter values and gradients"])

p("C41", "Illegal configurations are refused without a trace, legal ones accepted",
  "Every class that documents restrictions refuses exactly the configurations that break them (by raising when constructed) and accepts all others, names in any letter case: modes are unipolar or bipolar (bipolar only for the streaming recurrent cell), random number kinds, rounding names, data formats and temporal operands are the documented ones, quantiles lie in (0, 1], random number sequences and the registers of the square root have a power-of-two length, static multiplication needs its operand, temporal coding is not combined with another temporal operand, with the recurrent cell or with a scaled bipolar layer, sign-magnitude is on, streaming layers take 32-bit float types, weights and biases have the layer's shape, convolutions have one group and zero padding. Calls with a wrong number of operand dimensions or features, with a mask or a hidden state that does not match the input, and shift-register reads past the end, raise, and leave later results exactly as if the call had not been made (at an unchanged batch size).",
  ["configurations", "inputs", "histories"], "All combinations of the listed legal and illegal values per class; refused calls inserted at every subset of positions of call words of length 4.",
  "A silently accepted illegal configuration computes wrong values without any sign, and a refused legal one takes a feature away; tests only build one legal configuration of each class.",
  ["stream/gen.py:RNG", "stream/gen.py:RawScale", "kernel/add.py:FSUAdd", "kernel/mul.py:FSUMul", "kernel/div.py:FSUDiv", "kernel/sqrt.py:FSUSqrt", "kernel/linear.py:FSULinear", "kernel/conv.py:FSUConv2d", "kernel/rnn.py:FSUMGUCell", "kernel/linear.py:HUBLinear", "kernel/linear.py:TLUTLinear", "metric/metric.py:ProgError"],
  [("configuration", "hwcfg and swcfg of every class"), ("state of a component after a refused call", "buffers and parameters of the component")], observe=["whether construction or the call raises", "outputs after a refused call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P))
