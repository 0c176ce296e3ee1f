#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

TESTS = "The tests compare the scalar with the SIMD form on random values in [0.1, 1] at a few fixed lengths (64, 512, 1024, 10000)"

p("C01", "Elementwise arithmetic computes its definition at every index",
  "For every elementwise arithmetic buffer operation (sum, difference, product, quotient, square, cube, multiply-add a*b+c, amplitude modulation s*(1+m*a), two-signal mix s0*f0+s1*f1, sums of two to four signals), in every processing form and for every legal length, output element i is the operation's definition applied to element i of its inputs. Single IEEE operations are correctly rounded for all operands including zeros, denormals, infinities and NaN; composite ones are within a few roundings of the exact value whenever no intermediate result overflows.",
  ["inputs", "configurations"], "all operations, forms (scalar, unrolled, fixed length), float and double, all lengths, all operand bit patterns",
  TESTS + ", so a mistake shared by both forms, or one that needs other operands or lengths, is invisible.",
  ["simd_binary_arithmetic.hpp", "simd_ternary_arithmetic.hpp", "simd_unary_arithmetic.hpp", "simd_mix.hpp", "detail/unroll_helpers.hpp", "detail/define_macros.hpp", "vec/*.hpp"],
  [("functors", "simd_binary_arithmetic.hpp, simd_ternary_arithmetic.hpp, simd_mix.hpp"), ("unrolled loops", "detail/unroll_helpers.hpp: compile_time_unroller, generate_simd_loop"), ("scalar loops", "detail/math.hpp: apply_on_vector")],
  ["output buffer after the call"])

p("C02", "All processing forms of an operation agree with each other",
  "An operation that is offered as a scalar loop, as a SIMD loop for a run-time length and as a SIMD version for a compile-time length delivers the same output elements in all forms for the same inputs: the same value for operations that are exact or correctly rounded (NaN and infinities included), and values within the documented approximation error for approximated functions on their domain. Only rounding of exact ties, the operand picked by minimum/maximum/clip with a NaN, and the sign of zero may differ.",
  ["inputs", "configurations"], "all operations with several forms, all lengths that are legal for the SIMD forms, float and double, all operand values",
  TESTS + " with tolerances of 1e-5 and more; lengths of one or three loop iterations, negative, huge or special values never meet the comparison.",
  ["detail/define_macros.hpp", "detail/unroll_helpers.hpp", "detail/math.hpp", "simd_*.hpp", "softclip.hpp", "vec/*.hpp"],
  [("per-form wrappers", "detail/define_macros.hpp"), ("SIMD loops", "detail/unroll_helpers.hpp")],
  ["output buffers of the forms on equal inputs"])

p("C03", "A call touches exactly the elements it was asked to process",
  "A buffer operation called for n elements writes only elements 0..n-1 of its output buffer(s), writes all of them, and reads only elements 0..n-1 of its input buffers. No other byte of memory is modified, and nothing outside of the given ranges is read, so buffers may end at an inaccessible page.",
  ["inputs", "configurations"], "all buffer operations, forms, lengths, alignments and positions of the buffers relative to inaccessible memory",
  "The tests use buffers that are larger than the processed range and look only at the processed range; a read or write behind the end goes unnoticed.",
  ["detail/unroll_helpers.hpp", "simd_memory.hpp", "simd_pan.hpp", "simd_peakmeter.hpp", "simd_horizontal_functions.hpp", "detail/math.hpp"],
  [("preloading loop stops at the last vector", "detail/unroll_helpers.hpp: mp_iteration_*"), ("loop counts", "simd_memory.hpp")],
  ["guard pages and guard bytes around every buffer"])

p("C04", "Operations work in place",
  "If the output buffer of an elementwise operation, of the copy-free memory operations or of panning is exactly one (or several) of its input buffers, the result equals the result of the same call with a separate output buffer. Passing the same buffer for several inputs behaves like passing equal copies.",
  ["inputs", "configurations"], "all elementwise operations and forms, every choice of which arguments share the output buffer, all lengths",
  "The test-suite calls almost every function with distinct input and output buffers.",
  ["detail/unroll_helpers.hpp", "detail/math.hpp", "simd_pan.hpp", "simd_memory.hpp"],
  [("an element is loaded before the element of the same index is stored", "detail/unroll_helpers.hpp: mp_iteration_*")],
  ["output buffer after the call"])

p("C05", "Buffer, constant and ramp arguments are interchangeable",
  "Wherever an operation accepts an argument as buffer, constant or linear ramp, a constant c behaves like a buffer filled with c and a ramp (base, slope) like a buffer holding base + i*slope, in every combination of argument kinds and in every form. Ramps whose values are representable are exact; otherwise they stay within the rounding accumulated by i additions in the argument's own precision.",
  ["inputs", "configurations"], "all operations with wrapped arguments, all combinations of kinds, forms, lengths, bases and slopes, float and double",
  "The tests exercise few kind combinations, single-precision ramps with tiny slopes, and compare two forms with each other at loose tolerance.",
  ["detail/wrap_arguments.hpp", "detail/wrap_argument_vector.hpp", "detail/define_macros.hpp", "vec/*.hpp"],
  [("argument wrappers", "detail/wrap_arguments.hpp"), ("vector arguments", "detail/wrap_argument_vector.hpp: vector_ramp_argument"), ("set_slope", "vec/*.hpp")],
  ["output buffer after the call"])

p("C06", "Fill operations write constants, slopes and exponential curves exactly",
  "Zeroing and setting write the given value, bit for bit, to every element at any alignment that the variant supports; the slope fill writes base + i*slope and the exponential fill base * curve^i. Slopes and curves whose values are representable are exact in all forms, others stay within the accumulated rounding of i steps.",
  ["inputs", "configurations"], "all fill variants (scalar, SIMD run-time and compile-time length, aligned and unaligned), values, slopes, curves and lengths",
  "Tests compare scalar and SIMD output for one slope and one curve.",
  ["simd_memory.hpp", "vec/*.hpp"],
  [("setvec/set_ramp recursion", "simd_memory.hpp"), ("set_slope, set_exp", "vec/*.hpp")], ["destination buffer after the call"])

p("C07", "Copies are bit-exact for every alignment variant",
  "Every copy variant transfers exactly the bit patterns of the source elements, NaN payloads and denormals included, to the destination, for every length and for every combination of alignments the variant is documented for, and leaves the source unchanged.",
  ["inputs", "configurations"], "copy variants x alignments of source and destination x lengths x bit patterns",
  "The tests copy one buffer of ordinary numbers per variant.",
  ["simd_memory.hpp", "vec/*.hpp"], [("COPYVEC_FUNCTION, detail::copyvec", "simd_memory.hpp"), ("load/store", "vec/*.hpp")], ["destination and source buffers after the call"])

p("C08", "Accumulating into a buffer adds exactly one summand per element",
  "Adding a buffer, a constant or a linear ramp to a buffer adds the i-th summand exactly once to element i with a single IEEE rounding, in the scalar, run-time and compile-time length forms; repeated accumulation therefore yields the sum of all contributions.",
  ["inputs", "configurations", "histories"], "all addvec variants, lengths, operand values, sequences of accumulations",
  "The ramp variants are not tested at all; the others only against each other on one input.",
  ["simd_memory.hpp"], [("addvec, detail::addvec", "simd_memory.hpp")], ["destination buffer after each call"])

p("C09", "Comparisons deliver 1 or 0 by IEEE ordering",
  "The elementwise comparisons (less, less-or-equal, greater, greater-or-equal, equal, not-equal) deliver exactly 1 where the relation holds and exactly 0 where it does not, by IEEE ordering: any comparison with a NaN is 0 except not-equal which is 1, the two zeros are equal, infinities and denormals are ordered. Lane masks are all ones or all zeros by the same rule.",
  ["inputs", "configurations"], "all ordered pairs of operand bit patterns, float and double, all forms and lanes",
  "The tests compare values from [0.1, 1]: no NaN, infinity, zero, denormal or negative operand, and rarely equal ones.",
  ["simd_binary_arithmetic.hpp", "vec/*.hpp"], [("relational operators and mask_*", "vec/*.hpp"), ("functors", "simd_binary_arithmetic.hpp")], ["output elements / lane bits"])

p("C10", "Minimum, maximum and clipping bound their result",
  "Minimum and maximum deliver the smaller and the larger operand; clip(x, low, high) with low <= high delivers x if it lies between the limits, otherwise the nearer limit; symmetric clip(x, limit) with limit >= 0 is clip(x, -limit, limit). The result is always one of the operands (or the negated limit), infinities and denormals included.",
  ["inputs", "configurations"], "all ordered operand values, float and double, all forms, lengths and argument kinds",
  "The tests use operands from [0.1, 1] where neither negative limits nor infinities occur.",
  ["simd_binary_arithmetic.hpp", "simd_ternary_arithmetic.hpp", "vec.hpp", "vec/*.hpp"], [("min_/max_", "vec/*.hpp, vec.hpp"), ("clip, clip2", "simd_ternary_arithmetic.hpp, simd_binary_arithmetic.hpp")], ["output elements"])

p("C11", "Rounding functions are exact over the whole number range",
  "floor, ceil and trunc deliver the exact integer below, above and towards zero, round a nearest integer (ties either way), and frac the correctly rounded difference between the argument and its floor, for every finite argument including numbers too large to have a fractional part; infinities and NaN map to themselves (frac: NaN).",
  ["inputs", "configurations"], "every float and double bit pattern, all forms, lanes and instruction sets",
  "The tests round values of magnitude at most a few units, never integers beyond the significand, and accept differences.",
  ["simd_unary_arithmetic.hpp", "detail/math.hpp", "detail/vec_math.hpp", "vec/*.hpp"], [("rounding instructions", "vec/*.hpp with SSE4.1/AVX"), ("vec_round_float, vec_floor_float, vec_ceil_float", "detail/vec_math.hpp"), ("scalar", "detail/math.hpp")], ["output elements"])

p("C12", "Absolute value, sign and denormal flushing classify every number",
  "Absolute value clears exactly the sign bit; sign delivers -1, 0 or 1 as the argument is negative, zero or positive (denormals and infinities included); denormal flushing replaces exactly the numbers of magnitude below the smallest normal number by zero and passes every other value, infinities and NaN included, unchanged.",
  ["inputs", "configurations"], "every float and double bit pattern, all forms and instruction sets",
  "The tests see no denormals next to the threshold, no infinities and hardly any negative values.",
  ["simd_unary_arithmetic.hpp", "detail/math.hpp", "detail/vec_math.hpp", "vec/*.hpp"], [("abs, sign, undenormalize", "vec/*.hpp, detail/math.hpp, detail/vec_math.hpp")], ["output elements"])

p("C13", "Horizontal reductions cover every element of the buffer",
  "Horizontal maximum and minimum (also as pair) of a buffer without NaN deliver the largest and smallest of its n elements, and the horizontal sum delivers the sum of its n elements up to the rounding of any summation order, in scalar and SIMD forms, for every legal length, and wherever in the buffer the extremal element is; the combined reductions deliver the same as the separate ones.",
  ["inputs", "configurations"], "all buffers without NaN (negative, positive, infinite, denormal values), all lengths, every position of the extremum, both forms, vector registers too",
  "The tests reduce positive random values only, so initial values and ignored lanes do not show.",
  ["simd_horizontal_functions.hpp", "vec/*.hpp"], [("accumulation loops", "simd_horizontal_functions.hpp"), ("horizontal_min/max/sum", "vec/*.hpp")], ["returned values"])

p("C14", "Peak meters keep the running peak and energy over any block history",
  "After any sequence of metering calls, whatever their lengths and forms, the peak holds the maximum of its initial value and the magnitudes of all samples seen, the energy accumulator its initial value plus the sum of the squares of all samples seen (up to summation rounding), and each peak call returns the magnitude of the last sample of its block. The state never loses or repeats a sample between blocks.",
  ["histories", "inputs", "configurations"], "all sequences of blocks of legal lengths mixing scalar and SIMD calls, all samples without NaN",
  "The tests run one or two calls at lengths 64 and above on random positive samples.",
  ["simd_peakmeter.hpp", "vec/*.hpp"], [("peak_vec, peak_rms_vec and SIMD versions", "simd_peakmeter.hpp"), ("load_first, horizontal_max, horizontal_sum", "vec/*.hpp")], ["*peak, *squared_sum and the return value after each call"],
  [dict(name="peak", meaning="running maximum magnitude", where="caller's variable"), dict(name="squared_sum", meaning="running energy", where="caller's variable")])

p("C15", "Panning scales each channel by its own gain or gain ramp",
  "Two-channel panning writes in[i]*gain0 to the first and in[i]*gain1 to the second output for every i; with gain ramps, gain k at sample i is start_k + i*slope_k, and the two channels' gains and slopes never mix. This holds in the scalar, run-time and compile-time length forms and when either output is the input buffer.",
  ["inputs", "configurations"], "all inputs, gains, slopes, lengths and forms, float and double",
  "The tests compare the forms with each other for one gain pair.",
  ["simd_pan.hpp"], [("pan2_vec and detail::pan2", "simd_pan.hpp")], ["both output buffers"])

p("C16", "Vector registers load, store and address lanes faithfully",
  "Loading n elements into a vector, storing them, setting or reading a lane, broadcasting, clearing, loading a single element (other lanes zero) and filling with a slope or exponential sequence affect exactly the addressed lanes and preserve bit patterns, for aligned, unaligned and streaming access; the slope fill returns the increment and the exponential fill the value that continues the sequence in the next vector; the alignment query is true exactly for the addresses that aligned access supports.",
  ["inputs", "configurations", "histories"], "all sequences of register operations, all lanes, bit patterns and alignments, every vector type and instruction set",
  "The tests touch a few lanes with ordinary numbers.",
  ["vec/*.hpp"], [("load*/store*/get/set/set_vec/set_slope/set_exp", "vec/*.hpp, vec/vec_base.hpp")], ["register contents read through the public interface"])

p("C17", "Vector operators act lane by lane",
  "Arithmetic, assignment, mixed scalar-vector, comparison, mask, bitwise, selection, negation, multiply-add, square root and unary vector operators compute each lane from the same lane of their operands only, by the scalar IEEE definition of the operation; selection takes the second operand exactly in the lanes whose mask is set; bit constants (sign, magnitude, exponent mask, one, one half) have their documented patterns.",
  ["inputs", "configurations"], "all operand bit patterns in all lanes, every vector type and instruction set",
  "The tests cover the unary functions and a few operators on ordinary numbers.",
  ["vec/*.hpp", "detail/vec_math.hpp"], [("operator macros", "vec/*.hpp"), ("vec_select", "detail/vec_math.hpp")], ["result registers"])

p("C18", "Single-precision math functions meet their error bound",
  "The SIMD approximations of sine, cosine, tangent, arc sine, arc cosine, arc tangent, hyperbolic tangent, exponential and the logarithms (natural, base 2, base 10) stay within the documented relative error of 5e-7 of the exact value for every single-precision argument in the domain (sine, cosine and tangent: magnitudes up to 8192, plus an absolute error of 1e-9 for the reduction of the argument, for the tangent times 1+tan^2; logarithms: positive normal numbers; arc sine and arc cosine: [-1, 1]; exponential: results that are normal numbers), in every lane and form. The scalar forms meet the same bound.",
  ["inputs", "configurations"], "every float in each function's domain, all lanes, forms and instruction sets",
  "The tests sample a sub-range of the domain at 1e-5..1e-6 relative tolerance; errors in other octants, exponents or signs are never evaluated.",
  ["detail/vec_math.hpp", "detail/math.hpp", "simd_math.hpp", "vec/*.hpp"], [("polynomial approximations", "detail/vec_math.hpp"), ("scalar", "detail/math.hpp")], ["output elements"])

p("C19", "Math functions behave at the edges of their domains",
  "The single-precision SIMD exponential delivers the largest finite float for every argument whose exponential exceeds it, zero below -88, positive finite numbers in between (below -87 fading out without becoming negative), and NaN for NaN; its powers of positive or, signed, non-zero bases are therefore never NaN or infinite. Hyperbolic tangent never exceeds magnitude 1, is exactly +-1 beyond magnitude 22 and keeps the sign of its argument; arc sine and arc cosine deliver 0 outside of [-1, 1] (scalar and double forms: NaN) and values within [-pi/2, pi/2] and [0, pi] inside; arc tangent stays within +-pi/2 and reaches it at infinity. Sine, tangent, arc sine, arc tangent, hyperbolic tangent, signed square root and signed power are odd, cosine is even, value for value; a zero base raised to a positive power is zero. What an element becomes never depends on the other elements of the buffer.",
  ["inputs", "configurations"], "all arguments at and beyond the domain boundaries, float and double, all forms",
  "The tests stay in the middle of the domains.",
  ["detail/vec_math.hpp", "detail/math.hpp", "vec/*.hpp"], [("boundary selection in vec_exp_float, vec_tanh_float, vec_asin_float, vec_acos_float, vec_pow", "detail/vec_math.hpp")], ["output elements"])

p("C20", "Unit conversions implement the musical definitions and invert each other",
  "MIDI note to frequency is 440*2^((m-69)/12), MIDI interval to ratio 2^(m/12), octave to frequency 440*2^(o-4.75), decibel to amplitude 10^(d/20), and the reverse conversions are their inverses applied to the magnitude of the argument (interval ratios: positive arguments), all within the approximation error (single precision: 5e-7, double: 1e-11, relative to the result, scaled with 1 + |ln(p)| for the exponential conversions, p being the power of 2 or 10, and to |12 log2(f/440)| + 69 resp. |log2(f/440)| + 4.75 for the conversions from frequency) for every argument whose power p, scaled frequency f/440 and result are normal numbers, in every form; hence converting forth and back returns the argument to within these errors.",
  ["inputs", "configurations"], "all arguments over the practical range, both signs, float and double, all forms",
  "The tests check two or three constants and scalar/SIMD agreement on [0.1, 1].",
  ["simd_unit_conversion.hpp"], [("functors", "simd_unit_conversion.hpp")], ["output elements"])

p("C21", "Soft clipping is the identity below one half and bounded by one",
  "Soft clipping delivers x unchanged for |x| < 1/2 and sign(x)*(1 - 0.25/|x|) for larger magnitudes; it is odd, continuous at one half, monotone and never exceeds magnitude 1, for every finite input and in every form.",
  ["inputs", "configurations"], "all finite floats and doubles, all forms and lanes",
  "The tests use [0.1, 1] and compare the forms.",
  ["softclip.hpp"], [("softclip functor", "softclip.hpp")], ["output elements"])

p("C22", "Powers, roots and reciprocals keep sign and accuracy",
  "The power function delivers x^y for positive x, signed power sign(x)*|x|^y, signed square root sign(x)*sqrt(|x|) correctly rounded, and reciprocal 1/x to within a few units in the last place for every argument whose result is a normal number; the relative error of powers is at most 5e-7 (double: 1e-14) times 1 + |y*log(x)|, and the reciprocal times its argument differs from 1 by a few units in the last place.",
  ["inputs", "configurations"], "all positive bases, exponents with normal results, negative bases for the signed functions, float and double, all forms",
  "The tests use bases and exponents from [0.1, 1].",
  ["simd_math.hpp", "simd_unary_arithmetic.hpp", "detail/math.hpp", "detail/vec_math.hpp"], [("vec_pow, vec_signed_pow, vec_signed_sqrt, vec_reciprocal_newton", "detail/vec_math.hpp"), ("scalar", "detail/math.hpp")], ["output elements"])

p("C23", "Results do not depend on the instruction set or build flavour",
  "The same call on the same input delivers the same result whichever instruction set the library is compiled for (generic C++, SSE2, SSE4.1, AVX, AVX with FMA) and whether or not it is compiled with optimisation and release flags: identical values for exact and correctly rounded operations, within the approximation error otherwise.",
  ["configurations", "inputs"], "all operations, inputs and lengths across all buildable configurations",
  "Each configuration's tests only compare the library with itself.",
  ["vec/*.hpp", "detail/vec_math.hpp", "vec.hpp"], [("per-instruction-set vector classes", "vec/*.hpp")], ["outputs of the same calls in differently compiled programs"])

p("C24", "Splitting a buffer into blocks does not change the result",
  "Processing a signal in consecutive blocks of any legal lengths, with any mix of forms, delivers the same output as processing it in one call: elementwise operations and copies exactly, ramps continued from their value at the block boundary, and reductions and meters combined over the blocks.",
  ["histories", "inputs", "configurations"], "all signals, all partitions into blocks, all mixes of forms",
  "The tests process each buffer in a single call.",
  ["detail/unroll_helpers.hpp", "simd_memory.hpp", "simd_pan.hpp", "simd_peakmeter.hpp"], [("stateless loops, explicit ramp state", "detail/unroll_helpers.hpp, detail/wrap_arguments.hpp")], ["output buffers and meter state after the last block"])

p("C25", "Register helper functions have their documented effect",
  "The stand-alone register helpers deliver the constants sign mask, magnitude mask, 1, 0.5 and 0.25 in all four lanes, extract the first and the last lane, reduce all four lanes to their minimum and maximum, and select per lane the second operand where the selector is set, for every register content.",
  ["inputs", "configurations"], "all register contents (without NaN for the reductions), SSE2 and SSE4.1 builds",
  "No test includes this header.",
  ["simd_utils.hpp"], [("inline functions", "simd_utils.hpp")], ["return values"])

p("C26", "Double-precision operations keep double precision",
  "Every double-precision operation delivers double-precision results: no argument, constant, ramp increment, intermediate value or result passes through single precision. Elementary functions have a relative error below 1e-14 (powers: scaled with 1 + |y*log(x)|; unit conversions: 1e-11), and exact operations are exact for operands that are not representable in single precision.",
  ["inputs", "configurations"], "all double operations, forms and argument kinds, operands with more than 24 significant bits",
  "The tests compare double results at single-precision tolerances.",
  ["detail/*.hpp", "vec/vec_sse2.hpp", "vec/vec_avx_double.hpp", "simd_*.hpp"], [("template parameters", "all headers")], ["output elements"])

p("C27", "Calls are independent of history, of other threads and of the environment",
  "The result of a call depends on its arguments only: repeated after any other calls, or made at the same time as calls on other threads that work on other buffers, the same call delivers the same bits again. No state survives a call, and every call leaves the floating-point environment of its thread (rounding mode, exception masks, treatment of denormals) as it found it.",
  ["histories", "schedules", "inputs"], "all operations and forms, all histories of other calls, all interleavings of threads on separate buffers, all floating-point environments",
  "The tests make each call once, on one thread, in the default environment.",
  ["*.hpp", "detail/*.hpp", "vec/*.hpp"], [("no mutable static state", "all headers"), ("instructions that change MXCSR or the x87 control word do not occur", "vec/*.hpp")],
  ["output elements of repeated and concurrent calls", "MXCSR and x87 control word before and after each call"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
