"""Source of properties.jsonl: python3 tools/props.py rewrites it."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
EMU = ["egg/platform_cpu.py", "egg/platform_x86.py", "egg/scalar.py", "egg/operators.py"]
p("P01", "Integer element operations compute the exact result in every lane",
  "For the eight integer types, every element-wise arithmetic, bitwise, min/max, absolute value, negation, rounding, fused multiply-add and shift operation gives, in every lane and independently of the other lanes, the two's-complement wrapped result (truncating division for a non-zero divisor), saturating addition and subtraction give the exact sum or difference clamped to the range of the type, and shifts by 0 to width-1 are logical or arithmetic as named. This is the same for every SIMD extension and for the scalar form of the operation.",
  ["inputs", "configurations"], "all operand tuples, shift amounts, lane positions, integer types and SIMD extensions",
  "The tests draw a few hundred random operands per operation, mostly small magnitudes, for one extension, and compare against the library's own scalar code; range limits, carries between emulated sub-words, and single wrong lanes are not reached.",
  EMU, [("x86 emulation of missing integer instructions", "egg/platform_x86.py"), ("CPU back end, unrolled scalar code", "egg/platform_cpu.py"), ("scalar functions", "egg/scalar.py")])
p("P02", "Floating-point element operations follow IEEE 754 in every lane",
  "For half, single and double precision, add, sub, mul, div, sqrt, negation, absolute value, min/max, ceil, floor, trunc, round-to-even and the bitwise operations give the correctly rounded IEEE 754 (round to nearest even) or bit-exact result in every lane, with signed zeros, subnormals, infinities and NaN propagated as IEEE prescribes. Fused multiply-add variants equal either the singly or the doubly rounded value, and reciprocals and reciprocal square roots stay within their documented relative error (2^-8, 2^-11, or full precision). This is the same for every SIMD extension and for the scalar form.",
  ["inputs", "configurations"], "all operand tuples including special values, lane positions, floating types and SIMD extensions",
  "Tests use random finite values in a narrow range, skip f16 in practice (their f16 comparison is vacuous) and only run AVX2 in full; ties, subnormals, signed zeros, infinities, NaN and overflow thresholds are not sampled.",
  EMU + ["include/nsimd/scalar_utilities.h"], [("emulated rounding, f16 through f32", "egg/platform_x86.py"), ("CPU back end", "egg/platform_cpu.py"), ("scalar functions", "egg/scalar.py")])
p("P03", "Comparisons, lane masks, selection and mask reductions are exact",
  "Every comparison yields per lane exactly the mathematical relation (IEEE for NaN and signed zeros); logicals combine by Boolean algebra, convert to and from full-bit masks and memory without loss, and select the first operand exactly in the true lanes. any, all and the count of true lanes are exact for every pattern of lanes however the logical was produced, and the loop-tail mask for (i, n) is true exactly in the lanes j with i + j < n.",
  ["inputs", "configurations"], "all operand pairs, lane patterns, (i, n) pairs, element types and SIMD extensions",
  "Tests compare random small operands and random masks on one extension; all 2^lanes patterns, unsigned and 64-bit emulated comparisons at the sign boundary, and loop tails near the limits are outside what they sample.",
  EMU, [("emulated unsigned/64-bit comparisons, mask registers", "egg/platform_x86.py"), ("mask reductions", "egg/platform_x86.py"), ("CPU logicals", "egg/platform_cpu.py")])
p("P04", "Lane permutations and horizontal operations put every lane where documented",
  "Zip low/high, unzip even/odd, and combined zip/unzip move each lane's bits unchanged to the documented position for the whole vector, zip and unzip being inverse of each other; iota gives the lane index and the reported vector length is the register width divided by the element size. Horizontal addition returns the sum of all lanes.",
  ["inputs", "configurations"], "all lane positions, bit patterns, element types and SIMD extensions",
  "Tests check one random vector per operation on one extension with a tolerance and pairs of values that often coincide; a swapped pair of lanes in a rarely used 8- or 16-bit variant goes unseen.",
  ["egg/platform_x86.py", "egg/platform_cpu.py", "egg/operators.py"], [("per-width shuffle sequences", "egg/platform_x86.py"), ("CPU back end", "egg/platform_cpu.py")])
p("P05", "Conversions are exact or truncating, reinterpretation keeps every bit",
  "Converting elements between types of the same, double or half width keeps the value when representable, rounds integer to floating conversions to nearest even, truncates floating to integer conversions toward zero, wraps narrowing integer conversions modulo 2^width, and keeps the order of elements across the two halves. Reinterpretation preserves bits and reinterpretation of logicals preserves truth per lane.",
  ["inputs", "configurations"], "all source bit patterns whose converted value is representable, all type pairs, lane positions and SIMD extensions",
  "Tests convert small random values that survive any rounding mode and any 32-bit shortcut.",
  EMU, [("64-bit and unsigned conversion emulation", "egg/platform_x86.py"), ("up/down conversions", "egg/platform_x86.py")])
p("P06", "Loads and stores touch exactly the addressed elements",
  "Aligned, unaligned, masked, logical, structure (2/3/4 members), gather and scatter accesses read and write exactly the documented element addresses, in element order, for any pointer valid for the access: no byte outside is read in a way that faults or is written, inactive lanes of a masked access are neither read nor written and get zero or the given alternative, and memory next to the accessed elements is unchanged. Structure stores are the exact inverse of structure loads, with all members of one structure in the same lane.",
  ["inputs", "configurations"], "all masks, offsets, alignments, strides and page-boundary positions, element types and SIMD extensions",
  "Tests use big buffers without guard pages, and only check values inside them; over-reads, over-writes, and rarely taken mask patterns are invisible.",
  ["egg/platform_x86.py", "egg/platform_cpu.py", "egg/x86_load_store_deg234.py"], [("masked memory access emulation", "egg/platform_x86.py"), ("structure (de)interleaving", "egg/x86_load_store_deg234.py")])
p("P07", "Half-precision conversion, classification and distance are exact for all bits",
  "Converting half to single is exact for all 65536 encodings, single to half rounds to nearest even for all 2^32 encodings with overflow to infinity and NaN kept NaN, and the vector conversions agree with the scalar ones. NaN and infinity tests classify every encoding correctly and the matching-digits measure between two values is the number of leading bits on which they agree.",
  ["inputs", "configurations"], "all half and single precision bit patterns, with and without hardware conversion",
  "Tests convert a few dozen values; 2^32 inputs with ties, subnormal results and NaN payloads are only decided by enumeration.",
  ["src/fp16.cpp", "src/ufp.cpp", "include/nsimd/nsimd.h", "egg/platform_x86.py"], [("software conversions", "src/fp16.cpp"), ("classification", "include/nsimd/nsimd.h"), ("matching bits", "src/ufp.cpp")])
p("P08", "Mathematical functions stay within their accuracy over their whole domain",
  "For every floating type and extension, the exponential, logarithmic, power, trigonometric, hyperbolic, gamma, error, root, remainder and hypotenuse functions return, in every lane, a value within the accuracy named in the function (1.0, 1.5, 3.5 ULP and so on) of the exact result over the domain the documentation refers to, half precision being at most a rounding away from the exact result, and infinities, zeros, NaN and domain errors give the limits C prescribes. The result in a lane does not depend on the values in the other lanes.",
  ["inputs", "configurations"], "all arguments in the documented domain (all 65536 for half precision), lane positions and SIMD extensions",
  "Tests evaluate a few random points of a narrow range with loose tolerance and a vacuous half-precision comparison; argument reduction tables, thresholds, subnormals and special values are not reached.",
  ["src/sleefsp.c", "src/sleefdp.c", "src/sleefsimdsp.c", "src/sleefsimddp.c", "src/rempitab.c", "egg/gen_src.py", "egg/platform_x86.py"], [("vectorised approximations and argument reduction", "src/sleefsimdsp.c, src/sleefsimddp.c"), ("dispatch from the vector API, half precision through single", "egg/gen_src.py, egg/platform_x86.py")])
p("P09", "All programming interfaces agree, and packs of any unroll factor act lane-wise",
  "The C macros, the C11 generic interface, the C++ base functions, and the C++ packs with named functions, overloaded operators, compound assignments and mixed vector/scalar operands all compute the same result for the same operation on the same elements. A pack unrolled N times holds N times as many elements in memory order; every element-wise operation, comparison, selection, load, store, gather, scatter, same-width conversion, reinterpretation, lane index, loop-tail mask and mask reduction on it equals the same operation applied to its elements, and conversions that change the width act register by register. The members of a structure of packs are reached by their index; to_pack appends their registers one member after the other, to_pack_interleave register by register in turn.",
  ["inputs", "programs", "configurations"], "all operations x interfaces x element types x unroll factors x operand values",
  "Each generated test exercises one operation through one interface with unroll 1 on random values; agreement across interfaces and unroll factors is never compared.",
  ["egg/gen_adv_cxx_api.py", "egg/gen_adv_c_api.py", "egg/gen_base_apis.py", "include/nsimd/cxx_adv_api.hpp", "include/nsimd/c_adv_api.h", "egg/operators.py", "egg/gen_friendly_but_not_optimized.py"], [("generated pack functions and operators", "egg/gen_adv_cxx_api.py"), ("generated C and C11 interfaces", "egg/gen_base_apis.py, egg/gen_adv_c_api.py")])
p("P10", "Array expressions evaluate element-wise for every length and expression",
  "Assigning an array expression to an output writes, for every index below the number of elements, exactly the value obtained by evaluating the expression on the elements of that index, whatever the number of elements, the alignment of the arrays and the mix of vector and scalar operands. A masked assignment changes exactly the elements where the condition holds and nothing outside the range is written.",
  ["inputs", "programs", "configurations"], "all expressions up to a depth, lengths around multiples of the vector length, masks, types and extensions",
  "Tests evaluate one operation each on fixed lengths; composed expressions, short tails and masked outputs are hardly covered.",
  ["include/nsimd/modules/tet1d.hpp", "egg/modules/tet1d/hatch.py"], [("expression template evaluation loop with tail", "include/nsimd/modules/tet1d.hpp"), ("generated operators", "egg/modules/tet1d/hatch.py")])
p("P11", "SPMD kernels behave per lane like the scalar program",
  "A kernel written with the structured control flow (if/else, while, break, continue, return) and masked assignments, loads and stores computes for every thread index below n exactly what the same program computes executed alone for that index, for every nesting of the constructs, data-dependent divergence, element width and unroll factor, every kernel operation being the operation of the same name on each index. It terminates whenever all the scalar executions do and touches no memory of indices at or beyond n.",
  ["inputs", "programs", "configurations"], "all kernels up to a nesting depth, all divergence patterns of the lanes, thread counts, element widths, unroll factors",
  "Tests run one operation per kernel without divergence, unroll 1; nested control flow with partially active lanes is where mask bookkeeping fails.",
  ["include/nsimd/modules/spmd.hpp", "egg/modules/spmd/hatch.py"], [("mask stack macros", "include/nsimd/modules/spmd.hpp"), ("generated operators", "egg/modules/spmd/hatch.py")])
p("P12", "Fixed-point numbers compute exactly within their format",
  "For every format, addition, subtraction, negation, comparison, min/max, bitwise and logical operations, selection, absolute value, floor, ceil, integrality and distance tests and memory access give the exact fixed-point result whenever it is representable; conversions to and from floating point go through single precision and give the value rounded as such; multiplication, division, multiply-add, reciprocal and square root are within one unit of the last place of the exact result whenever that is representable. The vector forms meet the same in every lane.",
  ["inputs", "configurations"], "all raw values for narrow formats and boundary values for wider ones, all operations, formats and lanes",
  "Tests use a handful of random reals with float tolerance in a few formats and one extension; whole formats can be enumerated.",
  ["include/nsimd/modules/fixed_point.hpp", "include/nsimd/modules/fixed_point/fixed.hpp", "include/nsimd/modules/fixed_point/simd.hpp"], [("shift and promote arithmetic", "include/nsimd/modules/fixed_point/function"), ("vector forms", "include/nsimd/modules/fixed_point/function/simd")])
p("P13", "Counter-based random generators match their published definition",
  "Every generator of the random module (Philox and Threefry families, all word sizes, widths and round counts) returns for every counter and key, in every lane independently of the others, exactly the words of the published Random123 definition.",
  ["inputs", "configurations"], "all counters and keys (boundary words and all single-bit patterns), lanes, generators and extensions",
  "Tests compare with a copy of the same algorithm on incremental counters with one key; carries and high-half multiplications at word boundaries are not reached.",
  ["include/nsimd/modules/random/functions.hpp", "egg/modules/random/hatch.py"], [("rounds and key schedule", "include/nsimd/modules/random/functions.hpp")])
p("P14", "Aligned allocation is aligned, sized, leak-free and reports failure",
  "Every block obtained from the C functions, the C++ helpers, the standard allocator in C++98 and C++11 mode, and the scoped buffer is aligned to the widest supported vector, holds the requested number of elements without overlapping other live blocks, and keeps its contents until released exactly once. When memory is exhausted or the size overflows, C functions return null, the allocator throws the standard exception, nothing leaks and paired buffers stay consistent.",
  ["histories", "fault_sequences", "inputs"], "all sequences of allocation operations up to a depth, every allocation failing in turn, all size classes including overflow",
  "The test suite allocates once with success; failing allocations and histories of several blocks are never exercised.",
  ["src/memory.cpp", "include/nsimd/nsimd.h", "include/nsimd/modules/memory_management.hpp"], [("aligned allocation", "src/memory.cpp"), ("allocator and scoped buffer", "include/nsimd/nsimd.h"), ("paired host/device buffers", "include/nsimd/modules/memory_management.hpp")])
p("P15", "Operations are pure and re-entrant at every instruction",
  "Every operation of the library depends only on its arguments: interrupting a call at any instruction and running any other operation (or the same one with other operands) to completion there, as a signal handler or another thread would, changes the result of neither. Repeating a call gives the same bits whatever ran before, and the floating-point control state and memory other than the destination are left unchanged.",
  ["schedules", "inputs"], "all preemption points of one call by other complete calls, and all ordered pairs of calls, for the operations of every part of the library",
  "The suite is single threaded, never interrupts a call, and runs each operation after a fixed history.",
  ["src/sleefsimdsp.c", "src/sleefsimddp.c", "src/rempitab.c", "src/fp16.cpp", "egg/platform_cpu.py", "egg/platform_x86.py"], [("no mutable shared state in implementations", "src, include/nsimd"), ("rounding-mode changes and scratch buffers in emulations", "egg/platform_x86.py")])
p("P16", "Printing shows every lane in order and reports every write failure",
  "Printing a vector or a logical writes an opening brace, every element of the vector in lane order in the given format (or the type's default), separated by commas, and a closing brace, and returns the number of characters written; when the stream cannot take all of the text, whichever byte fails, it returns a negative value. Streaming a pack or a logical pack to a C++ stream writes one such brace group per register, with every element as a number, and leaves the stream failed when it cannot take all of the text. This holds for every element type, value, format, extension and interface, and nothing but the stream is changed.",
  ["inputs", "fault_sequences", "configurations"], "all values in every lane, formats, element types, extensions and positions of a write failure",
  "The tests print nothing but fixed text to a working stream; no test compares printed elements or lets a write fail.",
  ["egg/gen_src.py", "egg/gen_archis.py", "egg/gen_base_apis.py"], [("print functions compiled per extension", "egg/gen_src.py"), ("overloads and macros", "egg/gen_archis.py, egg/gen_base_apis.py")])
here = os.path.dirname(os.path.abspath(__file__))
with open(here + "/../properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
