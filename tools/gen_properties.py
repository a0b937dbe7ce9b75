#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because JSONL is unreadable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a["observe_at"] = observe
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


p("C01", "The integer product is exact on every target",
  "For every matrix shape, storage order of each of the three matrices, row/column stride and pair of scalar operand offsets, an integer multiplication with no output transformation stores at each position exactly the sum over depth of (left entry + left offset) x (right entry + right offset), whenever those sums fit in 32 bits. "
  "This holds for every declared operand range (full 8 bit, non-zero left operand, narrow right operand, signed), bit-identically on every instruction-set build.",
  ["inputs", "configurations"],
  "All shapes (including vectors, ragged edges, very deep and very thin), orders, strides, offsets, operand values inside the declared range, operand ranges, thread counts and cache settings; builds: portable, SSE4, AVX2, 32-bit NEON, 64-bit NEON with and without dot product.",
  "The tests sample a few dozen fixed shapes with small depth, mostly contiguous storage and random data checked through a lossy 8-bit output; edge sizes of each kernel, extreme values and strides are not enumerated, and some paths (dot product) are not built at all.",
  ["public/gemmlowp.h", "internal/dispatch_gemm_shape.h", "internal/single_thread_gemm.h", "internal/pack.h", "internal/compute.h", "internal/unpack.h", "internal/kernel_neon.h", "internal/kernel_sse.h", "internal/kernel_avx.h"],
  [("shape dispatch and transposition", "internal/dispatch_gemm_shape.h"), ("operand packing with sums of slices", "internal/pack.h, pack_neon.h, pack_sse.h, pack_avx.h"), ("SIMD kernels", "internal/kernel_*.h"), ("offset correction when unpacking", "internal/unpack.h")],
  ["contents of the int32 result matrix"])

p("C02", "Per-row and per-column operand offsets are applied exactly",
  "When the left offset is a vector with one entry per result row and the right offset a vector with one entry per result column, each result entry equals the exact sum over depth of (left + that row's offset) x (right + that column's offset). "
  "A vector whose entries are all equal, a repeated-constant vector and a scalar offset give identical results, whatever the shape, storage orders, operand range, thread count and blocking.",
  ["inputs", "configurations"],
  "All shapes, orders, strides, offset vectors (each side independently a real vector or a repeated constant), operand ranges, thread counts and cache settings; all instruction-set builds.",
  "One test exercises per-channel offsets with a handful of shapes; misplacement by block, thread slice or the transposed dispatch for wide results only shows for offsets that differ per position and shapes that span several blocks.",
  ["public/gemmlowp.h", "internal/unpack.h", "internal/dispatch_gemm_shape.h", "internal/output.h", "public/map.h"],
  [("offset vectors addressed by block position", "internal/unpack.h"), ("swap of the two offset vectors for transposed execution", "internal/dispatch_gemm_shape.h"), ("repeated-constant vectors", "public/map.h")],
  ["contents of the int32 result matrix"])

p("C03", "Output stages compute their documented per-entry arithmetic",
  "Every result entry equals the documented composition of the output stages applied to the exact 32-bit accumulator: integer scale with rounding shift, fixed-point multiply then rounding right shift then offset, exponent form with left or right shift, clamping, hyperbolic tangent, and saturating conversion to 8-bit unsigned, 8-bit signed or 16-bit signed. "
  "Fixed-point multiplies round to nearest, right shifts round to nearest with halves away from zero, conversions saturate, and the value of an entry depends only on its accumulator, never on its position, shape, build or thread count.",
  ["inputs", "configurations"],
  "All accumulator values and stage parameters that do not overflow the documented intermediate arithmetic, all stage compositions and result types, at every position of every shape and result order; all instruction-set builds.",
  "Tests check each stage at a few parameter values on one fixed matrix; saturation boundaries, rounding ties, negative accumulators, and the separate code for each register-block size and result type are not all reached.",
  ["public/output_stages.h", "internal/output.h", "internal/output_neon.h", "internal/output_sse.h", "fixedpoint/fixedpoint.h", "internal/unpack.h"],
  [("stage evaluation on register blocks", "internal/output.h"), ("saturating casts and stores", "internal/output_neon.h, output_sse.h"), ("rounding primitives", "fixedpoint/fixedpoint.h")],
  ["result matrix contents for uint8, int8, int16 and int32 results"])

p("C04", "Row- and column-indexed output parameters hit their own row or column",
  "A bias vector is added so that every result entry receives exactly the bias of its own row (column-shaped bias) or its own column (row-shaped bias), and per-channel scale stages apply to each entry exactly the multiplier, shift and offset of its own row or column. "
  "This holds in combination with any following stages, for every shape, result order, stride, thread count and blocking.",
  ["inputs", "configurations"],
  "All shapes, result orders, bias and per-channel parameter vectors (one entry per row or per column), combinations with the other stages, thread counts and cache settings; all instruction-set builds.",
  "Tests add one bias and one per-channel stage on one shape per kernel; an index that is off by a block, or correct only on the first thread's slice or in one of the two dispatch directions, survives.",
  ["public/output_stages.h", "internal/output.h", "internal/output_neon.h", "internal/output_sse.h", "internal/unpack.h", "internal/dispatch_gemm_shape.h", "internal/simd_wrappers.h"],
  [("position passed to stage evaluation", "internal/unpack.h, internal/output.h"), ("vector loads at block positions", "internal/simd_wrappers*.h"), ("stage transposition for wide results", "internal/dispatch_gemm_shape.h")],
  ["result matrix contents"])

p("C05", "Results never depend on threads, cache tuning or call history",
  "The result of a multiplication is bit-identical for every maximum thread count, every cache-size tuning and every earlier sequence of calls made with the same context, including calls of other shapes, calls with other data in the same buffers, calls from other threads and changes of the settings in between. "
  "Distinct contexts may be used concurrently from different threads without influencing each other's results.",
  ["inputs", "schedules", "histories", "configurations"],
  "All sequences of calls on one context with changing shapes, thread limits and cache parameters, all thread interleavings of the internal workers, and concurrent use of several contexts.",
  "The test suite uses one context with a few fixed settings, never compares thread counts with each other systematically, and never runs two contexts at once.",
  ["internal/multi_thread_gemm.h", "internal/single_thread_gemm.h", "internal/block_params.h", "internal/allocator.h", "public/gemmlowp.h"],
  [("row partition over workers", "internal/multi_thread_gemm.h"), ("block size computation from cache parameters", "internal/block_params.h"), ("per-worker scratch allocators and shared packed operand", "internal/multi_thread_gemm.h")],
  ["result matrix contents, crashes, hangs and data races"])

p("C06", "Multiplication touches exactly the memory it was given",
  "A multiplication reads nothing outside the elements of the operands, their offset and bias vectors, writes every element of the result and nothing else: not the padding between rows or columns of a strided result, not the operands, and nothing before or after any buffer. "
  "Padding in the operands never influences the result, and a product with zero rows, columns or depth is a no-op.",
  ["inputs", "configurations"],
  "All shapes, orders, strides, alignments, placement of each buffer against an unmapped page, result types, output stages, thread counts and cache settings; all instruction-set builds.",
  "Tests allocate everything in ordinary heap vectors with slack, so over-reads and stray writes by vector loads and stores at the edges go unnoticed; they do not inspect padding.",
  ["internal/pack.h", "internal/pack_neon.h", "internal/pack_sse.h", "internal/pack_avx.h", "internal/unpack.h", "internal/output_neon.h", "internal/output_sse.h", "internal/simd_wrappers.h"],
  [("zero-extended copies of incomplete cells when packing", "internal/pack.h"), ("small-block fallback when storing the edges", "internal/unpack.h")],
  ["memory faults next to each buffer, contents of padding and operands"])

p("C07", "The 8-bit multiplication interface follows its documented formula",
  "The 8-bit entry point with transpose flags and leading dimensions stores at each position the sum over depth of the two offset operands, plus the result offset, times the multiplier, shifted right with rounding to nearest and clamped to 0..255, where each transpose flag only says whether that matrix is laid out row by row or column by column. "
  "It gives the same answer as the generic interface for the same data, for all eight transpose combinations, all leading dimensions and both operand bit-depth settings, and leaves everything outside the result elements untouched.",
  ["inputs", "configurations"],
  "All shapes, transpose flags, leading dimensions, offsets, multipliers, shifts, bit depth settings and thread limits; all instruction-set builds.",
  "Tests use tightly packed matrices and a few fixed quantization parameters.",
  ["eight_bit_int_gemm/eight_bit_int_gemm.h", "eight_bit_int_gemm/eight_bit_int_gemm.cc", "public/gemmlowp.h"],
  [("order selection from the transpose flags", "eight_bit_int_gemm/eight_bit_int_gemm.cc"), ("legacy integer output stage", "public/output_stages.h")],
  ["uint8 result matrix and bytes around it"])

p("C08", "The float-output 8-bit interface scales the exact product",
  "The entry point with float results stores at each position the exact integer sum over depth of the two offset operands, converted to float and multiplied once by the result scale. "
  "This holds for all transpose combinations, leading dimensions and thread limits, and leaves everything outside the result elements untouched.",
  ["inputs", "configurations"],
  "All shapes, transpose flags, leading dimensions, offsets, scale values, bit depth settings and thread limits; all instruction-set builds.",
  "One test calls this entry point on one shape with packed storage.",
  ["eight_bit_int_gemm/eight_bit_int_gemm.h", "eight_bit_int_gemm/eight_bit_int_gemm.cc"],
  [("float conversion of an int32 product", "eight_bit_int_gemm/eight_bit_int_gemm.cc")],
  ["float result matrix"])

p("C09", "Process-wide state of the 8-bit interface is invisible to results",
  "After any history of calls, thread-limit changes and releases of the persistent resources, made from any number of application threads, each call of the 8-bit interfaces returns exactly what it would return as the only call ever made. "
  "Setting and releasing are idempotent, can be repeated in any order, and calls made after a release work again.",
  ["histories", "schedules"],
  "All sequences of {multiply 8-bit, multiply float, set maximum threads, release persistent resources} and all interleavings of several application threads performing them.",
  "Tests make sequential calls and free the resources once at the end.",
  ["eight_bit_int_gemm/eight_bit_int_gemm.cc"],
  [("lock around the global context", "eight_bit_int_gemm/eight_bit_int_gemm.cc"), ("lazy creation and destruction of the global context", "eight_bit_int_gemm/eight_bit_int_gemm.cc")],
  ["results, crashes, races"])

p("C10", "The worker pool runs each task exactly once before returning",
  "Submitting a batch of tasks to a worker pool runs every task exactly once, returns only after all of them have finished with their effects visible to the caller, and frees each task exactly once; this holds for any batch sizes in any order, with the pool growing, being reused and being destroyed. "
  "A countdown counter releases its waiter exactly when the count reaches zero, and never before, and reports the final decrement to exactly one thread.",
  ["schedules", "histories"],
  "All sequences of batch sizes, task durations, pool reuse and destruction, and all thread interleavings.",
  "One test drives the counter with fixed threads; the pool is only exercised through multiplications, where a lost or repeated task of equal work can go unnoticed.",
  ["internal/multi_thread_gemm.h"],
  [("blocking counter", "internal/multi_thread_gemm.h"), ("worker state machine", "internal/multi_thread_gemm.h"), ("workers pool", "internal/multi_thread_gemm.h")],
  ["per-task execution counters, completion order, race reports"])

p("C11", "Scratch allocator blocks are aligned, disjoint and stable",
  "Between one commit and the following decommit of the scratch allocator, every reserved block has the requested size, is aligned for SIMD use, is disjoint from every other live block and keeps its contents and address until decommit. "
  "This holds over any number of reserve/commit/decommit generations of any sizes on the same allocator, and its memory is never smaller than the current generation needs.",
  ["histories", "inputs"],
  "All histories of generations with any number of blocks (within the documented maximum), sizes including zero and element types.",
  "The test performs a few fixed generations.",
  ["internal/allocator.h"],
  [("offset assignment at reservation", "internal/allocator.h"), ("storage growth at commit", "internal/allocator.h"), ("generation tagging of handles", "internal/allocator.h")],
  ["addresses and contents of the blocks"])

p("C12", "Fixed-point primitives are exact and identical in SIMD and scalar form",
  "The fixed-point primitives (saturating rounding doubling high multiply, rounding and exact multiply by powers of two with saturation, rounding half sum, saturating add, bitwise, comparison, selection, and any/all tests) return on every input the exactly specified integer, including at the extreme values. "
  "Each SIMD form computes in every lane exactly what the scalar form computes on that lane, on each instruction set.",
  ["inputs", "configurations"],
  "All 32-bit and 16-bit operand values, especially extremes, ties and neighbours of powers of two; all shift amounts; all lanes; all instruction-set builds.",
  "Tests enumerate a limited list of values and do not run every primitive on the SIMD types; the extreme-times-extreme case and any/all tests are not compared with an independent model.",
  ["fixedpoint/fixedpoint.h", "fixedpoint/fixedpoint_neon.h", "fixedpoint/fixedpoint_sse.h", "fixedpoint/fixedpoint_avx.h"],
  [("scalar reference definitions", "fixedpoint/fixedpoint.h"), ("SIMD specialisations", "fixedpoint/fixedpoint_neon.h, fixedpoint_sse.h, fixedpoint_avx.h")],
  ["raw integer values of each lane"])

p("C13", "Fixed-point exp, tanh, logistic and reciprocals stay accurate everywhere",
  "The fixed-point exponential on negative values, tanh, logistic, 1/(1+x) and (1-x)/(1+x) return, for every representable input of their domain and for any number of integer bits the format leaves room for (checked: 0 to 9, 12, and in 32 bits also 20 and 28), a value close to the real function: within 2 (exp), 12 (tanh, (1-x)/(1+x)), 6 (1/(1+x)) and 7 (logistic) units of the last place in 16 bits, and within 500, 310 (tanh), 16 ((1-x)/(1+x)), 10 (1/(1+x)) and 155 units in 32 bits. "
  "exp(0) is one, tanh(0) zero and logistic(0) one half; exp and logistic are never negative; tanh is exactly odd and logistic(x) + logistic(-x) is exactly one (except at the most negative raw value). "
  "Scalar and SIMD evaluations return identical bits.",
  ["inputs", "configurations"],
  "All 2^32 (2^16) raw inputs and all supported numbers of integer bits, scalar and SIMD lanes, all instruction-set builds.",
  "Tests sample a few thousand inputs for one or two integer-bit counts per function.",
  ["fixedpoint/fixedpoint.h"],
  [("exponential by barrel shifter and interval polynomial", "fixedpoint/fixedpoint.h"), ("Newton-Raphson reciprocals", "fixedpoint/fixedpoint.h"), ("saturation masks at the ends of the domain", "fixedpoint/fixedpoint.h")],
  ["raw integer values"])

p("C14", "Fixed-point numbers convert, rescale and multiply predictably",
  "Converting a real number to fixed point stores the nearest representable value, saturating at the ends, and converting back is exact; the constants zero, one, power-of-two and from-real denote the values their names say. "
  "Changing the number of integer bits preserves the value up to rounding to nearest and saturates when it does not fit, a product has the sum of the integer bits and the rounded exact value, and addition, subtraction, negation, comparison and selection act on the represented values.",
  ["inputs", "configurations"],
  "All raw 16- and 32-bit values and all pairs of integer-bit counts; all instruction-set builds.",
  "Tests check conversions and rescaling on small value lists and one pair of formats.",
  ["fixedpoint/fixedpoint.h"],
  [("number type with static integer bits", "fixedpoint/fixedpoint.h"), ("rescaling and saturating shift", "fixedpoint/fixedpoint.h")],
  ["raw integer values"])

p("C15", "The ARM meta multiplication agrees with the exact formula",
  "On ARM, the meta library's quantized, float and 32-bit-integer multiplications return for every shape with depth up to 2048, and every offset, scale and thread count for which the arithmetic (rounding term included) fits 32 bits, exactly what their formula gives on the exact integer product: rounded shift and clamp to 8 bits, scale times integer, or the integer itself. "
  "This holds for row-by-column, row-by-matrix and matrix-by-matrix operation, for the single- and multi-threaded entry points, through every executor and packing choice of the newer interface, and reads and writes only the given matrices and 32-byte-aligned scratch space of the size the library asks for.",
  ["inputs", "configurations", "schedules"],
  "All m, n, k up to 2048 (every remainder modulo the kernel sizes), offsets, multipliers, shifts, strides, executors and thread counts; 32- and 64-bit NEON builds.",
  "Tests cover selected shapes with one quantization setting and run one thread only.",
  ["meta/legacy_multi_thread_gemm.h", "meta/legacy_single_thread_gemm.h", "meta/legacy_multi_thread_gemv.h", "meta/legacy_multi_thread_common.h", "meta/multi_thread_gemm.h", "meta/single_thread_gemm.h", "meta/quantized_mul_kernels_arm_32.h", "meta/quantized_mul_kernels_arm_64.h"],
  [("generated kernels for each remainder", "meta/quantized_mul_kernels_arm_*.h"), ("task splitting", "meta/legacy_multi_thread_common.h, meta/multi_thread_gemm.h"), ("executors and cache-friendly chunking", "meta/single_thread_gemm.h")],
  ["result matrix"])

p("C16", "The ARM meta transforms agree with their element-wise definitions",
  "Quantize, dequantize, requantize, clamp to a range and bias addition of the meta library produce for every element the value of their element-wise definition, for any length including every remainder, any range parameters with the 8-bit range offset at 0, and any number of threads. Quantize truncates and clamps; requantize rounds toward zero (32-bit) or to nearest (64-bit), alike for every element of a call. Kernels leave the caller's registers as they declare. "
  "They write exactly the requested elements and read nothing outside the inputs.",
  ["inputs", "configurations", "schedules"],
  "All lengths, contents, range parameters and thread counts; 32- and 64-bit NEON builds.",
  "Tests use two or three parameter values and fixed lengths on one thread.",
  ["meta/single_thread_transform.h", "meta/multi_thread_transform.h", "meta/transform_kernels_arm_32.h", "meta/transform_kernels_arm_64.h", "meta/transform_kernels.h"],
  [("generated kernels for each leftover", "meta/transform_kernels_arm_*.h"), ("task splitting", "meta/multi_thread_transform.h")],
  ["output arrays and neighbouring bytes"])

p("C17", "ARM meta packing interleaves every element and sums each row",
  "Packing a row- or column-major block of 1 to 8 lanes for the meta kernels stores each source byte exactly once at its documented interleaved position, fills the rest of the last group with zeros, and appends per lane the element sum times the multiplier plus the addend. "
  "This holds for every lane count, length, stride and leftover, and only the source elements influence the packed data.",
  ["inputs", "configurations"],
  "All lane counts 1..8, lengths, strides, multipliers and addends, and contents; 32- and 64-bit NEON builds.",
  "Tests use fixed ramps with one stride.",
  ["meta/streams.h", "meta/streams_arm_32.h", "meta/streams_arm_64.h"],
  [("generated packers for each leftover", "meta/streams_arm_*.h")],
  ["packed buffer contents"])

p("C18", "The ARM fast path of the 8-bit interface never changes results",
  "With the ARM fast path compiled in, the 8-bit and float entry points return bit-identical results to those of the ordinary path, for every shape, transpose combination, leading dimension, thread limit, and quantization parameters whose arithmetic (rounding term included) fits 32 bits. "
  "Requests the fast path cannot serve are silently served by the ordinary path.",
  ["inputs", "configurations", "histories"],
  "All argument combinations of the entry points, sequences of calls sharing the scratch memory; 32- and 64-bit NEON builds with the fast path.",
  "No test configuration builds the fast path here, and its tests use packed matrices only.",
  ["eight_bit_int_gemm/eight_bit_int_gemm.cc", "meta/legacy_multi_thread_gemm.h", "meta/legacy_multi_thread_gemv.h"],
  [("eligibility tests of the fast path", "eight_bit_int_gemm/eight_bit_int_gemm.cc"), ("shared scratch sizing", "eight_bit_int_gemm/eight_bit_int_gemm.cc")],
  ["result matrices"])

p("C19", "Matrix and vector views address exactly the elements they describe",
  "A matrix view of given order, size and stride, any block of it and blocks of blocks address element (row, column) at exactly the memory position that the original view implies; row and column steps are consistent with it. "
  "Vector views, repeated constants and their blocks return the element of the underlying vector at that position.",
  ["inputs", "programs"],
  "All orders, sizes, strides, and compositions of block operations.",
  "Views are only exercised through whole multiplications of mostly contiguous matrices.",
  ["public/map.h"],
  [("stride arithmetic", "public/map.h")],
  ["addresses of elements"])

p("C20", "The product does not depend on the kernel's block format",
  "Multiplying through any kernel with any register-block format (cells of any width, depth and internal order, any number of cells per side) gives the exact integer product, single- and multi-threaded, for every shape. "
  "Packing, cache blocking and unpacking therefore work for every format a kernel may declare, including widths that are not powers of two and mixed cell orders.",
  ["inputs", "programs", "configurations"],
  "Kernel formats over cell widths, depths, orders and cell counts; shapes, orders, strides, offsets, threads and cache parameters.",
  "Tests cover about ten fixed formats on fixed shapes with an 8-bit output.",
  ["internal/kernel.h", "internal/kernel_reference.h", "internal/pack.h", "internal/compute.h", "internal/block_params.h", "internal/unpack.h"],
  [("generic packing by cells", "internal/pack.h"), ("block parameter rounding", "internal/block_params.h"), ("reference kernel", "internal/kernel_reference.h")],
  ["result matrix"])

p("C21", "Profiling never changes results and reports balanced regions",
  "With profiling compiled in, multiplications return exactly the same results, with the profiler running or not, started and finished repeatedly around them, and any number of threads entering and leaving labelled regions and exiting. "
  "A profile taken while threads sit in known nested regions reports exactly those nestings (heaviest region first at every level, the remainder as \"other\"), and the profiler never crashes, hangs or keeps samples from an earlier run.",
  ["schedules", "histories"],
  "All nestings and interleavings of labelled regions on several threads, repeated start/finish cycles, threads that begin and end while profiling.",
  "No test builds with profiling on.",
  ["profiling/instrumentation.h", "profiling/profiler.h"],
  [("per-thread label stack", "profiling/instrumentation.h"), ("sampling thread and tree building", "profiling/profiler.h")],
  ["results, profile output"])

p("C22", "The documented quantization recipe approximates the real product",
  "Following the documented recipe (choose scale and zero point from the range, quantize, multiply with the offset-based integer product and the fixed-point output multiplier, dequantize) real zero is exactly representable, the multiplier decomposition represents the real multiplier to within its last bit, and each entry of the result differs from the real product of the dequantized operands by at most about one result quantization step, clamped to the result range. "
  "This holds for all real ranges and matrix contents.",
  ["inputs"],
  "All real ranges containing or adjacent to zero, matrix sizes and contents, storage orders; all x86 builds.",
  "The example runs once on one random matrix and checks nothing.",
  ["doc/quantization_example.cc", "doc/quantization.md", "public/output_stages.h"],
  [("range to scale and zero point", "doc/quantization_example.cc"), ("real multiplier to fixed-point multiplier and shift", "doc/quantization_example.cc")],
  ["quantized and dequantized results"])

p("C23", "An application's own worker pool gives the same results",
  "When a context is given the application's own worker pool (any object with the library pool's public methods), the result of a multiplication does not depend on how that pool runs the tasks of a batch: in any order, on the calling thread, on one thread per task, on fewer threads than tasks, through a pool shared by several contexts, with new or reused scratch allocators. "
  "The tasks of a batch are independent of each other and may run concurrently without data races.",
  ["schedules", "histories"],
  "All orders and placements of the tasks of every batch, all sequences of calls, settings and pool behaviours, several contexts at once.",
  "Tests only use the library's own pool.",
  ["internal/multi_thread_gemm.h", "public/gemmlowp.h"],
  [("MultiThreadGemmContextBase and the pool interface", "internal/multi_thread_gemm.h"), ("GemmWithPackedRhsTask", "internal/multi_thread_gemm.h")],
  ["result matrix, data races"])

p("C24", "Contexts and the 8-bit interface give back what they take",
  "Destroying a context ends every worker thread it started and frees all memory it took, whatever calls and setting changes it saw; releasing the persistent resources of the 8-bit interface does the same for it. "
  "While a context lives, repeating a sequence of calls does not make it hold more memory, nor more threads than its thread limit minus one.",
  ["histories", "resources"],
  "All sequences of calls, thread limits, cache settings and releases, repeated any number of times.",
  "Tests never look at memory or threads after a call.",
  ["internal/multi_thread_gemm.h", "internal/allocator.h", "eight_bit_int_gemm/eight_bit_int_gemm.cc"],
  [("task and worker ownership", "internal/multi_thread_gemm.h"), ("storage growth and release", "internal/allocator.h"), ("global context and scratch", "eight_bit_int_gemm/eight_bit_int_gemm.cc")],
  ["live heap blocks and bytes, number of threads"])

p("C25", "The ARM kernel generators reproduce working kernels",
  "Running the Python generators of the meta library yields a complete set of kernel headers that compile in place of the checked-in ones, and every kernel in them computes what the checked-in one is specified to compute: the quantized, float and integer products, the transforms and the packing of every lane count, leftover and result type, "
  "for every size, parameter and content, touching only the given memory and the registers they declare.",
  ["inputs", "configurations"],
  "All kernels the generators emit for 32- and 64-bit ARM (every shape, lane count, leftover count, layout and result type), all sizes, parameters and data.",
  "No test runs the generators; a change there shows only when somebody regenerates the headers, and then for single leftovers or shapes.",
  ["meta/generators/neon_emitter.py", "meta/generators/neon_emitter_64.py", "meta/generators/quantized_mul_kernels_common.py", "meta/generators/streams_common.py", "meta/generators/transform_kernels_common.py", "meta/generators/cc_emitter.py", "meta/generators/common.py"],
  [("instruction emitters and register allocation", "meta/generators/neon_emitter.py, neon_emitter_64.py"), ("kernel generators", "meta/generators/*_common.py")],
  ["results of the generated kernels"])

p("C26", "The dot-product encoder emits the assembler's machine words",
  "The bundled encoder replaces every dot-product instruction it documents (signed and unsigned, vector and element form, any registers and lane) by a data word that equals the instruction's machine code, keeping the instruction as a comment and every other line as it was. "
  "Encodings already present are verified: a wrong one makes it fail without --fix and is corrected with it, and a right one is left alone.",
  ["inputs"],
  "All instructions, registers, lanes, spacings, surrounding texts and files.",
  "No test runs the encoder; a wrong bit for one register or lane assembles silently into another instruction.",
  ["standalone/encode.py"],
  [("instruction matching and encoding", "standalone/encode.py")],
  ["output text and exit status of the encoder"])

p("C27", "Every kernel of the standalone testbed accumulates exactly",
  "Every kernel of the standalone kernel testbed, run on packed operand blocks in its declared format, adds to each accumulator exactly the product of the corresponding row and column, for every depth that is a multiple of its own, all operands in its declared range (whatever the intermediate 8- and 16-bit sums) and any initial accumulators "
  "(integers modulo 2^32), and writes nothing but its accumulators. This holds for the integer, float and dot-product kernels on 32- and 64-bit ARM and the MIPS MSA ones.",
  ["inputs", "configurations"],
  "All kernels of the testbed, all depths, operand values in range and initial accumulators.",
  "The repository's tests never build the testbed; its own self-test uses one random draw per depth, small initial accumulators and a 10 percent tolerance for floats.",
  ["standalone/neon-gemm-kernel-benchmark.cc"],
  [("kernels", "standalone/neon-gemm-kernel-benchmark.cc")],
  ["accumulators after a kernel ran"])

p("C28", "Optimized kernels honour the kernel contract wherever they are called from",
  "A kernel run on packed blocks in its declared format overwrites (start depth 0) or adds to (any other start depth) each result exactly the product of the corresponding row and column modulo 2^32, for every depth in whole registers, all operands in its range and every column stride, writes nothing else, and disturbs no value of its caller, "
  "whether called through the kernel interface or expanded in place by the compiler, once or several times in a row. This holds for the SSE, AVX2, NEON, dot-product and MSA kernels the library selects and the other ones of each target, at several optimization levels.",
  ["inputs", "configurations"],
  "All kernels, depths, start depths, strides, operand values in range and initial results, and all compilers and optimization levels.",
  "The tests only reach the kernels of the build machine, through a virtual call in a fixed loop at one optimization level.",
  ["internal/kernel.h", "internal/kernel_reference.h", "internal/kernel_sse.h", "internal/kernel_avx.h", "internal/kernel_neon.h", "internal/kernel_msa.h"],
  [("SSE kernels", "internal/kernel_sse.h"), ("AVX2 kernel", "internal/kernel_avx.h"), ("NEON kernels", "internal/kernel_neon.h"), ("MSA kernels", "internal/kernel_msa.h")],
  ["results after one or more kernel calls", "caller's values across a call"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
