"""Which units decide which property, and with how many cases per tier."""
from driver import REPO, Check, Unit

ALL = ["ref", "sse4", "avx2", "aarch64", "dotprod", "armhf", "mips64", "x86_32", "rel_sse4"]
ASSUME = ["64-bit x86 configurations run natively, ARM, MIPS and 32-bit x86 ones under qemu-user 8 (its NEON, dotprod, MSA and "
          "SSE emulation is trusted)",
          "every matrix, also when packed (both dimensions padded to the kernel's block size), has fewer than 2^31 elements",
          "MIPS (MSA), 32-bit x86 and WebAssembly run one thread only, on a small run-time of our own because no C library for them is "
          "installed; WebAssembly only has SIMD code of its own in fixedpoint/"]
ARM = ["aarch64", "armhf"]
CHECKS = {}


def prop(fn):
    CHECKS[fn.__name__] = fn
    return fn


def get(pid):
    return CHECKS[pid]()


def scale(n, cfg):
    """Case counts: (quick, thorough) for a native config, less under emulation."""
    q, t = n
    slow = {"aarch64": 0.35, "dotprod": 0.2, "armhf": 0.3, "mips64": 0.25, "wasm": 0.5, "x86_32": 0.3, "rel_sse4": 0.5}.get(cfg, 1.0)
    if cfg.startswith(("asan", "tsan", "ubsan")):
        slow = 0.3
    return (int(q * slow), int(t * slow))


GEMM_RULE = ("Each case draws, from a choice tape: a shape class (tiny, small, kernel-edge, matrix*vector, "
             "vector*matrix, medium, deep, thin, large) and shape, the three storage orders, strides, operand "
             "patterns, offsets, thread limit and cache tuning. ")
NT_GEMM = ("Non-trivial: depth > 1 and more than 4 rows or columns, and no case whose exact result leaves int32. "
           "Distinct = distinct choice tapes per configuration.")
NOTE = ("Bounded random exploration: no violation among the generated cases (counts in the evidence); the oracle is an "
        "independent exact model in the harness. Trusted: compilers, qemu-user for ARM, the oracle. ")
NOT_CLAIMED = {}


@prop
def C01():
    us = [Unit("exact.cc", c, parts=[0, 1, 2, 3, 4], cases={"exact": scale((12000, 200000), c)}) for c in ALL]
    for u in us[:3]:
        u.cases["huge"] = (9, 120, 3)
    for u in us:
        if u.config in ("ref", "sse4", "avx2", "aarch64", "dotprod"):
            u.cases["sparse"] = (400, 8000, 1)
    return Check("C01", us, GEMM_RULE + NT_GEMM,
                 "generated shapes, layouts, values and operand ranges vs exact 64-bit product model, per ISA build",
                 NOTE, ASSUME)


@prop
def C02():
    us = [Unit("exact.cc", c, name="channel." + c, parts=[0, 1, 2, 3, 4], defs=["-DCHANNEL"],
               cases={"exact": scale((12000, 200000), c)}) for c in ALL]
    return Check("C02", us, GEMM_RULE + "Offsets are per-row / per-column vectors or repeated constants. " + NT_GEMM,
                 "generated per-channel offset vectors vs exact 64-bit product model, per ISA build", NOTE, ASSUME)


PIPE_RULE = ("Each case draws an output pipeline, its parameters, a shape class and shape, result order and stride, "
             "operand patterns, and steers accumulators (through an injected bias) to outputs near zero, the saturation "
             "limits, rounding ties and int32 extremes; entries whose documented arithmetic would overflow are not compared. "
             "Non-trivial: at least 8 entries compared with at least 3 distinct results. Distinct = distinct choice tapes "
             "per configuration.")


@prop
def C03():
    us = [Unit("pipeline.cc", c, parts=[0, 1, 2, 3, 4, 5, 6], cases={"pipeline": scale((8000, 150000), c)})
          for c in ALL if c != "dotprod"]
    return Check("C03", us, PIPE_RULE, "steered accumulators x generated stage parameters vs interval model of each stage",
                 NOTE, ASSUME)


@prop
def C04():
    us = [Unit("pipeline.cc", c, name="positional." + c, parts=[0, 7, 8, 9, 10], defs=["-DPOSITIONAL"],
               cases={"pipeline": scale((8000, 150000), c)}) for c in ALL if c != "dotprod"]
    return Check("C04", us, PIPE_RULE, "generated bias / per-channel vectors x shapes vs row- and column-indexed model",
                 NOTE, ASSUME)


@prop
def C10():
    us = [Unit("pool.cc", "ref", cases={"pool": (1500, 20000, 4), "counter": (1000, 12000, 2), "slow": (32, 400, 8), "long": (60, 900, 4)}),
          Unit("pool.cc", "tsan_ref", cases={"pool": (400, 8000, 4), "counter": (250, 4000, 2), "long": (16, 300, 4)}),
          Unit("pool.cc", "asan_ref", cases={"pool": (400, 6000, 4), "counter": (200, 2000, 2), "long": (16, 300, 4)}),
          Unit("pool.cc", "rel_ref", cases={"pool": (500, 8000, 4), "counter": (300, 4000, 2), "long": (30, 300, 4)}),
          Unit("pool.cc", "nobusy_ref", cases={"pool": (300, 6000, 4), "counter": (200, 2000, 2), "slow": (8, 100, 8), "long": (20, 300, 4)}),
          Unit("pool.cc", "cxxthreads_ref", cases={"pool": (500, 8000, 4), "counter": (300, 4000, 2), "slow": (8, 100, 8), "long": (30, 300, 4)}),
          Unit("pool.cc", "cxxthreads_tsan_ref", cases={"pool": (200, 4000, 4), "counter": (100, 2000, 2), "long": (8, 100, 4)}),
          Unit("pool.cc", "aarch64", cases={"pool": (40, 600, 4), "counter": (40, 300, 2)})]
    return Check("C10", us, "Each case is a history of task batches (sizes, durations, scratch use) on one or two pools that "
                 "grow, are reused and recreated, or a sequence of countdown rounds by several threads, or "
                 "batches with a task that takes up to 3 s and idle periods, or hundreds of short batches. Non-trivial: at "
                 "least one batch with 2+ tasks (2+ threads). Distinct = distinct choice tapes per configuration.",
                 "stateful histories of task batches with execution counters; data races via ThreadSanitizer builds",
                 NOTE + "Thread interleavings are sampled by the OS scheduler and generated delays, not enumerated.", ASSUME)


@prop
def C11():
    us = [Unit("alloc.cc", c, cases=dict({"alloc": n, "long": (n[0] // 20, n[1] // 20)},
                                         **({"giant": (n[0] // 20, n[1] // 60, 1)} if c in ("ref", "asan_ref") else {}))) for c, n in
          (("ref", (4000, 60000)), ("asan_ref", (2000, 30000)), ("nobusy_ref", (1000, 10000)), ("rel_ref", (1000, 20000)), ("armhf", (300, 3000)), ("aarch64", (300, 3000)))]
    return Check("C11", us, "Each case is a history of up to 12 (sometimes hundreds of) generations on one or two allocators, each with 0..5 blocks of "
                 "generated element types and sizes (zero, small, around powers of two, up to 4 MB, sometimes several GiB); all bytes (of the giant ones, a sample) are stamped and "
                 "verified. Non-trivial: at least 2 generations and 2 non-empty blocks.",
                 "stateful allocation histories vs model of live blocks; AddressSanitizer build", NOTE, ASSUME)


@prop
def C19():
    us = [Unit("views.cc", c, cases={"views": n}) for c, n in (("ref", (20000, 400000)), ("asan_ref", (5000, 50000)), ("armhf", (1500, 20000)), ("mips64", (3000, 40000)))]
    return Check("C19", us, "Each case is a program of up to 5 nested block operations on a matrix or vector view of generated "
                 "order, size, stride and element type; every address of every intermediate view is compared. Non-trivial: at "
                 "least one block operation.", "generated view programs vs address model", NOTE, ASSUME)


@prop
def C20():
    us = [Unit("formats.cc", c, parts=[0, 1, 2, 3, 4, 5], cases={"formats": n}) for c, n in
          (("ref", (20000, 300000)), ("sse4", (15000, 200000)), ("avx2", (10000, 150000)), ("aarch64", (4000, 50000)), ("asan_ref", (4000, 60000)),
           ("mips64", (3000, 40000)))]
    return Check("C20", us, GEMM_RULE + "Kernels are reference kernels over 20 block formats (cell widths 1..24, depths 1..16, "
                 "depth-major, width-major and diagonal cells, 1..5 cells per side, cells of 1..384 elements). " + NT_GEMM,
                 "generated shapes x kernel formats vs exact 64-bit product model", NOTE, ASSUME)


EB = ["eight_bit_int_gemm/eight_bit_int_gemm.cc"]
EB_RULE = GEMM_RULE + ("Transpose flags, leading dimensions, bit depth setting, and offset / multiplier / shift chosen so that "
                       "results spread over 0..255 and its limits without overflowing the documented arithmetic. ")


@prop
def C07():
    us = [Unit("ebig.cc", c, extra_src=EB, cases={"q8": scale((15000, 250000), c)}) for c in ALL]
    for u in us:
        if u.config in ("ref", "sse4", "avx2", "aarch64"):
            u.cases["q8_sparse"] = (400, 8000, 1)
    return Check("C07", us, EB_RULE + NT_GEMM, "generated calls of the 8-bit entry point vs exact formula model; guard pages and "
                 "snapshots around all buffers", NOTE, ASSUME)


@prop
def C08():
    us = [Unit("ebig.cc", c, name="float." + c, extra_src=EB, cases={"float": scale((15000, 250000), c)}) for c in ALL]
    for u in us:
        if u.config in ("ref", "sse4", "avx2", "aarch64"):
            u.cases["float_sparse"] = (400, 8000, 1)
    return Check("C08", us, EB_RULE + NT_GEMM, "generated calls of the float entry point vs exact sum times scale; guard pages "
                 "and snapshots around all buffers", NOTE, ASSUME)


@prop
def C09():
    us = [Unit("ebig.cc", c, name="history." + c, extra_src=EB, cases={"history": n, "long": (n[0] // 25, n[1] // 25, 4)}) for c, n in
          (("ref", (1200, 20000, 4)), ("sse4", (1200, 20000, 4)), ("avx2", (1200, 20000, 4)), ("aarch64", (300, 4000, 4)), ("armhf", (300, 4000, 4)),
           ("tsan_sse4", (300, 5000, 4)), ("asan_sse4", (300, 5000, 4)), ("cxxthreads_sse4", (300, 5000, 4)))]
    return Check("C09", us, "Each case is 1..5 application threads, each with a history of calls (both entry points), thread-limit "
                 "changes, releases and pauses, or one long history of hundreds of operations. Non-trivial: at least 2 calls and 1 state operation.",
                 "stateful concurrent histories of calls and state changes vs exact model; ThreadSanitizer and AddressSanitizer builds",
                 NOTE + "Thread interleavings are sampled by the OS scheduler, not enumerated.", ASSUME)


@prop
def C05():
    us = [Unit("history.cc", c, parts=[0, 1, 2], cases={"history": n, "long": (n[0] // 12, n[1] // 12, 4)}) for c, n in
          (("ref", (400, 6000, 8)), ("sse4", (1000, 15000, 8)), ("avx2", (800, 12000, 8)), ("aarch64", (150, 2500, 8)), ("armhf", (150, 2500, 8)),
           ("dotprod", (100, 1500, 8)), ("tsan_sse4", (150, 2500, 8)), ("tsan_avx2", (100, 1500, 8)), ("rel_sse4", (400, 6000, 8)),
           ("cxxthreads_sse4", (300, 4000, 8)))]
    return Check("C05", us, "Each case is a history of 1..14 (sometimes hundreds of) multiplications (6 variants of operand range, layout, offsets and output), "
                 "repeated calls and setting changes (thread limit, cache sizes, right-side share) on one context, or 2..4 such "
                 "histories on distinct contexts concurrently. Non-trivial: at least 2 calls and one setting change.",
                 "stateful histories of calls and setting changes, concurrent contexts, vs exact model; ThreadSanitizer builds",
                 NOTE + "Thread interleavings are sampled by the OS scheduler, not enumerated.", ASSUME)


@prop
def C06():
    us = [Unit("memory.cc", c, parts=[0, 1, 2, 3, 4, 5], cases={"memory": scale((10000, 150000), c)})
          for c in ["ref", "sse4", "avx2", "aarch64", "armhf", "mips64", "x86_32", "rel_sse4", "asan_ref", "asan_sse4", "asan_avx2"]]
    return Check("C06", us, GEMM_RULE + "Buffers end or start at inaccessible pages, operands are read-only, each case runs twice "
                 "with different junk in the padding and result; in AddressSanitizer builds all padding is poisoned. " + NT_GEMM,
                 "generated strided buffers between guard pages, read-only operands, snapshots of padding, differential runs with "
                 "different junk; AddressSanitizer with poisoned padding", NOTE, ASSUME)


FX_CFG = ["ref", "sse4", "avx2", "aarch64", "armhf", "mips64", "wasm", "x86_32", "clang_sse4", "clang_avx2", "rel_ref", "rel_avx2"]


@prop
def C12():
    us = [Unit("fixedpoint.cc", c, defs=["-DONLY=12"], cases={"prim": scale((40000, 800000), c)}) for c in FX_CFG]
    return Check("C12", us, "Each case draws a primitive, a raw type (scalar or SIMD, 32 or 16 bit), a shift, and one or 200 vectors whose "
                 "lanes are biased to zero, the extremes, neighbours and halves of powers of two, equal operands, and uniform values. "
                 "Inputs whose result the documentation leaves undefined are not generated. Every case is non-trivial.",
                 "generated operands for every primitive, lane by lane, vs exact 64-bit integer model", NOTE, ASSUME)


@prop
def C13():
    us = [Unit("fixedpoint.cc", c, name="func." + c, defs=["-DONLY=13"], cases={"func": scale((16000, 400000), c)}) for c in FX_CFG]
    return Check("C13", us, "Each case draws a function, an input format (0..9, 12, 20 or 28 integer bits), a raw type, and one vector, 256 biased vectors, "
                 "a run of consecutive inputs, or (16 bit) every input. Every case is non-trivial.",
                 "generated and consecutive inputs vs double-precision functions, metamorphic symmetries, and scalar/SIMD differential", NOTE, ASSUME)


@prop
def C14():
    us = [Unit("fixedpoint.cc", c, name="class." + c, defs=["-DONLY=14"], cases={"class": scale((40000, 800000), c)}) for c in FX_CFG]
    return Check("C14", us, "Each case draws a pair of formats, an operation and a raw type, and one or 100 vectors of biased lanes. Every case "
                 "is non-trivial.", "generated operands for every FixedPoint operation vs exact model of the represented values", NOTE, ASSUME)


META_NOTE = ("The meta code exists for ARM only: it is cross compiled for aarch64 and armhf and run under qemu user emulation. "
             "Scratch memory is 32-byte aligned, as the library's own caller aligns it.")


@prop
def C15():
    us = []
    for c in ARM:
        us.append(Unit("meta_gemm.cc", c, name="legacy." + c, defs=["-DLEGACY"], cases={"legacy": (2500, 60000)}))
        us.append(Unit("meta_gemm.cc", c, name="modern." + c, parts=[0, 1, 2, 3, 4, 5], cases={"modern": (3000, 80000)}))
    us.append(Unit("metasplit.cc", "asan_ref", flags=["-O0"], optional=True, cases={"split": (300, 6000)}))
    return Check("C15", us, "Each case draws a result type (8 bit, float, int32), an interface (legacy GEMM/GEMV or templated executor, layout, "
                 "kernel shape), dimensions from classes that cover every leftover residue, depths up to 2048, and widths that cross the cache "
                 "and task splits, strides, offsets, output parameters, and 1 to 8 threads; scratch is exactly as large as the library asks "
                 "for and every buffer lies between inaccessible pages. Every case is non-trivial.",
                 "generated multiplications vs exact 64-bit model, with guarded buffers", META_NOTE, ASSUME)


@prop
def C16():
    us = [Unit("meta_misc.cc", c, name="transform." + c, defs=["-DTRANSFORM"], cases={"transform": (16000, 300000)}) for c in ARM]
    return Check("C16", us, "Each case draws one of the five transforms, a length (every residue modulo the kernel size; long enough to be split "
                 "over tasks), range parameters, single- or multi-threaded entry, and element values that include range ends and values "
                 "outside the range, in guarded memory. Every case is non-trivial.",
                 "generated arrays vs double-precision element model with float-error slack, guarded buffers", META_NOTE, ASSUME)


@prop
def C17():
    us = [Unit("meta_misc.cc", c, name="pack." + c, cases={"pack": (24000, 500000)}) for c in ARM]
    return Check("C17", us, "Each case draws a layout, 1 to 8 lanes, a length up to 2048 (every residue modulo 8), a stride, sum parameters and "
                 "data; source and packed block lie between inaccessible pages. Every case is non-trivial.",
                 "generated blocks vs direct model of the interleaved layout and sums", META_NOTE, ASSUME)


@prop
def C18():
    us = []
    for c in ARM:
        us.append(Unit("ebig.cc", c, name="fast." + c, defs=["-DFASTPATH", "-DGEMMLOWP_USE_META_FASTPATH"],
                       extra_src=["eight_bit_int_gemm/eight_bit_int_gemm.cc"], cases={"q8": (3000, 60000), "float": (3000, 60000), "history": (250, 5000)}))
    return Check("C18", us, EB_RULE + " The generator leans toward shapes, layouts and depths at the edges of what the fast path accepts.",
                 "generated calls with the fast path compiled in vs the exact model the ordinary path is checked against", META_NOTE, ASSUME)


@prop
def C21():
    us = [Unit("profile.cc", c, name="profile." + c, defs=["-DGEMMLOWP_PROFILING"], cases={"profile": a, "churn": b}) for c, a, b in
          (("ref", (250, 4000), (100, 1500)), ("sse4", (250, 4000), (100, 1500)), ("asan_sse4", (120, 2000), (16, 300)),
           ("tsan_sse4", (120, 2000), (16, 200)))]
    return Check("C21", us, "Each case is a history of profiler starts and stops, multiplications, thread registrations and exits, with nested "
                 "labels on 1..6 threads; the printed trees are parsed. Non-trivial: at least one profile was printed and at least "
                 "one idle-state count of threads or paths was compared exactly, or at least two registered threads lived and exited.",
                 "stateful histories of profiled work vs model of live threads and label paths, and differential against an exact "
                 "product; ThreadSanitizer and AddressSanitizer builds",
                 NOTE + "Sampling instants are chosen by the OS scheduler.", ASSUME)


@prop
def C22():
    us = [Unit("quant.cc", c, name="quant." + c, flags=["-fpermissive"], cases={"params": scale((20000, 600000), c), "product": scale((6000, 120000), c),
                                                                                "example": (6, 40)}) for c in ("ref", "sse4", "avx2", "aarch64")]
    return Check("C22", us, "Each case draws real ranges (around zero, one-sided, tiny, huge, degenerate) or real multipliers, or real matrices with such "
                 "ranges, shapes and orders, run through the worked example of the documentation. Non-trivial: the range is not a point; the product has at least 3 "
                 "distinct results.",
                 "generated real ranges and matrices vs double-precision model of the quantization scheme", NOTE, ASSUME)


@prop
def C23():
    us = [Unit("history.cc", c, name="apppool." + c, parts=[0, 1, 2], defs=["-DCUSTOMPOOL"], cases={"history": n}) for c, n in
          (("ref", (400, 6000, 8)), ("sse4", (1000, 15000, 8)), ("avx2", (800, 12000, 8)), ("aarch64", (120, 2000, 8)), ("armhf", (120, 2000, 8)),
           ("tsan_sse4", (200, 2500, 8)), ("asan_sse4", (200, 2500, 8)))]
    return Check("C23", us, "Each case is a history of multiplications (6 variants), setting changes and changes of pool behaviour on one context, or on "
                 "2..4 contexts concurrently, whose worker pool is an application's own: tasks run in submission, reverse or random order on the "
                 "calling thread, one thread per task, a few threads that share the tasks, or a library pool shared by all contexts, with "
                 "new or reused scratch allocators. Non-trivial: the application's pool received at least one batch.",
                 "stateful histories under generated task schedules vs exact model; ThreadSanitizer and AddressSanitizer builds",
                 NOTE + "Orders on one thread are chosen by the generator; real-thread interleavings are sampled.", ASSUME)


@prop
def C24():
    us = []
    for c, n in (("ref", (150, 3000, 4)), ("sse4", (300, 6000, 8)), ("avx2", (300, 6000, 8)), ("aarch64", (40, 800, 8)), ("armhf", (40, 800, 8)), ("cxxthreads_sse4", (150, 3000, 8))):
        us.append(Unit("history.cc", c, name="context." + c, parts=[0, 1, 2], defs=["-DLEAK"], cases={"leak": n}))
        fast = ["-DFASTPATH", "-DGEMMLOWP_USE_META_FASTPATH"] if c in ARM else []
        us.append(Unit("ebig.cc", c, name="release." + c, defs=["-DLEAK"] + fast, extra_src=EB, cases={"leak": n}))
    return Check("C24", us, "Each case is a sequence of calls and setting changes run 8 times, on 8 contexts that are destroyed, on one context that lives, or "
                 "through the 8-bit interface with or without a release after each round. Live heap blocks and bytes of the process are "
                 "counted after every round by standing in for the C allocator, and threads by asking the kernel (not under emulation). "
                 "Non-trivial: at least one multiplication.",
                 "repeated generated histories vs invariant: no growth from round to round, no thread left; results vs exact model",
                 NOTE + "Growth means more after every one of 7 rounds; a leak that happens only once in a process would not be seen.", ASSUME)


@prop
def C25():
    us = []
    for c in ARM:
        us.append(Unit("meta_gemm.cc", c, name="gen_legacy." + c, defs=["-DLEGACY"], cases={"legacy": (1200, 30000)}, generated=True))
        us.append(Unit("meta_gemm.cc", c, name="gen_modern." + c, parts=[0, 1, 2, 3, 4, 5], cases={"modern": (3000, 60000)}, generated=True))
        us.append(Unit("meta_misc.cc", c, name="gen_transform." + c, defs=["-DTRANSFORM"], cases={"transform": (12000, 200000)}, generated=True))
        us.append(Unit("meta_misc.cc", c, name="gen_pack." + c, cases={"pack": (16000, 300000)}, generated=True))
    return Check("C25", us, "The six kernel headers are generated anew from the working tree's generators and compiled in place of the checked-in ones; "
                 "then cases as for multiplication, transforms and packing: kernel shapes, lane counts, every leftover residue, depths up to "
                 "2048, result types, parameters and data, in guarded memory. Every case is non-trivial.",
                 "generated kernels run on generated inputs vs exact product, element-wise and layout models",
                 META_NOTE + " The generators are Python 2; they run under Python 3 with integer division and the like adapted on the fly "
                 "(lib/py2run.py).", ASSUME)


@prop
def C26():
    us = [Unit("encode.cc", "ref", defs=['-DENCODE="%s"' % (REPO + "/standalone/encode.py")], cases={"encode": (700, 20000)})]
    return Check("C26", us, "Each case is a file of 1 to 60 lines: dot-product instructions of both forms and signs with any registers, lane and "
                 "spacing, inside or outside string literals, some already encoded rightly or with one or two bits wrong, among lines that "
                 "are none of the encoder's business; with or without --fix. Non-trivial: at least one instruction to encode.",
                 "generated source files vs machine words from the GNU assembler", "Only spellings both the encoder and the GNU assembler take.", ASSUME)


@prop
def C27():
    us = [Unit("kernels.cc", c, cases={"kernels": n}) for c, n in
          (("aarch64", (20000, 400000)), ("dotprod", (20000, 400000)), ("armhf", (20000, 400000)), ("mips64", (6000, 120000)))]
    return Check("C27", us, "One kernel of the standalone testbed per case, any depth up to 9000 that is a multiple of its own, operands anywhere in "
                 "the kernel's range (random, all extreme, sparse, single elements), initial accumulators zero, small, random or at the int32 limits. "
                 "Float operands are small multiples of 1/2, so that every order of summation is exact. Non-trivial: more than one depth step.",
                 "generated packed blocks vs exact product in the documented block format", "The testbed is ARM and MIPS only: run under qemu. "
                 "Reads ahead of the packed blocks are allowed, as the testbed allows them.", ASSUME)


@prop
def C28():
    us = [Unit("kernel_run.cc", c, name="kernel_run." + c + o, flags=["-" + o], cases={"run": n}) for c, o, n in
          (("ref", "O2", (5000, 100000)), ("sse4", "O1", (10000, 200000)), ("sse4", "O3", (10000, 200000)), ("clang_sse4", "O2", (10000, 200000)),
           ("avx2", "O1", (10000, 200000)), ("avx2", "O3", (10000, 200000)), ("clang_avx2", "O2", (10000, 200000)),
           ("aarch64", "O1", (6000, 120000)), ("aarch64", "O3", (8000, 160000)), ("dotprod", "O3", (8000, 160000)),
           ("armhf", "O1", (6000, 120000)), ("armhf", "O3", (8000, 160000)), ("mips64", "O1", (4000, 60000)), ("mips64", "O3", (4000, 60000)),
           ("x86_32", "O1", (4000, 60000)), ("x86_32", "O3", (4000, 60000)))]
    return Check("C28", us, "One kernel per case (those the library selects for each kind of operand, and the others of the target), on one to three right-hand "
                 "blocks in a row, called through the base class or expanded in place between live floating-point and integer values; depth up to 9000 in "
                 "whole registers, start depth zero or not, column stride, operands anywhere in range (random, all extreme, sparse, single elements), any "
                 "initial results. Non-trivial: more than one depth step.",
                 "generated packed blocks vs exact product in the documented block format", NOTE + "Reading ahead of the packed blocks is allowed.", ASSUME)
