"""What each check explores."""
FAULT_PREFIXES = ("fault.", "net.", "restart.", "input.special")

LIB = ["libbinned", "libbinnedblas", "libreproblas", "libbinnedmpi (operators and datatypes)", "all built from /repo's working tree by its own makefiles and generators"]
NET = ["MPI runtime (datatypes, operators, transport) is simulated", "malloc/free served by a simulated heap", "processes are private images of the library's writable data inside one OS process",
       "stable storage for checkpoints", "clock is the event queue's"]

RED = "one run draws a vector, splits it over simulated processes, and executes a reduction under a drawn schedule of chunking, call variant, message loss, duplication, delay, crash and restart; non-trivial: at least two elements over at least two processes"


def red(profile, q, qc, t, tc, variants=None, family="reduce", det=300):
    d = {"family": family, "profile": profile, "quick": {"runs": q, "cap": qc}, "thorough": {"runs": t, "cap": tc}, "det": det}
    if variants:
        d["variants"] = variants
    return d


def check(families, variants, parts, rule, real=None, stub=None, **kw):
    d = {"families": families, "variants": variants, "parts": parts, "rule": rule, "real": real or LIB, "stub": stub or NET,
         "budget": {"quick": 150, "thorough": 3300}}
    d.update(kw)
    return d


DS = ["default", "scalar"]
CHECKS = {
    "C01": check(["reduce"], DS, [red("sum", 400000, 30, 60000000, 2400)], RED, technique="simulated cluster (crashes, restarts, lossy network, random merge trees) refined against an exact integer model of the accumulator"),
    "C02": check(["reduce"], DS, [red("dot", 400000, 30, 60000000, 2400)], RED, technique="simulated cluster refined against an exact integer model of the accumulator of products"),
    "C03": check(["reduce", "findings"], DS, [red("nrm2", 400000, 30, 60000000, 2400)], RED, technique="simulated cluster of scaled accumulators with differing scales refined against an exact model"),
    "C06": check(["thread"], ["default", "scalar", "drawnsse"], [red("calls", 60000, 28, 8000000, 1800, family="thread", det=60), red("mpi", 200000, 17, 20000000, 800, family="thread", det=200)],
                 "one run draws two to four threads with a few calls each (any routine; operator and datatype handles; inputs possibly shared), first calls of a fresh process among them, and executes them under a scheduler that may change threads before every access to the library's shared writable data, lock, allocation and MPI call; non-trivial: at least one preemption",
                 stub=["thread scheduler (one baton; locks, once-guards and yields are simulated)", "malloc/free served by a simulated heap", "MPI runtime is simulated"],
                 technique="simulated thread scheduler with seeded preemption before every shared access, compared with each thread running alone"),
    "C07": check(["reduce", "gemm"], ["default", "drawnavx", "drawnsse", "drawnsisd", "clang"],
                 [red("hetero", 300000, 22, 40000000, 1500), red("gemvhetero", 30000, 7, 4000000, 700, family="gemm", det=100), red("gemmhetero", 30000, 7, 4000000, 700, family="gemm", det=100)],
                 RED + "; each process runs one of several builds: as shipped with gcc and with clang, and SSE2, scalar and AVX builds for different processors (native, x86-64, core2) whose tuning parameters are drawn from the library's own parameter ranges by VERIF_SEED",
                 technique="simulated cluster of nodes running different builds and tunings, compared byte for byte with the model"),
    "C08": check(["reduce"], DS, [red("migrate", 400000, 30, 60000000, 2400)], RED, technique="crash, torn checkpoint, restart and migration of simulated processes, restored state checked against the model"),
    "C11": check(["reduce"], DS, [red("special", 400000, 30, 60000000, 2400)], RED, technique="simulated cluster with non-finite inputs injected, result compared with the order-free verdict"),
    "C04": check(["mpi"], ["default"], [red("collective", 250000, 25, 40000000, 1700, family="mpi"), red("special", 80000, 10, 10000000, 600, family="mpi")],
                 "one run draws a communicator, an operator, a count, per-rank buffers and a collective (reduce, allreduce, scan, exscan, reduce-scatter; flat, chain, binary, binomial, recursive doubling or ring algorithm; segmented; in place or not; operands commuted; ranks on a lossy, slow network) and carries it out step by step with the library's operators; non-trivial: at least two ranks",
                 technique="simulated MPI runtime: seeded choice of reduction algorithm, segmentation, operand order and message faults, checked against the exact model"),
    "C05": check(["mpi"], ["default"], [red("handles", 400000, 20, 40000000, 2000, family="mpi")],
                 "one run draws a history of handle requests over folds and kinds in a fresh process, with MPI calls failing at drawn points and codes, aborting or returning; non-trivial: at least two requests",
                 technique="simulated MPI runtime with injected creation and commit failures, histories of handle requests checked against a cache model"),
    "C10": check(["reduce"], ["default"], [red("all", 400000, 30, 60000000, 2400)], RED, technique="simulated cluster under faults, results compared with an exact fixed-point superaccumulator and the documented bound"),
    "C12": check(["gemm"], ["default", "drawnavx"], [red("gemv", 60000, 22, 8000000, 1500, ["default"], "gemm", 100), red("gemvhetero", 40000, 10, 4000000, 800, None, "gemm", 100)],
                 "one run draws a matrix, vectors, layout, transposition, strides, alpha, beta, and splits rows and inner dimension over simulated processes that crash, restart and exchange partial results; the second part mixes in a build with drawn (small) block sizes; non-trivial: more than one entry and more than one term",
                 technique="simulated cluster computing matrix-vector products, every entry refined against the exact model"),
    "C13": check(["gemm"], ["default", "drawnavx"], [red("gemm", 60000, 22, 8000000, 1500, ["default"], "gemm", 100), red("gemmhetero", 40000, 10, 4000000, 800, None, "gemm", 100)],
                 "one run draws matrices, order, transpositions, leading dimensions, alpha, beta, and splits rows, columns and inner dimension over simulated processes that crash, restart and exchange partial results; the second part mixes in a build with drawn (small) block sizes; non-trivial: more than one entry and more than one term",
                 technique="simulated cluster computing matrix-matrix products, every entry refined against the exact model"),
    "C09": check(["hist"], ["default", "scalar", "drawnavx"], [red("all", 800000, 40, 60000000, 2400, family="hist")],
                 "one run draws a history of up to some tens of operations by several crashing and restarting simulated processes on shared accumulators in packed and strided layouts; after each operation the touched accumulator must equal the abstract one and every other byte be unchanged; non-trivial: at least three operations",
                 technique="simulated histories of client operations with crashes, refined step by step against an abstract accumulator"),
    "C14": check(["mem"], ["default", "scalar", "drawnsse"], [red("hygiene", 400000, 35, 40000000, 2400, family="mem")],
                 "one run draws a call of any public routine and executes it in several simulated memory environments: arrays flush against unreadable pages, read-only inputs, different garbage in gaps, fresh heap and stack, cold and warm library; non-trivial: a call over at least one element",
                 stub=["malloc/free served by a simulated heap", "memory layout and protection decided by the simulator", "MPI runtime is simulated (unused here)"],
                 technique="simulated memory environment: page protection, garbage in fresh memory and placement drawn per run, outcomes compared across environments"),
    "C19": check(["env"], ["default", "scalar", "drawnsse"], [red("all", 4000000, 40, 100000000, 2400, family="env")],
                 "one run draws numbers (ordinary ones and subnormals) and a history of library calls on two accumulators, and carries it out twice, once with the processor's flush-to-zero and denormals-are-zero modes switched between calls; non-trivial: at least one comparison of an accumulator that is reported free of subnormal bits",
                 stub=["malloc/free served by a simulated heap", "MPI runtime is simulated (unused here)"],
                 technique="the processor's subnormal modes injected per call as environment faults into simulated histories, compared with the undisturbed history"),
    "C20": check(["amax"], ["default", "scalar", "drawnsse", "drawnavx"], [red("all", 2000000, 40, 100000000, 2400, family="amax")],
                 "one run draws one or two vectors with infinities in the gaps between their elements and a partition into parts, has processes on different builds answer parts in a drawn order while they crash, restart elsewhere and redo work, and combines the answers a faulty network delivers; non-trivial: at least two elements in at least two parts",
                 technique="simulated cluster of nodes running different builds under message and crash faults, every answer and the combined one compared with the exact maximum"),
    "C21": check(["reduce"], DS, [red("bound", 400000, 30, 60000000, 2400)], RED + "; at the end the library's bound is asked on a drawn node", technique="simulated cluster under faults, the library's own error bound compared with the exact error of each execution"),
    "C15": check(["mem"], ["default", "drawnsse"], [red("oom", 400000, 30, 40000000, 2400, family="mem")],
                 "one run draws a call of any public routine that allocates and fails a drawn allocation, or it and all later ones; the call must stop the process visibly or be right; non-trivial: an allocation was made to fail",
                 stub=["malloc/free served by a simulated heap with drawn failures", "MPI runtime is simulated (unused here)"],
                 technique="failing allocations injected into every allocating call, the outcome compared with the undisturbed one"),
}
GEN = ["scripts/cogapp (parser, generator, file handling, exit status)", "CPython's I/O stack and the kernel's file system below a scratch directory"]
GSTUB = ["every file operation of a generator process is decided by the scheduler through a preloaded library", "process id, clock and randomness are simulated",
         "a crash is the death of the process (completed writes survive; no power loss)", "interpreter shutdown is imitated (exit handlers, unreferenced files, flush of the standard streams)"]
GSTATE = "distinct 64-bit hashes of the directory's contents (C16), of the templates with their sections (C17), of the generated texts (C18) at the end of a run"


def gen(family, q, qc, t, tc, det=60):
    return red("all", q, qc, t, tc, family=family, det=det)


CHECKS.update({
    "C16": check([], [], [gen("gen-fault", 8000, 60, 600000, 3000)],
                 "one run draws templates, options and a job (make-like -o processes, side by side or in turn; in place; over its own input; lists; standard output), runs it undisturbed, then with drawn faults at drawn file operations, checks every file before every operation, and runs it again; non-trivial: a fault took effect or a generator failed",
                 real=GEN, stub=GSTUB, engine="py", state_rule=GSTATE,
                 technique="simulated generator processes with failing, short, torn and lost file operations, crashes and interrupts at drawn points, old-or-new checked before every operation"),
    "C17": check([], [], [gen("gen-sum", 12000, 55, 1000000, 3000)],
                 "one run draws templates and a history of generations with checksums, hand edits and torn writes in generated sections, edits elsewhere, changed definitions and disturbed generations; after every generation each file must be refused or hold the text the model predicts; non-trivial: an edit or at least two generations",
                 real=GEN, stub=GSTUB, engine="py", state_rule=GSTATE,
                 technique="simulated histories of generations, edits, torn writes and faults, refined step by step against a model of protected sections"),
    "C18": check([], [], [gen("gen-group", 5000, 40, 500000, 1600), gen("gen-repo", 900, 25, 100000, 1000, det=24), gen("gen-registry", 300, 12, 20000, 400, det=16)],
                 "one run generates templates (synthetic ones; the repository's own with shipped and drawn tuning parameters) each alone and then in a drawn order in one process, interleaved in several, or again in place, under other process ids, clocks and random states, in workers with eight hash seeds; the third part builds the parameter registry in drawn orders; non-trivial: at least two templates",
                 real=GEN + ["the repository's templates, src/gen and the parameter files"], stub=GSTUB, engine="py", repo=True, state_rule=GSTATE,
                 technique="simulated orders, groupings and interleavings of generator processes compared with each template generated alone"),
})
