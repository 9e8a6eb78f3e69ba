"""The properties, in the order of their weight. meta.py writes properties.jsonl from this."""


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
            "anchors": {"files": list(files), "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": None}}


ACC = ("binned accumulator", "fold primary words and fold carry words; which bins they stand for is implied by the top primary word", "src/binned/dmdadd.c and siblings")
PROPS = [
    P("C01", "Sums and absolute sums do not depend on how the work was executed",
      "For real and complex, single and double precision, the binned sum (and sum of absolute values) of a multiset of finite numbers, and the floating-point result converted from it, are the same bits however the numbers were ordered, strided, split into calls and chunks, spread over processes, added through any of the public accumulation routines (whole vectors, single elements, update/deposit/renormalise by hand, packed or strided accumulators, the one-shot functions) and merged in any tree. The normalised accumulator itself is the one canonical representation that the multiset and the fold determine.",
      ["inputs", "schedules", "histories"], "every finite input multiset up to a few thousand elements, every fold, every chunking, order, stride, call variant, process layout and merge tree, including message duplication, loss, delay and crash/restart of the processes doing the work",
      "tests/checks fix a few fills, permute a single vector and always use the same call; interleavings of routines, block boundaries, shard layouts, merge trees and deep folds are not reached",
      ["src/binnedBLAS/*sum.ccog", "src/reproBLAS/*sum*.c", "src/binned/*add.c", "src/binned/*update.c", "src/binned/*deposit.c", "src/binned/*renorm.c", "src/gen"],
      [("bins with fixed boundaries; update raises the top bin, deposit slices each value", "src/binned/dmdupdate.c, dmddeposit.c, src/gen/deposit.py"), ("carry propagation before the endurance is used up", "src/binned/dmrenorm.c, src/gen/blockstrategy"), ("merge aligns bins and drops those below the last", "src/binned/dmdmadd.c")], [ACC],
      ["accumulator bytes after every chunk and merge", "converted result", "one-shot result"]),
    P("C02", "Dot products do not depend on how the work was executed",
      "For real and complex (conjugated or not), single and double precision, the binned dot product of two vectors of finite numbers whose products are finite, and the result converted from it, are the same bits however the index set was ordered, strided, split into calls and chunks, spread over processes and merged, and whichever public route (vector kernels, packed or strided accumulators, element products added one by one, one-shot functions) produced it. The normalised accumulator is the canonical one for the multiset of rounded products.",
      ["inputs", "schedules", "histories"], "every pair of input vectors up to a few thousand elements, every fold, chunking, order, stride pair, route, process layout and merge tree, under message faults and crashes",
      "tests use fixed fills and one call each; block sizes against the endurance, mixed routes and distributed execution are never combined",
      ["src/binnedBLAS/*dot*.ccog", "src/reproBLAS/*dot*.c", "src/gen/dotOrder*.py"],
      [("vector kernels accumulate products into the bins", "src/binnedBLAS/dmddot.ccog and siblings"), ("block size bounded by the endurance", "src/gen/generate.py, *.ccog block strategies")], [ACC],
      ["accumulator bytes after every chunk and merge", "converted result", "one-shot result"]),
    P("C03", "Norms do not depend on how the work was executed",
      "The scaled binned sum of squares of a multiset of finite real or complex numbers (its scale and its normalised accumulator) and the 2-norm computed from it are the same however the numbers were ordered, strided, split into chunks, spread over processes and merged, also when partial results with different scales meet. The scale is the one the largest magnitude implies.",
      ["inputs", "schedules", "histories"], "every finite input multiset up to a few thousand elements over the whole exponent range, every fold (known finding: above 24 in double and 8 in single precision the lowest bins fail it), every chunking, order, stride, route, process layout and merge tree, under message faults and crashes",
      "tests keep all chunks on similar scales; merging partial results whose scales differ, in every order, with deep folds and denormals is not exercised",
      ["src/binnedBLAS/*ssq.ccog", "src/binned/*addsq.c", "src/binned/*rescale.c", "src/binned/*scale.c", "src/reproBLAS/*nrm2*.c"],
      [("scale is a power of the bin width, so rescaling moves bins exactly", "src/binned/dmdrescale.c, dscale.c"), ("merge rescales the smaller side", "src/binned/dmdmaddsq.c")],
      [ACC, ("scale", "power-of-two divisor applied before squaring", "first word of a scaled payload")], ["scale and accumulator bytes after every chunk and merge", "norm"]),
    P("C04", "MPI reductions agree with the serial result under any algorithm",
      "Reducing binned values with the provided MPI operators and datatypes gives every receiving process exactly the accumulator one serial accumulation of all contributions gives, for every supported fold, real, complex and scaled types, any element count, and any legal MPI algorithm: any reduction tree, commuted operands, segmented or pipelined buffers, in-place or separate buffers, all-reduce, scan and reduce-scatter. Source operands are never modified, every element of a buffer is combined, and the datatype's size is the size of the value.",
      ["schedules", "inputs", "configurations"], "every fold the types support, every element count, every reduction algorithm, rank count, arrival order and segmentation that MPI may choose",
      "the repository's only MPI coverage is one example; the MPI library's algorithm choice depends on rank count, message size and arrival order that one run cannot vary",
      ["src/binnedMPI/*.c", "src/binned/*addv.c", "src/binned/*addsq*.c", "include/binnedMPI.h"],
      [("user-defined MPI operators per fold", "src/binnedMPI/*ADD.c"), ("contiguous datatypes per fold", "src/binnedMPI/*_BINNED*.c")], [ACC], ["receive buffers of every simulated rank", "operand buffers"]),
    P("C05", "MPI handles are created once, stay valid, and failures are reported",
      "Asking for an operator or datatype any number of times and in any order returns one and the same usable (committed, correctly sized, commutative) handle per fold and kind, and distinct handles for distinct folds and kinds. If MPI fails to create one, the library reports it by aborting the MPI job and never hands out an invalid, half-initialised or wrong-size handle as if it were good, nor remembers the failed one.",
      ["fault_sequences", "histories", "configurations"], "every sequence of handle requests over all folds and kinds, every MPI creation or commit call failing with every error code, aborting or (with a stubborn MPI) returning",
      "no test calls these functions more than once or with a failing MPI",
      ["src/binnedMPI/*.c"], [("per-fold cache of handles", "src/binnedMPI/*.c"), ("error paths call the abort routine of MPI", "src/binnedMPI/*.c")], [("handle caches", "static arrays indexed by fold", "src/binnedMPI/*.c")], ["returned handles", "MPI call log"]),
    P("C06", "Concurrent callers get the sequential results",
      "Threads that use the library at the same time on their own data (or read shared input) get exactly the results each would get alone, however the threads are scheduled, including when their calls are the first ones in the process. Shared lazily-built tables and caches are never observed half-built.",
      ["schedules"], "every interleaving of two to four threads making first and later calls of any routine, at the granularity of single stores to the library's shared data",
      "the tests are single-threaded", ["src/binned/dmbins.c", "src/binned/smbins.c", "src/binnedMPI/*.c", "src/reproBLAS/*.c", "src/binnedBLAS/*.ccog"],
      [("table of bin values filled on first use", "src/binned/dmbins.c, smbins.c"), ("handle caches", "src/binnedMPI/*.c")], [("bins / bins_initialized", "lazily built table and its flag", "src/binned/dmbins.c, smbins.c")], ["per-thread results"]),
    P("C07", "Differently built nodes agree bit for bit",
      "Processes running builds of the library by different compilers (gcc, clang), for different processors and instruction sets, with different optimisation levels and tuning parameters produce and accept interchangeable accumulators: any mixture of such nodes computes the same bits as one node alone.",
      ["configurations", "schedules", "inputs"], "every mixture of AVX, SSE2, scalar, gcc and clang, weakly optimised and differently tuned builds over the nodes of a cluster and over restarts of one node, every operation, chunking and merge tree",
      "the tests run one build on one machine", ["src/gen/*.py", "src/binnedBLAS/*.ccog", "src/*args*.json", "src/params.json", "config.mk"],
      [("one template generates each vector width", "src/gen/generate.py, vectorizations.py"), ("block sizes bounded by the endurance for every tuning", "src/gen, src/params.json")], [ACC], ["accumulator bytes on each node", "final result"]),
    P("C08", "Accumulators survive checkpoint, crash, restart and migration",
      "The bytes of an accumulator taken between any two calls are its whole state: a process that dies at any point and resumes from its last checkpoint, in a fresh process or on a differently built node, finishes with the same result as if nothing had happened, and redone work recreates the same partial results.",
      ["crash_points", "histories", "fault_sequences"], "every crash point between library calls, torn checkpoints, repeated crashes, restarts onto other builds, redelivery of partial results",
      "no test serialises an accumulator", ["src/binned", "src/binnedBLAS", "include/binned.h"], [("accumulator is plain data; tables are rebuilt on demand", "include/binned.h, src/binned/dmbins.c")], [ACC], ["restored accumulators", "resent partial results"]),
    P("C09", "Any history of accumulator operations matches the abstract accumulator",
      "Any sequence of public operations on a set of accumulators (set to zero or to another, convert from a number, add a number or another accumulator, update, deposit within the endurance, renormalise, negate, vector adds, vector kernels, convert to a number; packed or strided; real or complex) leaves each accumulator equal to the abstract accumulator obtained by the same operations on exact bin contents, touches no other accumulator and no input, and yields the same converted numbers.",
      ["histories", "inputs"], "every history up to some tens of operations over several accumulators in two layouts, every fold",
      "tests call each routine in one fixed pattern", ["src/binned/*.c", "src/binnedBLAS/*.ccog", "include/binned.h"],
      [("every routine preserves the representation invariant", "src/binned")], [ACC], ["accumulator bytes after each operation", "converted numbers"]),
    P("C10", "Results stay within the documented error bound in every execution",
      "Whatever the distribution, chunking and faults, the converted result differs from the exact sum (dot product, norm) by no more than the documented bound: element count times the largest magnitude times 2^(width*(1-fold)) plus seven units of rounding of the exact value (plus one quantum of the last bin per element). A result overflows only if the exact value does.",
      ["inputs", "schedules"], "every finite input (products finite for dots), fold, distribution and fault schedule",
      "the accuracy tests sample one serial call on benign data", ["src/binned/ddmconv.c", "src/binned/ssmconv.c", "src/binned/dbbound.c", "src/binned/sbbound.c", "README.md"],
      [("conversion sums the bins from the top with scaling", "src/binned/ddmconv.c"), ("slices lose only what lies below the last bin", "src/gen/deposit.py")], [ACC], ["final results against an exact superaccumulator"]),
    P("C11", "Infinities and NaNs give the same result in every execution",
      "If inputs contain infinities or NaNs, the result is decided by them alone: NaN if a NaN or both infinities occur among the terms, otherwise the infinity that occurs, for every order, chunking, distribution and fault schedule; components of complex results are decided independently. Finite inputs next to them never change that, and a large finite value is never taken for an infinity.",
      ["inputs", "schedules"], "every placement of infinities, NaNs and largest finite values, every chunking, route, distribution and fault schedule, sums, dots and norms",
      "tests put one special value into one vector and make one call", ["src/binnedBLAS/*.ccog", "src/binned/*.c", "src/gen"],
      [("non-finite values are added to the primary word", "src/binned/dmddeposit.c, kernels"), ("merges and rescaling pass non-finite accumulators through", "src/binned/dmdmadd.c, dmdrescale.c")], [ACC], ["accumulators and results"]),
    P("C12", "Matrix-vector products are reproducible under any distribution",
      "Every entry of a reproducible matrix-vector product (real and complex, both precisions, row- or column-major, plain, transposed or conjugate-transposed, any strides and leading dimension, any alpha and beta) equals, bit for bit, the conversion of the reproducible sum of that entry's rounded products and scaled old value, however the library blocks the work and however the rows and the inner dimension are distributed over processes. Nothing outside the result vector changes.",
      ["inputs", "schedules", "configurations"], "every shape up to some hundreds (crossing the block sizes), layout, transposition, stride, alpha and beta, every split of rows and inner dimension over simulated processes, every mixture of builds",
      "the checks compare with a few fixed shapes in one execution", ["src/binnedBLAS/*gemv.c*", "src/reproBLAS/*gemv.c*"],
      [("binned result vector accumulated per block", "src/binnedBLAS/dbdgemv.ccog and siblings")], [ACC], ["result vectors on every simulated process"]),
    P("C13", "Matrix-matrix products are reproducible under any distribution",
      "Every entry of a reproducible matrix-matrix product (real and complex, both precisions, either order, every combination of transpositions, any leading dimensions, any alpha and beta) equals, bit for bit, the conversion of the reproducible sum of that entry's rounded products and scaled old value, however the library blocks the work and however rows, columns and the inner dimension are distributed over processes. Nothing outside the result matrix changes.",
      ["inputs", "schedules", "configurations"], "every shape up to the block sizes and beyond, order, transposition pair, leading dimension, alpha and beta, every split over simulated processes, every mixture of builds",
      "the checks compare with a few fixed shapes in one execution", ["src/binnedBLAS/*gemm.c*", "src/reproBLAS/*gemm.c*"],
      [("blocked binned products", "src/binnedBLAS/dbdgemm.ccog and siblings")], [ACC], ["result matrices on every simulated process"]),
    P("C14", "Calls read and write only what they are given, and leave nothing behind",
      "No call reads or writes outside the arrays and strides it was given, changes its inputs, depends on the contents of uninitialised or freed memory, keeps memory it allocated internally, or leaves the floating-point control state changed. Calling with zero elements changes nothing.",
      ["inputs", "histories", "configurations"], "every routine, length (vector widths and unrolling remainders), alignment, stride and fold, with every content of fresh memory, arrays ending at an unreadable page, read-only inputs",
      "the tests use whole arrays with slack after them, and nothing watches memory", ["src/binnedBLAS/*.ccog", "src/binnedBLAS/*gem*", "src/reproBLAS", "src/binned/*alloc.c"],
      [("remainder loops of the vector kernels", "src/gen/generate.py"), ("temporaries on the heap or stack", "src/reproBLAS/*.c, src/binnedBLAS/*gem*")], [], ["guard pages, red zones, heap accounting, control registers"]),
    P("C15", "When memory runs out the library stops rather than returning wrong results",
      "If any allocation inside a call fails, the call either stops the process visibly or completes with the correct result (or, for allocating constructors, returns null); it never returns normally with a wrong result or after writing outside its arrays.",
      ["fault_sequences"], "every allocation a call makes failing alone or together with all later ones, for every routine that allocates",
      "no test fails an allocation", ["src/reproBLAS/*.c", "src/binnedBLAS/*gem*", "src/binned/*alloc.c", "src/binned/*maddsq.c"],
      [("allocation helpers", "src/binned/dballoc.c and siblings"), ("temporaries", "src/reproBLAS/*.c")], [], ["outcome of each call under each failing allocation"]),
    P("C16", "A failed or interrupted generation never damages files, and a retry succeeds",
      "If generating a source file with the bundled code generator is interrupted by a generator error, a full disk, a write or rename error, or a crash at any point, then every existing file afterwards holds either its complete old or its complete new content, an output that did not exist is absent or complete, the failure is reported with a nonzero status, and running the generation again (or letting make rerun what is out of date) gives the result an undisturbed run gives. In-place generation reports exactly the files it changes and leaves the others unwritten. Files keep their permissions, and a failing run says why.",
      ["crash_points", "fault_sequences"], "every file operation failing or being the last before a crash, writes torn at any byte, for output-file, in-place and several-file runs",
      "the generator's tests never fail an operation", ["scripts/cogapp/cogapp.py"], [("writing the result", "scripts/cogapp/cogapp.py")], [], ["simulated file system after each fault"]),
    P("C17", "Hand edits to protected generated code are never overwritten",
      "With output checksums enabled, generated sections that were changed since they were generated (any edit, torn write or flipped byte between the markers) are detected and the file is left as it is; unchanged sections are accepted, regenerated and re-stamped, any number of times. A template whose markers were damaged is refused, naming the file and line, and option combinations that would destroy a template are refused; neither changes any file.",
      ["fault_sequences", "histories", "inputs"], "every alteration of generated sections between generations, in every history of generate, edit and regenerate",
      "tests alter one fixed file", ["scripts/cogapp/cogapp.py"], [("checksum in the end marker", "scripts/cogapp/cogapp.py")], [], ["file content and reported errors"]),
    P("C18", "Generated code depends only on the template and its parameters",
      "Generating a file gives the same text whichever other files were generated before it in the same process, whatever the order, the hash seed, and the concurrency of the build, and regenerating an already generated file reproduces it.",
      ["schedules", "histories", "configurations"], "every order and grouping of generator invocations over the repository's templates and synthetic ones, several hash seeds",
      "the build generates each file once in one order", ["scripts/cogapp/cogapp.py", "src/gen/*.py", "src/binned/deposit.py", "tune"], [("fresh globals per file", "scripts/cogapp/cogapp.py")], [], ["generated text"]),
    P("C19", "Flushing subnormals does not matter where the library says so",
      "If the library's query reports that an accumulator has no subnormal bits, then sums, dot products (of normal numbers), merges, renormalisations and conversions that led to it or start from it give the same bits whether or not the calling code has the processor flush subnormal operands or results to zero during some or all of the calls. The query never reports bits for accumulators far above the subnormal range. Calls on finite numbers with finite results raise none of the floating-point exceptions invalid, divide-by-zero and overflow.",
      ["configurations", "histories", "inputs"], "every history of calls with the processor's subnormal modes switched between them, over the whole exponent range including subnormal inputs, every fold",
      "the tests run in one environment and never look at exception flags", ["src/binned/dmdenorm.c", "src/binned/smdenorm.c", "src/binned/zmdenorm.c", "src/binned/cmdenorm.c", "src/binned/*deposit.c", "src/binnedBLAS/*.ccog"],
      [("bins below which subnormals begin", "src/binned/dmdenorm.c"), ("deposits lose only what lies below the last bin", "src/gen/deposit.py")], [ACC], ["accumulators and results after each call, exception flags"]),
    P("C20", "The largest magnitude is the same however it is computed",
      "The largest-magnitude queries return exactly the largest absolute value of a strided vector without NaNs, forwards or backwards (for two vectors, the largest absolute value among the rounded element products that make up a dot product; for complex vectors one value for the real and one for the imaginary part; zero for an empty vector), whatever lies between and beyond the elements, on every build; so the maximum over parts, in any partition, order and repetition, is the maximum over the whole, and agrees among processes that compute the error bound from it.",
      ["inputs", "configurations", "histories", "fault_sequences"], "every vector (infinities and subnormals included), length, stride, partition over processes running different builds, crash, loss, duplication and reordering",
      "the tests take few lengths and fills in one process and one build", ["src/binnedBLAS/amax.py", "src/binnedBLAS/amaxm.py", "src/binnedBLAS/*amax*.ccog", "src/gen/vectorizations.py"],
      [("vector kernels and their partial last step", "src/gen/vectorizations.py"), ("which products belong to the real and the imaginary part", "src/binnedBLAS/amaxm.py")], [], ["value returned per part, combined value"]),
    P("C21", "The error bound the library reports covers every execution",
      "Given the number of terms, the largest magnitude among them and the result, the library's error-bound query returns a number that is never below the actual error of the reproducible sum or dot product (against the exact sum of its terms) in any execution: any distribution, chunking, faults, fold, cancellation and range, down to and below the smallest normal numbers. It is finite where the documented bound is, at most twice the documented bound (count times the larger of 2^(width*(1-fold)) times the largest magnitude and half the smallest normal number, plus seven roundings of the result), and never shrinks when count, magnitude or result grow.",
      ["inputs", "schedules", "fault_sequences", "configurations"], "every input multiset and magnitude range, every fold, chunking, merge tree and fault schedule, the query asked on any node",
      "the tests compare the error with the bound on a few ordinary fills", ["src/binned/dbbound.c", "src/binned/sbbound.c", "README.md", "doc/EECS-2015-229.pdf (5.30)"],
      [("underflow term of the bound", "src/binned/dbbound.c"), ("what the bins drop", "src/gen/deposit.py")], [ACC], ["results, exact sums, bounds returned"]),
    P("N01", "Bin indexing is monotonic and consistent with the table of bins",
      "The bin index of a number depends only on its exponent, never increases with magnitude, and agrees with the table of bin values.", ["inputs"], "all finite floating-point numbers", "samples only",
      ["src/binned/dindex.c", "src/binned/sindex.c", "src/binned/dmindex.c", "src/binned/dmbins.c"], [("exponent arithmetic", "src/binned/dindex.c")]),
]
NA = {
    "N01": "A pure function of one number: no schedule, clock, fault, I/O or second party for a simulator to vary. Its consequences are decided where executions depend on it (C01, C09).",
}
LEVEL_NOTES = {
    "": "Seeded sampling of executions of the real library inside the simulator, each step checked against an independent exact model; a clean batch is evidence, not proof. Trusts the reference model, the simulated MPI and heap, gcc and this CPU.",
}
