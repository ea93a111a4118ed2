#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays editable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

SDF = ["src/sdf/data_file.cc", "src/sdf/odata_file.cc", "src/sdf/idata_file.cc", "include/tensor/sdf.h"]
p("C01", "Data files return exactly what every session stored, in the published layout",
  "Whatever sequence of shared (append), overwrite and paranoid sessions writes integers (up to 2^53), reals, complex numbers, tensors and vectors of tensors to data files, the file then holds one header followed by exactly those records in order, in the layout the Python and Matlab readers expect. Any later session that loads the records in order, by name or anonymously, gets every value back bit for bit with its dimensions, without changing any other tensor of the program. This holds however the operating system splits or interrupts the transfers, and however many sessions a process runs.",
  ["histories", "inputs", "schedules", "fault_sequences"], "all histories of sessions by several processes, all values and names up to 63 characters, all legal splittings and interruptions of reads and writes",
  "The tests write one or two records to one file and read them back in the same process on a disk that always transfers everything at once.",
  SDF + ["python/sdf.py", "matlab"], [("write_tag/dump_vector/write_header", "src/sdf/odata_file.cc"), ("read_tag/load_vector/read_header", "src/sdf/idata_file.cc"), ("append, overwrite and temporary-file modes", "src/sdf/data_file.cc DataFile::DataFile")],
  [("file bytes", "64-byte header, then tagged records", "src/sdf/odata_file.cc")], ["bytes of the file after every session", "values returned by InDataFile::load"])
p("C02", "A write session never loses data silently when the disk fails",
  "When an open, write, flush or close of a data file fails or the disk fills up, the session stops the program, or else every record it was given is completely in the file once close() has returned. Records that were complete in a shared file before the session remain readable and unchanged.",
  ["fault_sequences", "histories", "inputs"], "all placements of EIO, ENOSPC, EDQUOT, partial writes and close errors over all session histories",
  "No test ever makes a system call fail; the error branches are never executed.",
  SDF, [("stream state check after write and flush", "src/sdf/odata_file.cc write_raw_with_endian"), ("flush and close of the stream", "src/sdf/odata_file.cc OutDataFile::close")],
  [("stream state", "failbit/badbit of the ofstream", "src/sdf/odata_file.cc")], ["exit status of the writing process", "bytes of the file"])
p("C03", "A load returns the stored value or stops: never garbage",
  "A load returns exactly the value that was stored at that place, or the program stops: this holds for a missing, unreadable, empty or truncated file, for read errors, for foreign files, for a wrong name or a wrong type, and for damaged headers, names, type codes or dimensions. It never returns invented data and never accesses memory out of bounds.",
  ["fault_sequences", "inputs", "crash_points"], "all truncation points, all read-error points, all damaged structural bytes, all mismatched requests",
  "The tests load well-formed files only, with the names and types that were stored.",
  SDF, [("stream state check after read", "src/sdf/idata_file.cc read_raw_with_endian"), ("name, type and header verification", "src/sdf/idata_file.cc read_tag, read_header"), ("scalar size check", "src/sdf/idata_file.cc load(double*)")],
  (), ["value returned or way the process ends", "heap and stack of the reading process"])
p("C04", "A paranoid session publishes its file completely or not at all",
  "At every instant, under its final name a paranoid file is what it was before the session began (absent included) or the complete new version with all records of the session. A crash at any point, an I/O error, or an exception that leaves the session before it is closed keeps the old version in place. Once close() has returned, the new version is in place and no temporary file is left.",
  ["crash_points", "fault_sequences", "schedules", "histories"], "all kill points including inside a write, all failing system calls, all interleavings with concurrent readers, one writer per file at a time",
  "Tests only look at the file after a session ended normally; they cannot stop the process between two system calls.",
  SDF + ["src/sdf/rename_file.cc"], [("write to a temporary name, rename at close", "src/sdf/data_file.cc DataFile::close, src/sdf/rename_file.cc")],
  [("temporary file", "<name>.tmp, private until the rename", "src/sdf/data_file.cc")], ["directory entry and bytes after every file system mutation", "concurrent InDataFile sessions"])
p("C05", "Shared sessions on one file exclude each other",
  "While one process or thread has a shared session open on a file, no other can have one on the same file: every session's records lie contiguously and complete in the file, there is exactly one header, and a reader never sees a live session half done. This holds for every interleaving, for stalled holders, after crashed holders, with stale lock files, whatever file descriptors the processes have open, and whatever working directory, relative or absolute name or symbolic link they use to reach the file.",
  ["schedules", "crash_points", "histories"], "all interleavings at system-call granularity of up to a handful of processes, all stalls and kills",
  "Needs several processes interleaved at particular system calls; the tests run one process.",
  SDF, [("lock file with flock, retry loop", "src/sdf/data_file.cc get_lock"), ("unlink and close on release", "src/sdf/data_file.cc giveup_lock")],
  [("lock file", "<name>.lck, flock held by the session", "src/sdf/data_file.cc")], ["overlap of sessions in the recorded history", "bytes of the file"])
p("C06", "Waiting for a shared file always ends once its holder is gone",
  "A process that waits for a shared file gets it within a few simulated seconds after the holder has closed its session or has died, at whatever point it died. After all sessions are closed no lock, lock file or file descriptor is left behind, other users can take over from a crashed session, and the program's file creation mask is what it was and was honoured by every file created meanwhile, also with several threads. Opening an overwrite or paranoid session never waits.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "all schedules and kill points of contending sessions, transient lock and open errors",
  "Liveness after a crash of another process; the tests have a single process that never crashes.",
  SDF, [("non-blocking flock and one-second retry", "src/sdf/data_file.cc get_lock"), ("release on close and destruction", "src/sdf/data_file.cc DataFile::close, ~DataFile")],
  (), ["simulated time between release and acquisition", "open descriptors, held locks, directory listing"])
p("C07", "File utilities are exact and never destroy data on failure",
  "Renaming over an existing file replaces it in one step: every observer sees the old or the new content under the destination name; a rename that fails leaves both files untouched, and one that must not overwrite never replaces a file that existed when it was called. Directory tests recognise directories and nothing else; existence tests of accessible entries and deletions are exact (a deletion removes files, never a directory); of several processes creating one directory exactly one is told it succeeded.",
  ["schedules", "crash_points", "fault_sequences", "inputs"], "all kinds of directory entries, all interleavings and kill points, all failing system calls",
  "The tests do not exercise these functions under failure or concurrency, nor on special files.",
  ["src/sdf/rename_file.cc", "src/sdf/delete_file.cc", "src/sdf/isdir.cc", "src/sdf/file_exists.cc", "src/sdf/make_directory.cc"], [("rename", "src/sdf/rename_file.cc"), ("stat mode test", "src/sdf/isdir.cc"), ("mkdir result", "src/sdf/make_directory.cc")],
  (), ["directory tree after every mutation", "results of the calls"])
JOBS = ["src/tools/jobs.cc", "src/tools/jobs_dataset.cc", "src/tools/jobs_save.cc", "include/tensor/jobs.h"]
p("C08", "A fleet of workers covers every parameter combination exactly once",
  "For every set of variables and every way of splitting the work (all jobs, blocks, first/last interval, single jobs), the workers of a fleet together run each job number exactly once, whatever their order, and in each job every variable has the value the number stands for in mixed radix, which is also what is dumped to the data file. A worker relaunched after a crash gets exactly the same jobs and values again. The command line alone decides this: no uninitialised memory, environment or earlier object does.",
  ["configurations", "schedules", "crash_points", "inputs"], "all variable sets, partitions and launch orders, all kill points, all initial memory contents",
  "The tests check a few fixed command lines in one process.",
  JOBS, [("job interval from the options", "src/tools/jobs.cc Job::Job"), ("mixed-radix selection", "src/tools/jobs.cc select_job"), ("to_do", "src/tools/jobs.cc")],
  (), ["multiset of (job, values) over the fleet", "values in the dumped file"])
p("C09", "Dataset fleets survive crashes without losing or redoing work",
  "Workers that share a dataset directory and crash and restart at arbitrary points leave in it only complete records with the right variables and results; a finished record is never lost, changed or computed again by a later worker. Once crashes stop, relaunching the workers completes every job within one more round.",
  ["crash_points", "schedules", "histories", "fault_sequences"], "all kill points and interleavings of a fleet in which each job belongs to one live worker at a time",
  "Needs several processes dying and restarting at arbitrary system calls.",
  JOBS + SDF, [("record skipped when its file exists", "src/tools/jobs_dataset.cc open_dataset"), ("paranoid record files", "src/tools/jobs_dataset.cc")],
  [("record file", "<dataset>/<job number>", "src/tools/jobs_dataset.cc")], ["content of the dataset directory after every mutation", "work done per job"])
p("C10", "A job file means the same as the equivalent options, or the program stops",
  "A job file with one variable per line defines exactly the variables that the same lines given as options define, however the file is read in pieces and with or without a final newline. A missing, unreadable or failing file, or a line that does not define a variable, stops the program instead of running with fewer variables.",
  ["inputs", "fault_sequences"], "all job files, all splittings of the reads, all read-error points",
  "The tests never give a job file; a stream that fails midway needs an injected fault.",
  JOBS[:1] + ["include/tensor/jobs.h"], [("parse_file / parse_line", "src/tools/jobs.cc")], (), ["number of jobs and values, or how the process ends"])
TEN = ["include/tensor/refcount.h", "include/tensor/detail/refcount.hpp", "include/tensor/vector.h", "include/tensor/detail/tensor_base.hpp", "include/tensor/tensor.h"]
p("C11", "Tensors are values: no operation changes another variable",
  "In every history of copies, assignments, element writes, views, reshapes, in-place operations, resizes and destructions over vectors, index lists, tensors, sparse matrices and maps, each variable holds exactly what a history without any sharing of storage would give it, and its size and dimensions agree with its data. This includes the rest of the history after an operation that ran out of memory. Storage is released exactly once, when its last user is gone.",
  ["histories", "fault_sequences"], "all histories of operations over aliased variables and all allocation-failure points in them",
  "Unit tests check sharing after one or two operations; the number of aliasing histories is unbounded and none has failing allocations.",
  TEN + ["include/tensor/detail/tensor_slice.hpp", "src/tensor", "include/tensor/sparse.h", "include/tensor/detail/sparse_base.hpp", "include/tensor/map.h"], [("copy on write", "include/tensor/detail/refcount.hpp appropriate"), ("reference counting", "include/tensor/detail/refcount.hpp reference/dereference")],
  [("reference count", "users of a storage block", "include/tensor/detail/refcount.hpp")], ["all variables after every operation", "heap blocks alive at the end"])
p("C12", "Running out of memory is an exception and nothing else",
  "When an allocation fails at any point inside a public operation on tensors, sparse matrices, index lists, linear algebra, eigenvalue solvers or transforms, the caller gets std::bad_alloc: no memory is leaked or freed twice, no operand or other variable has changed except the documented destination, and every variable can still be used, assigned and destroyed. Repeating the operation with memory available gives the ordinary result.",
  ["fault_sequences", "inputs"], "every allocation point of every listed operation",
  "Allocation never fails in the tests.",
  TEN + ["src/linalg", "src/sparse", "src/indices", "src/fftw", "src/arpack"], [("RAII containers", "include/tensor/vector.h, include/tensor/detail/refcount.hpp")], (), ["exception type, operands, heap after every failed attempt"])
p("C13", "Independent computations do not disturb each other",
  "Computations on separate objects give the same results bit for bit whether they run alone, are preempted by each other (threads, between any two basic blocks of the library), run in different processes, or are nested inside each other's callbacks. Linear algebra, sparse products, decompositions, transforms, file sessions and iterations keep no hidden state that one computation could leave for another.",
  ["schedules", "programs"], "all preemption points between basic blocks of concurrent computations on separate data, all nestings in callbacks",
  "The tests run one computation at a time on one thread.",
  ["src/linalg", "src/tensor", "src/sparse", "src/fftw", "src/sdf", "src/tools", "src/arpack"], [("no mutable globals in computations", "src/**")],
  [("static variables", "hidden state shared by calls", "src/**")], ["result bytes of each computation"])
ITER = ["src/linalg/cgs.cc", "src/linalg/eig_power.hpp", "src/arpack", "include/tensor/map.h", "include/tensor/linalg.h", "include/tensor/arpack.h"]
p("C14", "An exception in a user callback cancels an iteration cleanly",
  "When the user's operator throws during an iterative solve or eigenvalue computation, at whichever call, that exception reaches the caller unchanged, nothing is leaked, and the caller's arguments are intact (the vector that eig_power works on still holds a vector). Later solves, also ones that were in progress around the cancelled one, give the same results as if the cancelled one had never been started.",
  ["fault_sequences", "histories", "programs"], "every call of the callback as the throwing point, all sequences and nestings of solves",
  "No test throws from a callback.",
  ITER, [("RAII of work space", "src/linalg/cgs.cc, src/linalg/eig_power.hpp, src/arpack"), ("callback wrapper", "include/tensor/map.h, src/tools/map*.cc")], (), ["exception, heap, later results"])
p("C15", "Callbacks see stable arguments; convergence is reported truthfully",
  "A vector handed to a user's operator keeps its value for as long as the operator's object keeps it, whatever the iteration does next, and an operator may return its argument, a stored vector or a view of shared data without disturbing the iteration. An iterative eigenvalue computation that reports convergence returns a pair that satisfies the eigenvalue equation to its accuracy (and the pair asked for, when its basis is complete); one that cannot converge says so or stops, and one that converged says that. A conjugate-gradient solve whose operator maps its search direction to zero stops. No iteration calls its operator more often than the limit it was given plus the two calls that start and end it.",
  ["programs", "histories", "fault_sequences"], "all retaining, aliasing and stateful operators, all iteration limits and start vectors",
  "The tests use pure matrix products that neither keep nor alias anything, and always converge.",
  ITER, [("copy on write of work vectors", "include/tensor/detail/refcount.hpp"), ("convergence flag", "src/linalg/eig_power.hpp, src/arpack")], (), ["recorded arguments of the callback", "residual of the returned pair against the flag"])
p("C16", "A failing numerical backend is never passed off as a result",
  "When LAPACK or ARPACK reports that it could not compute a decomposition, a solution or eigenvalues, the library stops or throws: it never returns the partial or uninitialised output as if it were the answer. When the backend succeeds nothing of this triggers, and a call after a failed one is unaffected.",
  ["fault_sequences", "inputs"], "every backend call of every decomposition as the failing one, with every positive or negative status",
  "The backend never fails on the inputs of the tests.",
  ["src/linalg", "src/arpack", "include/tensor/tensor_lapack.h"], [("info checks", "src/linalg/*.cc, src/arpack/gemv.cc, src/arpack")], (), ["how the call ends when a backend status is injected"])
p("C17", "Random numbers: reproducible when seeded, usable whatever the entropy source",
  "After seeding with a given value, explicitly or through RANDSEED, every process produces the same stream, equal to the published Mersenne twister, whatever was drawn before and however other processes are scheduled. Without a seed, distinct entropy gives distinct streams and a missing, failing or short entropy source falls back to the clock instead of uninitialised memory; seeding again and again does not use up descriptors. All this also holds for static objects that seed or draw before main(), in whatever order they are constructed. All values lie in their documented ranges.",
  ["fault_sequences", "schedules", "histories", "inputs"], "all entropy faults and clocks, all interleavings of draws and reseeds, all orders of static construction, all limits",
  "The tests draw a few numbers in one process with a healthy /dev/urandom.",
  ["src/rand/rand.cc", "src/rand/rand64.cc", "src/rand/mt.h", "include/tensor/rand.h"], [("seeding order RANDSEED, /dev/urandom, time", "src/rand/rand.cc rand_reseed"), ("mt19937-64", "src/rand/rand64.cc")],
  [("generator state", "312 words and an index", "src/rand/rand64.cc")], ["streams of numbers against a reference generator"])
p("C18", "Timers measure the time that passed",
  "toc() returns the time elapsed since the process's last tic(), and toc(t) the time since t, to a few microseconds, for every schedule of waits, other processes' timers and nested measurements, and at every epoch from 1970 to beyond 2038. tic() returns the instant that a later toc(t) accepts.",
  ["schedules", "histories", "configurations"], "all histories of tic, toc and waits of several processes, all start epochs, second boundaries included",
  "Not tested; needs a controlled clock.",
  ["src/tools/tictoc.cc", "include/tensor/tools.h"], [("gettimeofday difference", "src/tools/tictoc.cc now/tic/toc")], [("last tic", "per-process instant", "src/tools/tictoc.cc")], ["returned seconds against the simulated clock"])

p("C19", "The Python reader returns what was stored, or raises",
  "Loading a complete data file with python/sdf.py returns each name with exactly the numbers, kind and dimensions last stored, for files of either integer size, either byte order or without header, however the reads are split and whatever the program loaded before. A file that is truncated, damaged or fails to be read raises instead of giving other data. A data set gives, stacked and if asked sorted, exactly the finished records, whatever crashed workers left beside them and in whatever order the directory is listed.",
  ["inputs", "fault_sequences", "crash_points", "histories"], "all files of sessions and workers, all cuts and damages, all read splittings and errors, appends and replacements during the load, all sequences of loads, all listing orders",
  "No test runs the Python reader.",
  ["python/sdf.py", "src/sdf/odata_file.cc", "include/tensor/jobs.h"], [("record parser", "python/sdf.py SDF"), ("data sets", "python/sdf.py load_dataset, load_sorted_dataset")],
  [("reader", "integer size, byte order and position of one SDF object", "python/sdf.py SDF.__init__")], ["dictionary that load() returns, or its exception"])

p("C20", "Computations do not depend on what memory held before, whatever the shape",
  "Every public computation on index lists, truth values, tensors, sparse matrices and views (element access, views and assignments through them, reshaping, permuting, diagonals, traces, products and folds, Kronecker products, reductions, sorting, comparisons and arithmetic of real, complex and mixed operands, Fourier transforms, decompositions, linear solves) answers, for operands of every rank and length including zero and one, with the values and dimensions of its definition, or stops because the operands do not fit its definition. Whether it answers, and every bit of the answer, is a function of the operands alone, not of what the memory it works in held before, of an earlier attempt that ran out of memory, or of whether the static objects of the library have been constructed yet. Operands keep their values, no memory is touched that belongs to neither operands nor results, and none is left behind.",
  ["configurations", "fault_sequences", "inputs"], "all earlier contents of the memory, all allocation failures, all shapes of operands",
  "Unit tests run each operation on a few ordinary shapes in one fresh process, whose memory is mostly zeros: an element that is never set, or read from beyond the end, looks right there.",
  TEN + ["src/tensor", "src/indices", "src/views", "src/sparse", "src/linalg", "src/fftw", "src/compare", "src/generated"], [("loops over three-way splittings of the dimensions", "src/indices/surrounding_dimensions.cc, src/tensor"), ("ranges", "src/views/range.cc"), ("row-compressed loops", "src/sparse, include/tensor/detail/sparse_ops.hpp")],
  [("storage of a new tensor", "not initialised", "include/tensor/detail/refcount.hpp")], ["how each computation ends and every bit of its result, with two earlier contents of the memory", "element by element against the definitions", "heap"])

NA = "pure function of its arguments"
p("N01", "Contractions equal the index-sum definition",
  "Folding, matrix multiplication and their in-place variants equal the sum over the contracted index for every rank, dimension and contracted position, real or complex.", ["inputs"], "all tensors and index choices", "Tests sample shapes.",
  ["src/tensor/tensor_fold.cc", "src/tensor/tensor_foldin.cc", "src/tensor/gemm.cc"], [("gemm with strides", "src/tensor/tensor_fold.cc")])
p("N02", "Permutation, reshape and index semantics are column-major and exact",
  "Permute, reshape, squeeze, flatten, change_dimension, diag and index conversions move every element to the position the column-major definition gives.", ["inputs"], "all shapes", "Tests sample shapes.",
  ["src/tensor/tensor_permute.cc", "include/tensor/indices.h"], [("index arithmetic", "include/tensor/indices.h")])
p("N03", "Elementwise operations and reductions equal their scalar definitions",
  "Arithmetic, comparison, unary functions, norms, sums, means and extrema apply the scalar operation to each element.", ["inputs"], "all tensors", "Tests sample values.",
  ["src/generated", "src/compare", "src/tensor"], [("element loops", "include/tensor/detail/tensor_ops.hpp")])
p("N04", "Sparse results equal the dense results of the same operations",
  "Sparse construction, arithmetic, products, kron and conversion agree with the dense computation.", ["inputs"], "all sparse matrices", "Tests sample patterns.",
  ["src/sparse", "include/tensor/sparse.h"], [("CSR loops", "include/tensor/detail/sparse_base.hpp")])
p("N05", "Views and ranges address exactly the selected elements",
  "Reading or assigning through ranges touches the selected elements in column-major order.", ["inputs"], "all ranges and shapes", "Tests sample ranges.",
  ["src/views/range.cc", "include/tensor/detail/tensor_slice.hpp"], [("range iterators", "src/views/range.cc")])
p("N06", "Decompositions and solvers satisfy their defining equations",
  "SVD, eigenvalue decompositions, linear solves and matrix exponentials have small residuals on well-conditioned inputs.", ["inputs"], "all matrices", "Tests sample matrices.",
  ["src/linalg"], [("LAPACK calls", "src/linalg")])
p("N07", "Fourier transforms invert and match the definition",
  "FFT and IFFT along any dimension match the DFT sum and invert each other.", ["inputs"], "all tensors", "Tests sample sizes.",
  ["src/fftw"], [("FFTW plans", "src/fftw/fftw_common.cc")])
p("N08", "Sorting and selection return ordered permutations",
  "Sort, sort_indices, which and boolean indexing return what a stable reference gives.", ["inputs"], "all vectors", "Tests sample vectors.",
  ["src/tensor/tensor_sort_d.cc", "src/indices/which.cc"], [("std::sort", "src/tensor/tensor_sort_d.cc")])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
