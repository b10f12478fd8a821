ALLFN = [("entry points", "include/fnft_*.h"), ("implementation", "src/*.c, src/private/*.c")]
WHYERR = "The tests run each transform on a few signals with valid arguments and succeeding allocations; the hundreds of error exits are never executed."
IA = "all argument values, all option settings, and every combination of failing allocations and failing internal steps"

p("C01", "A call releases all memory it obtains, exactly once",
  "For every call of a public routine, whatever its arguments and options and whichever internal step fails, every memory block the call obtains is released exactly once before the call returns. No block is accessed after its release and no block that the caller owns is released.",
  ["inputs", "configurations", "fault_sequences"], IA, WHYERR,
  PUB + PRIV, [("cleanup code at the end of each routine", "every transform routine"), ("plan/buffer release functions", "include/private/fnft__fft_wrapper.h")],
  technique=ENGINE + "heap typestate (live/released) and reachability at every return",
  note="Decides the whole statement for all paths of the abstract program; loops are summarised by joining iterations.")

p("C02", "A failure inside a call is never reported as success",
  "If any step of a call of a public routine reports an error, if one of its memory requests fails, or if the external eigenvalue solver reports failure, the routine returns a status different from success. If nothing of that kind happens, it returns success.",
  ["inputs", "configurations", "fault_sequences"], IA, WHYERR,
  PUB + PRIV, [("error reporting", "include/private/fnft__errwarn.h"), ("status checks after every call", "src/*.c, src/private/*.c")],
  technique=ENGINE + "error-state propagation: marked paths never return 0, unmarked paths return exactly 0",
  note="All exits of all seven status-returning public routines; the set of possible return values is computed exactly on every path.")

p("C03", "A failed memory request ends the call in an orderly way",
  "If a memory request inside a call of a public routine fails, the call never touches the missing block, reports the out-of-memory error rather than another one, and returns a status different from success. On the way out it releases everything it has obtained and reads nothing that was never set.",
  ["fault_sequences", "inputs", "configurations"], "all allocation sites, each failing on any path that reaches it, for all arguments and options",
  "No test makes an allocation fail.",
  PUB + PRIV, [("allocation sites (malloc, calloc, Kiss FFT)", "src, src/3rd_party/kiss_fft"), ("E_NOMEM / CHECK_NOMEM", "include/private/fnft__errwarn.h")],
  technique=ENGINE + "allocation failure as a forked outcome of every allocation site; nullness, status and cleanup rules on that branch",
  note="Each allocation site is failed once per path (later failures on the same path are covered, too, as the fork is repeated).")

p("C04", "The sign and value of an error status follow one convention",
  "When a call of a public routine fails, the magnitude of the returned status is the documented code of the first error that was reported during the call. It is positive if the public routine detected the error itself and negative if the error was detected in a subroutine of another part of the library.",
  ["inputs", "configurations", "fault_sequences"], IA, WHYERR,
  PUB + PRIV, [("error codes", "include/fnft_errwarn.h"), ("E_SUBROUTINE / CHECK_RETCODE", "include/private/fnft__errwarn.h")],
  technique=ENGINE + "code and origin of the first reported error carried along each path and compared with the returned value",
  note="Errors found by static helpers in the same source file as the public routine may carry either sign (a helper may be extracted from the routine or not).")

p("C05", "A call modifies its documented outputs and nothing else of the caller's",
  "A call of a public routine never stores into its input arrays, into the interval end points, or into the options object it is given, not even temporarily. It stores to no variable that outlives the call, such as the default options, and every output argument is stored to on some path.",
  ["inputs", "configurations", "histories"], "all argument values and option settings; any sequence of calls that reuse the same inputs and options",
  "A test that happens to look at one input after one call says nothing about other option settings or about error exits; a temporary modification is not visible at all after the call.",
  PUB + PRIV, [("public prototypes (in / out / in,out)", "include/fnft_*.h"), ("copies of the options", "src/fnft_nsev.c, src/fnft_kdvv.c, src/fnft_nsep.c, src/fnft_manakovv.c")],
  technique=ENGINE + "effect sets (objects stored to) of every public routine compared with the documented outputs",
  note="The continuous spectrum handed to the inverse transform is documented as in,out and may be overwritten.")

p("C06", "Calls share no hidden state: results depend on the arguments only",
  "No call of a public routine leaves anything behind that can influence a later or a concurrent call, except that setting the print function changes that setting for the calling thread. In particular the routines keep no writable variables between calls and use no external routine with hidden state.",
  ["histories", "schedules"], "all sequences and interleavings of calls from any number of threads",
  "Interference between calls shows only under particular histories or interleavings, which the tests (one call per process) do not have.",
  ["src", "src/private", "src/3rd_party/kiss_fft", "src/3rd_party/eiscor", "include"], [("default options, print function setting", "src/fnft_*.c"), ("eigenvalue solver", "src/3rd_party/eiscor")],
  technique="flow-insensitive escape and effect analysis of every statically allocated variable over the linked LLVM IR; call-graph closure against a list of stateful external routines; symbol analysis of the Fortran objects",
  note="One known finding: the eigenvalue solver's exceptional shift uses the Fortran run-time's random number generator.")

p("C07", "No null pointer is dereferenced and optional arguments may be null",
  "Whatever combination of null pointers a public routine is called with, it dereferences a pointer only after having made sure that it is not null. The arguments documented as optional (options, spectra the caller is not interested in) can be null in calls that succeed.",
  ["inputs", "configurations", "fault_sequences"], "all combinations of null and non-null pointer arguments with all option settings",
  "The tests call the routines with a few combinations of null arguments; most combinations with the various options are never tried.",
  PUB + PRIV, [("argument checks", "head of every public routine"), ("later uses under option-dependent conditions", "src/fnft_nsev.c, src/fnft_kdvv.c, src/fnft_manakovv.c, src/fnft_nsep.c")],
  technique=ENGINE + "path-sensitive nullness of arguments and allocation results through all callees",
  note="Arrays behind non-null pointers are assumed to be as long as documented.")

p("C08", "Calls with invalid arguments or options are rejected",
  "A public transform returns an error, for any values of the other arguments, when the number of samples is too small (for the periodic and inverse transforms: not a power of two), the sample array or the time interval is missing, an interval is not increasing, the sign parameter is not plus or minus one, an array needed for a requested output is missing, or the discretization or spectrum type is not one of the enumerated values. The version query rejects null arguments.",
  ["inputs", "configurations"], "99 kinds of invalid call (argument or option outside its documented domain), each with all other arguments and options arbitrary",
  "The tests contain no invalid calls for most arguments, and a check may be bypassed for particular values of the other arguments only.",
  PUB + PRIV, [("argument checks", "head of every public routine"), ("default branches of option switches", "src/fnft_*.c, src/private")],
  technique=ENGINE + "each kind of invalid call is an assumption on the entry state; no exit may return success",
  note="Interval end points that are NaN are not considered. The list of kinds is in engine/scen_table.py and in the evidence.")

p("C11", "The library neither ends the process nor prints except through its setting",
  "No call of a public routine can end the calling process or thread, and none writes to a stream or file except through the print function the user has configured. When printing is disabled by setting a null print function, no print function is called.",
  ["inputs", "configurations", "fault_sequences"], "all calls, all options, all failures, any configured print function including none",
  "Whether some rarely executed path ends in abort, exit or a direct print cannot be seen from sampled executions.",
  ["src", "src/private", "src/3rd_party"], [("print function setting", "src/fnft_errwarn.c, src/private/fnft__errwarn.c"), ("eigenvalue solver", "src/3rd_party/eiscor")],
  technique="call-graph closure of all public routines (C and Fortran) against lists of terminating and writing external routines; path-sensitive nullness of the configured function pointer at its call sites",
  note="The run-time library underneath (malloc, math functions, matmul) is trusted.")

p("C12", "With FFTW, plans and buffers are released exactly once by the matching routine",
  "When the library is configured to use FFTW instead of its built-in FFT, every buffer and plan obtained from FFTW is released exactly once by the matching FFTW routine, and no memory from another source is handed to FFTW's release routines. This holds on every path, including those on which a request for a plan or buffer fails, and a failed request is never ignored.",
  ["configurations", "inputs", "fault_sequences"], IA + ", in the FFTW configuration",
  "The build under test uses the built-in FFT, where all families of memory are the same; the FFTW configuration is not even compiled.",
  PUB + PRIV, [("FFT wrapper", "include/private/fnft__fft_wrapper.h"), ("users of buffers and plans", "src/private/fnft__poly_fmult*.c, fnft__poly_chirpz.c, fnft__poly_specfact.c, src/fnft_nsev_inverse.c")],
  technique=ENGINE + "heap typestate with allocator families, on the library compiled for the FFTW configuration",
  note="FFTW is represented by declarations of its documented interface (stubs/fftw3.h).")

p("C13", "Nothing is read that was never set",
  "No call of a public routine bases a decision, an address, a result or a stored value on a local variable, a structure field, an output argument or a newly obtained memory block that has not been written on the path taken. This holds on all paths including error exits.",
  ["inputs", "configurations", "fault_sequences"], IA, "An unset variable often holds a harmless value in the few executions a test makes.",
  PUB + PRIV, ALLFN,
  technique=ENGINE + "definite initialisation of locals, fields, out-arguments and heap blocks",
  note="Arrays are tracked as a whole: an array counts as set when any of its elements was; element-wise initialisation is not decided.")

p("C17", "MATLAB commands pass inputs, options and results on as documented",
  "For every input and optional input that the help text of a MATLAB command documents, the command hands the library exactly that input (or changes exactly that option or argument, with the value that follows it) and otherwise the default options and sufficiently large arrays. It returns the library's results element by element in as many outputs as are requested, and reports an error if the library fails, if an input has the wrong type or is missing, or if an optional input is unknown or lacks its value.",
  ["inputs", "configurations"], "all documented optional inputs, numbers of outputs, signal values and library results",
  "The MATLAB interface is not compiled, let alone executed, by the test suite.",
  ["matlab/mex_fnft_nsev.c", "matlab/mex_fnft_nsep.c", "matlab/mex_fnft_kdvv.c", "matlab/mex_fnft_manakovv.c", "matlab/mex_fnft_nsev_inverse.c", "matlab/mex_fnft_nsev_inverse_XI.c"],
  [("interpretation of the optional inputs", "matlab/mex_*.c, mexFunction"), ("documentation", "matlab/mex_*.m")],
  technique="constant and origin propagation through the compiled commands (declarations of MATLAB's interface only), once per documented optional input and number of outputs; what arrives at the library call and at the outputs is compared with the help texts",
  note="Signals of 8 samples stand for all lengths. Allocation failures are MATLAB's to report (mxMalloc does not return). mex_fnft_version is not covered.")

p("C16", "Stack use does not grow with the problem size",
  "No routine reachable from a public routine places an array on the stack whose size depends on the caller's arguments, and the local variables of every single routine fit in 64 KiB. Large problems therefore fail by a reported error, never by stack overflow.",
  ["inputs", "configurations"], "all problem sizes (samples, frequencies, eigenvalues)",
  "The tests use small problems, for which a stack array of the problem's size is harmless.",
  PUB + PRIV, [("work arrays", "src/fnft_nsev_inverse.c, src/private")],
  technique="inspection of every stack allocation instruction of every function in the call-graph closure (LLVM IR)",
  note="Recursion depth is logarithmic in the problem size (one recursive function, listed in the evidence) but that is not decided here.")

p("C09", "Every call returns, whatever the sample values are",
  "Every call of a public routine returns after a number of steps that is bounded by the sizes of its arguments and by the iteration limits in its options, whatever values the samples, end points, tolerances and initial guesses have, including NaN and infinity. In particular, iterative refinements stop at their iteration limit when they do not converge.",
  ["inputs", "configurations"], "all values of the samples and other floating-point arguments, all options",
  "The tests use well-behaved signals, for which the iterations converge; divergence, stagnation and NaN are never tried.",
  PUB + PRIV, [("Newton iterations", "src/fnft_nsep.c, src/fnft_nsev.c, src/fnft_kdvv.c"), ("counting loops, recursive FFT", "src/private, src/3rd_party/kiss_fft")],
  technique="loop variant analysis on SSA-form LLVM IR: every loop has a counter that moves by a fixed amount on every path through the body towards a loop-invariant bound tested in every iteration; call-graph recursion needs a shrinking argument",
  note="Sizes below 2^63. One loop with an explicit recursion stack (inverse scattering) and the Fortran solver are listed as not decided.")

p("C10", "The chosen discretization is used in every stage of a transform",
  "For every discretization a user can select, every internal stage of a transform (preprocessing, fast scattering, mapping between spectral parameter and polynomial variable, phase factors, boundary coefficients, slow scattering, extrapolation) works with that discretization or, where there is no fast algorithm, with its documented counterpart of the same order. The order, polynomial degree, number of samples per step and announced maximal number of eigenvalues of every discretization are the documented ones.",
  ["configurations", "inputs"], "all documented discretizations of the three equations with every transform that accepts them, all sizes",
  "The tests run some discretizations for some transforms; stages that are used only with particular options (refinement, normalization, subsampling) are tested for one or two discretizations.",
  PUB + PRIV, [("tables of discretizations", "include/fnft_nse_discretization_t.h, fnft_kdv_discretization_t.h, fnft_manakov_discretization_t.h"), ("order, degree, upsampling factor", "src/private/fnft__*_discretization.c"), ("stages", "src/fnft_*.c, src/private/fnft__*_fscatter.c")],
  technique="interprocedural constant propagation (one run per routine and discretization) over the linked LLVM IR; every discretization-typed argument of every internal call compared with the documented table",
  note="The coefficients inside the splitting formulas are numerical and are not decided.")

p("C14", "Null options mean the documented default options",
  "The default-options routines return the documented defaults in every field. Passing a null options pointer to a transform has exactly the same effect as passing the object returned by its default-options routine.",
  ["configurations", "inputs"], "every field of every options structure; every transform with options, all other arguments arbitrary",
  "The tests nearly always pass explicit options and look at a few of their fields.",
  ["src/fnft_nsev.c", "src/fnft_nsep.c", "src/fnft_kdvv.c", "src/fnft_manakovv.c", "src/fnft_nsev_inverse.c", "include"],
  [("default options", "src/fnft_*.c"), ("documentation of the fields", "include/fnft_*.h")],
  technique="interprocedural constant propagation: constants returned per field; reached calls, constant arguments, outputs and status values compared between the two ways of calling",
  note="Floating-point defaults are compared as constants.")

p("C15", "Every option and every absent output selects exactly the documented work",
  "Each documented value of an option (type of spectrum, localization, filtering, extrapolation, inversion method, sign of the equation) makes a transform perform the corresponding steps and no step that belongs to another value only, and outputs that are not wanted are not computed. Iteration limits, limits on evaluations, the normalization setting and the manual bounding box reach the steps they control unchanged.",
  ["configurations", "inputs"], "61 option values and absent outputs of five transforms with all sample values and sizes",
  "The tests check end results with tolerances for a few combinations; an ignored limit, filter or flag often changes nothing there.",
  PUB, [("switches over options", "src/fnft_*.c"), ("documentation of the options", "include/fnft_*.h")],
  technique="interprocedural constant propagation per option value: must-reach and must-not-reach obligations on internal steps; origin tracking of limits and flags to the arguments of these steps",
  note="Reachability of steps; their numerical results are not decided.")

p("N01", "Computed spectra approximate the true spectra with the documented order",
  "For smooth signals the computed continuous and discrete spectra converge to the exact nonlinear Fourier spectra as the number of samples grows, with the order of the chosen discretization.",
  ["inputs", "configurations"], "all smooth signals and discretizations", "Tests check a few signals with known spectra.",
  PUB, [("transforms", "src/fnft_*.c")], claimed=False,
  na="Floating-point error bounds for numerical integration of arbitrary signals; no static argument in reach bounds them.")
p("N02", "The inverse transform undoes the forward transform",
  "Applying the forward transform to the signal generated by the inverse transform returns the prescribed spectrum up to the accuracy of the discretization.",
  ["inputs", "configurations"], "all admissible spectra", "Tests check a few spectra.",
  ["src/fnft_nsev_inverse.c", "src/private/fnft__nse_finvscatter.c"], [("layer peeling", "src/private/fnft__nse_finvscatter.c")], claimed=False,
  na="A relation between the numerical results of two long floating-point computations; not decidable by static analysis in reach.")
p("N03", "All bound states inside the bounding box are found",
  "For signals whose eigenvalues are well separated, the number of bound states returned equals the number of eigenvalues inside the region selected by the filtering option.",
  ["inputs", "configurations"], "all signals", "Tests check a few signals with known eigenvalues.",
  ["src/fnft_nsev.c", "src/fnft_kdvv.c"], [("localization", "src/fnft_nsev.c")], claimed=False,
  na="Depends on the convergence of iterative root finding for runtime data; no static bound in reach.")
p("N04", "Accesses to arrays stay within their bounds",
  "Every access to a caller's array or to a work array lies within the documented or obtained length, for all sizes.",
  ["inputs", "configurations"], "all sizes and option settings", "Tests use a few sizes.",
  PUB + PRIV, [("index arithmetic", "src/private/fnft__poly_fmult.c")], claimed=False,
  na="The lengths are products and powers of two of runtime sizes combined across recursion levels (transfer-matrix trees, FFT lengths); a sound static bound needs relational non-linear invariants that no analysis in reach infers without many false alarms.")
