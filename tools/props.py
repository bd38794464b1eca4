"""The properties, what decides each, and the instance counts below which a check is broken rather than passed.

Each entry: id, title, statement, quantifier (over, text), why, files, mech [(name, where)], rules, technique, note,
floor {count: minimum}, explain."""

P = []


def prop(**k):
    P.append(k)


prop(id="C01", rules=["gil"],
     title="Code running without the interpreter lock never enters the interpreter",
     statement="Code that runs on a worker thread, or while the calling thread has released the interpreter lock, never calls into the "
               "Python interpreter: no reference counting, allocation of Python objects, exception raising or attribute access happens "
               "there unless the lock was re-acquired first, and the lock state is restored on every exit including C++ exceptions.",
     over=["schedules", "inputs"],
     text="every thread interleaving and every input that reaches a parallel kernel or a region executed with the lock released",
     why="A violation corrupts interpreter state only when another thread happens to run Python code at that instant; the tests are "
         "single threaded at the Python level and mostly use arrays below the parallel threshold.",
     files=["src/MathThreads.h", "src/MathWorker.h", "src/SDSFile.cpp", "src/SDSFilePython.cpp", "src/GroupBy.cpp", "src/Logger.cpp", "src/MultiKey.cpp"],
     mech=[("worker threads start without the lock", "src/MathThreads.cpp:ThreadFuncNT/WorkerThreadFunction"),
           ("SDS callbacks BeginAllowThreads/EndAllowThreads", "src/SDSFilePython.cpp"),
           ("PyGILState_Ensure around forwarded log records", "src/Logger.cpp")],
     technique="interprocedural lock-state dataflow over whole-program LLVM IR",
     note="Sound for the resolved call graph of the instantiated program; function pointers are resolved by assigned values with a "
          "signature fallback. Exceptions thrown by callees are modelled on unwind edges.",
     floor={"functions_analysed_without_lock": 10000, "call_sites_judged": 30000},
     explain="Every function reachable from a thread start routine or from a region between releasing and re-acquiring the interpreter "
             "lock is analysed in the lock-not-held context; every call site there whose resolved callee is an interpreter entry point is "
             "a violation.")

prop(id="C02", rules=["parse"],
     title="Argument and result format strings agree with the objects they convert",
     statement="Every call that converts Python arguments to native variables, or native values to a Python result, according to a format "
               "string passes exactly one correctly sized and typed native location or value per format unit. No argument a caller can pass makes such a conversion write outside its destination or read a "
               "value of another width.",
     over=["inputs"],
     text="every argument tuple and every returned value, for all exported functions",
     why="A width mismatch overwrites a neighbouring stack variable, which usually is harmless for the small values the tests pass and "
         "depends on stack layout.",
     files=["src/RipTide.cpp", "src/SDSFilePython.cpp", "src/Compress.cpp", "src/GroupBy.cpp", "src/MultiKey.cpp", "src/Logger.cpp"],
     mech=[("PyArg_ParseTuple / PyArg_ParseTupleAndKeywords destinations", "all exported entry points"),
           ("Py_BuildValue / PyObject_CallFunction arguments", "result construction")],
     technique="format-string typestate check over IR call sites",
     note="Exact for constant format strings; a non-constant format is itself reported. Optional units' destinations are also checked for initialisation.",
     floor={"parse_calls": 40, "format_units_checked": 100, "build_units_checked": 60},
     explain="Each conversion call's format string is decoded and matched unit by unit with the allocated size and type of the destination "
             "or the promoted type of the value.")

prop(id="C03", rules=["mtable"],
     title="Exported functions are called the way they are declared",
     statement="Every function published to Python in the module's function table is declared with the calling convention its entry "
               "states: keyword-accepting functions take the keyword dictionary, others do not read one, and every entry has a real "
               "implementation. Calling any published function in any way Python allows never passes it fewer parameters than it reads.",
     over=["inputs", "programs"],
     text="every published function, every positional and keyword call",
     why="A wrong flag works for the calls the tests make and fails (or reads a garbage register) only for a call made another way.",
     files=["src/RipTide.cpp"],
     mech=[("module method table", "src/RipTide.cpp:riptide_cpp methods")],
     technique="table exhaustiveness check over IR constants",
     note="Exact for the statically initialised tables in the module.",
     floor={"method_entries": 50},
     explain="Every PyMethodDef record in constant data is decoded; its flags are compared with the parameters the implementation has and uses.")

prop(id="C04", rules=["div"],
     title="No array contents or argument can trap the process in an integer division",
     statement="Whatever the arrays, files or arguments contain, no integer division or remainder executed by the library has a zero "
               "divisor, nor the most negative dividend with divisor -1 when both are array elements; such elements yield a defined "
               "result instead of terminating the process.",
     over=["inputs"],
     text="every element value of every integer type, every scalar parameter, every column shape in a file",
     why="Arithmetic traps appear only for specific element values (zero, -1 with the minimum) or empty dimensions, which the tests do not enumerate.",
     files=["src/BasicMath.cpp", "src/SDSFile.cpp", "src/HashLinear.cpp", "src/is_member_tg.h", "src/TileRepeat.cpp", "src/GroupBy.cpp", "src/Bins.cpp"],
     mech=[("zero/-1 checks in the modulo and floor-division element operations", "src/BasicMath.cpp"),
           ("empty-row checks before row arithmetic", "src/SDSFile.cpp")],
     technique="dominating-guard dataflow on every integer division in LLVM IR",
     note="Divisors that are bookkeeping quantities (item sizes, table sizes read from library structures) are counted as assumed non-zero and listed in the evidence; "
          "all others must be shown non-zero.",
     floor={"variable_divisors": 75, "divisors_proved_nonzero": 15, "element_quotients_checked_for_overflow": 3},
     explain="Every sdiv/udiv/srem/urem with a non-constant divisor in repository code is an obligation: a dominating comparison, construction or "
             "caller-side proof must show the divisor non-zero (and not -1 for element-by-element quotients).")

prop(id="C05", rules=["fmt"],
     title="Messages never interpret data as a format string or misread their values",
     statement="Every printf-style diagnostic or exception message uses a format string fixed in the program, and passes for each "
               "conversion a value of the type and width that conversion reads. Names, paths and other caller data are only ever values of "
               "a message, never its format.",
     over=["inputs"],
     text="every message on every error path, for every name, path, or value it reports",
     why="Most messages sit on error paths that no test reaches; a mismatched conversion reads stray memory or crashes only when the error occurs.",
     files=["src/GroupBy.cpp", "src/HashFunctions.cpp", "src/HashLinear.cpp", "src/Recycler.cpp", "src/SDSFilePython.cpp", "src/Array.cpp"],
     mech=[("PyErr_Format / printf / snprintf call sites", "all sources")],
     technique="format-string check over IR call sites (constant format, per-conversion type agreement)",
     note="Exact for the varargs calls in the instantiated program.",
     floor={"messages_checked": 400, "conversions_checked": 450},
     explain="Every call of a printf-style function is an obligation: the format must be a constant, and each conversion must match the promoted type "
             "of its argument (integer width, pointer, floating point).")


prop(id="C06", rules=["exc"],
     title="A published function returns NULL exactly when it has raised an exception",
     statement="Every function published to Python either returns an object with no exception pending, or returns NULL with an exception pending. "
               "No rejected argument, unsupported type or internal failure lets a function raise and then go on to return a result, or fail without saying why.",
     over=["inputs"],
     text="every path through every published function and the helpers it calls",
     why="The paths concerned are error paths for argument types and sizes the tests never pass; a violation surfaces as a SystemError, or as an "
         "exception reported by unrelated later code.",
     files=["src/Bins.cpp", "src/Ema.cpp", "src/GroupBy.cpp", "src/MultiKey.cpp", "src/HashLinear.cpp", "src/Convert.cpp", "src/Merge.cpp", "src/Reduce.cpp",
            "src/SDSFilePython.cpp", "src/RipTide.cpp", "src/Sort.cpp"],
     mech=[("raise followed by return NULL", "all published functions"), ("helpers that raise and report failure by their result", "all sources")],
     technique="interprocedural exception-state dataflow with per-result helper summaries over branch-threaded LLVM IR",
     note="Failures of allocation helpers that report NULL without a definite exception state are treated as unknown and not reported. "
          "A raise counts when it is an explicit one in the function concerned.",
     floor={"entry_points_analysed": 50, "return_paths_judged": 350},
     explain="For every path to a return of every published function and every pointer-returning helper reachable from one, the possible exception states are "
             "computed (explicit raises, failing interpreter calls, helper summaries); a result returned after an explicit raise, or a NULL returned with "
             "certainly no exception pending, is a violation.")


prop(id="C07", rules=["layout", "sds"],
     title="Files written by any released version stay readable: the record layout is fixed",
     statement="The file header and the per-array header of a saved file keep their released binary layout: every field keeps its offset, width, signedness "
               "and meaning, the records keep their sizes, and the magic number, format version, file type, stack type and compression codes keep their "
               "values. Whoever fills in such a header sets every field a reader uses.",
     over=["histories", "inputs"],
     text="every file written by a released version and read by this one, and the reverse",
     why="Tests write and read with the same build, so a changed layout or code round-trips; only a file from another version shows it.",
     files=["src/SDSFile.h", "src/SDSFile.cpp"],
     mech=[("SDS_FILE_HEADER and SDS_ARRAY_BLOCK", "src/SDSFile.h"), ("FillFileHeader, CompressFileArray", "src/SDSFile.cpp")],
     technique="comparison of compiled layouts and codes with the released format; must-set dataflow over the record writers; offset/size provenance",
     note="The released format is recorded in the rule from the pinned commit. A field's meaning is followed by its name in the record; the arithmetic "
          "inside a band or a filtered read is not judged.",
     floor={"records_checked": 2, "record_fields_checked": 47, "format_codes_checked": 18, "writer_fields_checked": 30, "writer_paths_checked": 40,
            "data_fields_checked": 15},
     explain="The compiled layout of both on-disk records (offset, width, signedness and order of every field) is compared with the released format; every "
             "constant stored into or compared with a coded field, and the value of each named code, must be a released code. Every function that stamps a record "
             "must set all its fields on every path through the stamp, those that describe the data from the data. Every position used to read or write a block "
             "is exactly that block's recorded position with that block's recorded length, what is recorded is what was written, values are copied to the field of "
             "the same meaning, a moved header moves every position in it, and no released format version is refused.")


prop(id="C08", rules=["align"],
     title="Vectorised code accepts array data at any address",
     statement="No vectorised loop assumes that the data of an array it was given is aligned: wide loads and stores on array memory either allow any address, or "
               "run only after the address itself has been tested for the alignment they need. Views, slices, memory maps and foreign buffers never "
               "crash an operation because of where their data starts.",
     over=["inputs"],
     text="every array whose data starts at an arbitrary address, for every vectorised operation",
     why="Fresh allocations are well aligned, so the tests' arrays satisfy the assumption; only views and foreign buffers do not.",
     files=["src/BasicMath.cpp", "src/UnaryOps.cpp", "src/Compare.cpp", "src/Reduce.cpp", "src/Merge.cpp", "src/Bins.cpp"],
     mech=[("LOADU/STOREU and is_ptr_aligned_as", "src/BasicMath.cpp, src/UnaryOps.cpp, src/RipTide.h")],
     technique="alignment obligation on every vector access in LLVM IR, discharged by provenance or a dominating alignment test",
     note="Accesses to the program's own variables are aligned by the compiler. Alignment of scalars is not considered (the supported processors allow any).",
     floor={"vector_accesses": 120, "aligned_accesses_checked": 30},
     explain="Every vector load or store that requires 16 or more bytes of alignment is an obligation: its memory must be the program's own variable (followed "
             "through parameters to all callers) or the access must be dominated by a test of that address.")


prop(id="C09", rules=["dispatch"],
     title="Each element type is processed by the code written for that type",
     statement="Wherever an operation chooses its kernel from the element type of an array (or from its element size), the kernel it chooses for each type "
               "is the one written for elements of that type, or one whose result provably does not depend on the difference. No supported type is processed with another type's "
               "width, signedness or number format.",
     over=["inputs", "configurations"],
     text="every operation, every element type it supports, every element value",
     why="There are thousands of (operation, type) pairs; the tests sample common types and small values, for which a wrong signedness or a neighbouring type gives the same result.",
     files=["src/BasicMath.cpp", "src/UnaryOps.cpp", "src/Reduce.cpp", "src/GroupBy.cpp", "src/Convert.cpp", "src/Merge.cpp", "src/Sort.cpp", "src/Bins.cpp", "src/Ema.cpp",
            "src/Compare.cpp", "src/HashLinear.cpp", "src/MultiKey.cpp", "src/Compress.cpp"],
     mech=[("type-code switches returning template instances", "GetReduceFunction, GetUnaryOpSlow, GetItemFunction, Get...Function in src/*.cpp")],
     technique="consistency check of every type-code switch in LLVM IR against the template instances its branches select, with a kernel-equivalence dataflow",
     note="A table is recognised when its branches follow the type code clearly; tables whose branches ignore the type are not judged. A kernel of the same width is accepted when a dataflow over its "
          "element values shows they are only copied, compared for equality or combined by sign-independent arithmetic.",
     floor={"dispatch_tables": 300, "dispatch_entries_checked": 2500},
     explain="Every switch over an element type code (or element size) whose branches select instances of one template is an obligation per case: the template argument must be the type the case "
             "stands for, or the instance must be shown insensitive to the difference.")


prop(id="C10", rules=["nul"],
     title="A failed allocation, conversion or kernel lookup is never used",
     statement="When creating an array, an interpreter object or work memory fails, or no kernel exists for an element type, the operation reports an error or falls back. "
               "The missing result is never read, written, released or called, on any path.",
     over=["inputs", "fault_sequences"],
     text="every allocation, conversion and kernel lookup, every path from it to a use",
     why="The failures need memory exhaustion, enormous sizes or element types no test passes to that operation; a violation is a crash of the interpreter.",
     files=["src/Array.cpp", "src/MultiKey.cpp", "src/HashFunctions.cpp", "src/HashLinear.cpp", "src/Sort.cpp", "src/Reduce.cpp", "src/Convert.cpp", "src/Merge.cpp", "src/Hook.cpp",
            "src/GroupBy.cpp", "src/Ema.cpp", "src/SDSFile.cpp", "src/SDSFilePython.cpp"],
     mech=[("array creation helpers", "AllocateNumpyArray, AllocateLikeNumpyArray, AllocateLikeResize, EnsureContiguousArray in src/RipTide.cpp"),
           ("kernel lookups", "Get...Function, Get...FuncPtr in src/*.cpp"), ("work memory", "FmAlloc, WorkSpaceAllocLarge in src/RipTide.cpp, src/Recycler.cpp")],
     technique="interprocedural must-be-tested dataflow (non-NULL facts, conditional facts, helper summaries) over branch-threaded LLVM IR",
     note="Pointers are followed through merged values, casts and helper parameters, not through structure members: a kernel stored in a member before it is tested is not judged. "
          "Dictionary lookups count only when the result is called; container members fetched by index do not count.",
     floor={"failing_results_tracked": 2500, "functions_analysed": 7000},
     explain="Every call whose result can be NULL on failure (memory, array and object creation, kernel lookups, and helpers that return such a result) is an obligation: at every use that needs the "
             "object - a memory access, a release, a call, a helper that uses its parameter untested - the value must be known not to be NULL on all paths.")


prop(id="C11", rules=["io"],
     title="Failed file, mapping and compression operations are reported",
     statement="When reading, writing, opening or mapping a file or shared memory fails or is incomplete, or data cannot be decompressed, the operation that needed it raises an error, or "
               "visibly does it another way. It never ends as if everything had been transferred.",
     over=["fault_sequences", "inputs", "crash_points"],
     text="every read, write, open, map and (de)compression call, every value it fails with, every path from there",
     why="Full disks, truncated and damaged files and exhausted shared memory do not occur in the tests; a missed failure is data lost on save or unset memory returned on load.",
     files=["src/SDSFile.cpp", "src/SDSFilePython.cpp", "src/SharedMemory.cpp", "src/Compress.cpp", "src/ZstdCompress.cpp"],
     mech=[("file access", "SDSFileReadChunk, SDSFileWriteChunk, SDSFileOpen in src/SDSFile.cpp"), ("error record", "SetErr_Format in src/SDSFile.cpp, CheckErrors in src/SDSFilePython.cpp"),
           ("mappings", "UtilSharedMemoryBegin, UtilSharedMemoryCopy in src/SharedMemory.cpp"), ("decompression", "ReadAndDecompressArrayBlock, DecompressOneArray")],
     technique="interprocedural failure-value path simulation over LLVM IR with status summaries, compared with the paths taken on success",
     note="Operations whose failure is an answer (does the file exist) and closing files are not obligations. Once an error is recorded, the rule does not follow it to the exception, and data that "
          "does not compress may be stored as it is.",
     floor={"failing_calls_simulated": 60, "operations_that_can_fail": 8},
     explain="Every call of an operation that can fail is simulated with each value it fails with. Each path must record an error (exception, stored error, shared failure flag), try another way that can itself "
             "report, or return a value the function never returns on success; that function is then an operation that can fail, to a fixpoint over the call graph.")


prop(id="C12", rules=["type"],
     title="An object from a caller is used only as the type it was found to have",
     statement="Every object a caller supplies - argument, member of a list, tuple or dictionary, attribute, or object stored in an array - is used as an array, list, tuple, string or bytes "
               "object only after a test found it to be one, on every path. A list or tuple from a caller is read only at positions within the length it was found to have.",
     over=["inputs"],
     text="every object and container a caller can pass to any published function, every path from its receipt to a use",
     why="The tests pass what the Python layer above would; an unexpected object is read as if it had another layout and usually only crashes for particular memory contents.",
     files=["src/MultiKey.cpp", "src/Recycler.cpp", "src/TileRepeat.cpp", "src/SDSFilePython.cpp", "src/Sort.cpp", "src/Ema.cpp", "src/BasicMath.cpp", "src/UnaryOps.cpp", "src/RipTide.cpp", "src/Hook.cpp"],
     mech=[("type-tested argument formats (O!)", "PyArg_ParseTuple calls of the published functions"), ("tests of members", "PyArray_Check, PyList_Check, PyTuple_Check in src/*.cpp"),
           ("array list conversion", "CMultiListPrepare, CMultiKeyPrepare in src/MultiKey.cpp")],
     technique="interprocedural type-state dataflow on objects received from callers, with container length facts, over branch-threaded LLVM IR",
     note="Lists of names whose members were already found to be arrays or strings elsewhere in the program through the same structure member are not judged again when stored. "
          "A test of all members in a separate loop before they are used is not recognised for objects in array memory.",
     floor={"entry_points": 60, "typed_uses_of_tested_objects": 400, "positions_within_known_length": 30},
     explain="Every object a published function receives is followed through locals, helpers, containers and structure members. At each use that relies on its type (reading array, list, tuple, string fields; calling an "
             "interface that needs an array) the type must be known on all paths from a test, the argument format or its creation; each container position read must be below a known length.")


prop(id="C13", rules=["work"],
     title="A parallel job runs on complete data, finishes, and is left by all threads",
     statement="Before a job is given to the worker threads, everything its code reads from the job and callback records is set on every path, so no job sees values of an earlier one. Each block a thread "
               "takes exists and is counted complete exactly once, whatever the outcome or interruption. The submitting call returns only after the job is withdrawn and every worker has left it.",
     over=["schedules", "inputs", "histories"],
     text="every parallel operation, every interleaving of submitter and workers, every earlier job, interruption at any point",
     why="Records are reused between jobs, so a missing value usually equals the one left by the previous call; a missed completion or join needs a particular path or interleaving and shows as a hang or a stray write.",
     files=["src/MathWorker.h", "src/MathThreads.h", "src/MathThreads.cpp", "src/Reduce.cpp", "src/Convert.cpp", "src/UnaryOps.cpp", "src/BasicMath.cpp", "src/Merge.cpp", "src/HashLinear.cpp",
            "src/Sort.cpp", "src/GroupBy.cpp", "src/Bins.cpp", "src/SDSFile.cpp"],
     mech=[("work records and ring", "stMATH_WORKER_ITEM, stWorkerRing in src/MathThreads.h"), ("submission", "WorkMain, DoMultiThreadedWork, DoMultiThreadedChunkWork in src/MathWorker.h"),
           ("worker loop", "WorkerThreadFunction in src/MathThreads.cpp"), ("worker callbacks", "...ThreadCallback functions in src/*.cpp")],
     technique="interprocedural typestate analysis of block claims, publication and worker wake-up, with must-be-written dataflow on the published records, over LLVM IR",
     note="The atomicity of the counters is the processor's; the division of a length into blocks is arithmetic and not decided. Records reached through a second pointer inside a callback record are not followed.",
     floor={"worker_callbacks": 10, "block_operations": 20, "submissions": 30, "callback_records": 80, "record_members_required": 800, "submitters": 1},
     explain="Worker callbacks are checked as a typestate (block taken, verified, completed) on all paths; at every submission the members the resolved callbacks read, directly or in helpers, must be written on all paths; "
             "the worker loop and the submitter are checked against the wake-up and join protocol.")


# ---- properties that are stated but not claimed -------------------------------------------------------------------------
N = []


def na(**k):
    N.append(k)


na(id="Z01",
   title="Grouping, sorting and joining return the mathematically correct result",
   statement="Group-by, sort, unique, is-member and merge operations return the result their documentation defines for every input.",
   over=["inputs"], text="every array of every supported type and length",
   why="The input space is unbounded and results depend on element values.",
   files=["src/GroupBy.cpp", "src/Sort.cpp", "src/HashLinear.cpp", "src/Merge.cpp"],
   mech=[("kernels", "src/GroupBy.cpp, src/Sort.cpp, src/HashLinear.cpp, src/Merge.cpp")],
   reason="Equality of numerical results over runtime values is not visible in the shape of the code; no sound static argument in reach bounds it.")
na(id="Z02",
   title="Compressed data decompresses to exactly the original bytes",
   statement="For every array and compression level, saving and loading returns the same bytes, shape and type.",
   over=["inputs", "configurations"], text="every array, level, band size and stacking combination",
   why="Round-trip equality over all inputs; the tests sample a few arrays.",
   files=["src/SDSFile.cpp", "src/Compress.cpp", "src/ZstdCompress.cpp"],
   mech=[("writer and reader", "src/SDSFile.cpp")],
   reason="Round-trip equality quantifies over runtime data and the external compressor; structural parts (error discipline, layout) are separate properties.")
