import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Integer instructions compute the WebAssembly-defined result or trap",
 "For every i32/i64 arithmetic, bitwise, shift/rotate, comparison, bit-count, sign-extension, wrap/extend and reinterpret instruction and for every operand value, executing it yields exactly the value the WebAssembly specification defines. Division and remainder trap exactly when the specification says so (zero divisor, signed-overflow quotient), with the matching trap kind, and never otherwise. Float-to-integer truncations (trapping and saturating) return the truncated value, or trap / saturate exactly on NaN and out-of-range operands.",
 ["inputs"],"all opcodes of the class x all operand bit patterns (boundary values, random patterns, special float patterns)",
 "The stable test set contains no numeric spec tests; its modules execute a few dozen distinct integer operations on fixed operands.",
 ["lib/insn_impl.h","lib/exec_insn_subr.c","lib/insn_list_base.h","lib/insn_list_fc.h"],
 [("per-opcode macros BINOP/DIVOP/EXTENDOP/TRUNC","lib/insn_impl.h"),("bit helpers (clz, ctz, popcnt, rotl)","lib/util.c, lib/insn_op_helpers.h")],
 ["value returned by an exported function made of that instruction","trap kind reported by the embedding API"])
p("C02","Float instructions follow IEEE 754 round-to-nearest-even bit-exactly",
 "For every f32/f64 instruction (add, sub, mul, div, sqrt, min, max, ceil, floor, trunc, nearest, abs, neg, copysign, comparisons) and every float conversion (promote, demote, integer-to-float, reinterpret) the result has exactly the bits of the correctly rounded IEEE 754 result, including signed zeros, subnormals, overflow and infinities. When the specification requires a NaN result the result is a NaN, arithmetic or canonical as the operands allow; sign-bit operations, loads, stores, and moves preserve NaN payload bits.",
 ["inputs"],"all opcodes of the class x all operand bit patterns (subnormals, ties, exponent extremes, NaN payloads, random)",
 "Stable tests hardly execute float instructions and never compare bit patterns over the special-value matrix.",
 ["lib/insn_impl.h","lib/exec_insn_subr.c","lib/endian.h"],
 [("FBINOP/FMIN/FMAX/NEAREST macros","lib/insn_impl.h"),("host IEEE arithmetic","compiler")],
 ["bit pattern returned by an exported function"])
p("C03","SIMD instructions act lane-wise exactly as specified",
 "For every v128 instruction, every immediate lane index and every operand, each result lane is exactly what the WebAssembly SIMD specification defines from the corresponding operand lanes, and no other lane is affected. Vector loads/stores (splat, extend, zero, lane) touch exactly the specified bytes and trap exactly when any of them is out of bounds.",
 ["inputs"],"all 0xfd opcodes x lane immediates x operand vectors (boundary lanes, random lanes, special floats)",
 "No stable test executes SIMD arithmetic; the spec SIMD suite is not available offline in this tree.",
 ["lib/insn_impl_simd.h","lib/insn_list_simd.h"],
 [("FOREACH_LANES / LANE_OP macros","lib/insn_impl_simd.h")],
 ["v128 value returned or stored to memory"])
p("C04","Linear memory is a bounds-checked byte array with all-or-nothing accesses",
 "A memory behaves as a zero-initialised little-endian byte array of exactly its current size: every load, store and bulk operation (fill, copy, init, size, grow; any memory index, offset, alignment hint and page size) reads or writes exactly the specified bytes, and traps iff any addressed byte is outside the current size, with address+offset computed without wrap-around. A trapping operation changes no byte; growth preserves contents, zero-fills, returns the old size, and fails with -1 leaving the size unchanged exactly when the maximum would be exceeded or the host cannot provide the memory. Data segments read as dropped after data.drop.",
 ["inputs","histories"],"all sequences of memory instructions over one or several memories, with addresses around 0, page ends, the current size, 2^31 and 2^32",
 "Stable tests only perform in-bounds accesses through compiled C programs; boundary addresses, lazily allocated tails, multi-memory and custom page sizes are not exercised.",
 ["lib/exec_insn_subr.c","lib/instance.c","lib/insn_impl.h","lib/insn_impl_fc.h"],
 [("memory_instance_getptr2 bounds check and lazy extension","lib/exec_insn_subr.c"),("memory_grow_impl","lib/exec_insn_subr.c"),("memory_init/copy/fill","lib/exec_insn_subr.c")],
 ["load results, trap kinds, memory contents after the run"],
 [("size_in_pages","current size","struct meminst"),("allocated","bytes actually backed; the rest reads as zero","struct meminst")])
p("C05","Tables, references and indirect calls follow the specification",
 "Table and reference instructions (get, set, size, grow, fill, copy, init, elem.drop, ref.null/func/is_null) act on tables as bounds-checked arrays of references, trapping without partial effect exactly when an index range exceeds the current size. An indirect call transfers control to exactly the function stored at the index when its type equals the expected type, and otherwise traps with the out-of-bounds, null or type-mismatch kind. Element segments behave the same for every encoding form, before and after being dropped.",
 ["inputs","histories"],"all sequences of table/reference instructions over several tables and element segments, including shared/imported tables",
 "Stable tests use tables only as compiler-generated static call_indirect vectors.",
 ["lib/exec_insn_subr.c","lib/insn_impl.h","lib/instance.c","lib/exec.c"],
 [("table_access / table_init / table_copy / get_func_indirect","lib/exec_insn_subr.c"),("compare_functype","lib/type.c")],
 ["results, trap kinds, identity of the function reached"])
p("C06","Control flow, calls and locals execute as specified in every mode",
 "For every valid program, executing an exported function performs the same sequence of externally visible effects (host calls with arguments, memory, global and table updates) and ends with the same results or trap as the WebAssembly structured control semantics prescribe, for any nesting of block/loop/if/br/br_if/br_table/return, calls, tail calls, select/drop, multi-value types and locals/globals of any value types. This outcome does not depend on the load options (jump tables, type-annotation indexes) or on the build configuration.",
 ["programs","inputs","configurations"],"all valid function bodies, arguments and load-option combinations",
 "The stable tests execute a few dozen fixed modules; combinations of value widths, block arities and branch depths that the jump tables, jump caches and cell-size annotations depend on are unbounded.",
 ["lib/exec.c","lib/expr.c","lib/validation.c","lib/cell.c","lib/insn_impl.h"],
 [("do_branch/jump tables/jump caches","lib/exec.c"),("cell index tables","lib/cell.c"),("type annotations for value-polymorphic instructions","lib/expr.c"),("frame_enter/frame_exit/tail call","lib/exec.c")],
 ["host-call log, results, trap kind, final globals/memory"])
p("C07","Exceptions unwind to the right handler with the right payload",
 "A thrown exception is delivered to the innermost enclosing handler, in the dynamic call order, whose clause names the same tag instance or is a catch-all, with exactly the thrown payload values (and exception reference for the _ref forms) and with operand stack, labels and frames of everything in between discarded. If no handler matches, execution ends with the uncaught-exception trap; throw_ref rethrows the same exception and traps on null; tag identity is by instance, not by type.",
 ["programs","inputs"],"all valid programs using try_table/throw/throw_ref across blocks, calls, tail calls, host calls and instances",
 "A handful of fixed exception modules are run; handler selection across frames, payload widths and tag aliasing is unbounded.",
 ["lib/exec.c","lib/insn_impl_eh.h","lib/validation.c"],
 [("find_catch / handle_exception unwinding","lib/exec.c"),("try_table decoding","lib/insn_impl_eh.h")],
 ["host-call log, results, trap kind"])
p("C08","Validation accepts exactly the well-typed modules",
 "A syntactically well-formed module is accepted by the loader if and only if it is valid under the WebAssembly validation rules (with the enabled extensions): operand typing including unreachable code, label/local/global/function/table/memory/tag/segment indices, alignment and lane limits, constant expressions, limits, export name uniqueness, start function type and declared function references. Rejection is reported as an error; an accepted module never fails later for a type reason.",
 ["programs","inputs"],"all well-formed modules (valid ones, and ones differing from valid ones by one or more type, index or limit changes)",
 "Stable tests load valid modules only; there is no invalid-module test in the stable set.",
 ["lib/validation.c","lib/expr.c","lib/insn_impl.h","lib/module.c"],
 [("pop_valtype/push_valtype control-stack algorithm","lib/validation.c"),("per-instruction POP/PUSH macros","lib/insn_macros.h"),("index checks CHECK(...)","lib/insn_impl*.h"),("module-level checks","lib/module.c")],
 ["success or failure of loading the module bytes"])
p("C09","Binary decoding accepts exactly well-formed binaries and decodes them faithfully",
 "A byte string is accepted as a module only if it is a well-formed WebAssembly binary: magic and version, section order, uniqueness and sizes, LEB128 widths and unused bits, UTF-8 names, vector counts, function/code and data-count agreement, known opcodes and flags; every other byte string is rejected with an error, never a crash, hang or out-of-bounds read. For accepted binaries, every encoding variant of the same module (LEB padding, segment forms, custom sections, local-declaration grouping) has the same behaviour.",
 ["inputs"],"all byte strings (truncations, mutations and re-encodings of modules)",
 "Only tool-produced canonical binaries are loaded by the stable tests; unit tests cover a fixed list of LEB128 values.",
 ["lib/module.c","lib/decode.c","lib/leb128.c","lib/expr.c"],
 [("read_leb","lib/leb128.c"),("module_load_into section loop","lib/module.c"),("read_name/check_utf8","lib/module.c")],
 ["load verdict; behaviour of the loaded module"])
p("C10","Instantiation and linking match imports by type and share state by identity",
 "Instantiation succeeds iff every import is matched by name, kind and compatible type (function type equality, global type and mutability, table/memory limits and sharedness, tag type); otherwise it fails with an error and runs no module code. Imported and re-exported functions, globals, tables, memories and tags are the same entity in every instance that refers to them. Initialisation evaluates globals, then copies element and data segments in order, then runs the start function, and a trap in it leaves earlier writes in place and visible to other instances.",
 ["programs","histories"],"all sequences of loading, registering and instantiating modules that import from each other and from the host, with valid and failing initialisers",
 "Stable tests instantiate single modules against fixed host modules; cross-module sharing and mismatched imports are not covered.",
 ["lib/instance.c","lib/import_object.c","lib/module.c","lib/type.c"],
 [("check_*_import type matching","lib/instance.c"),("import_object_find_entry","lib/import_object.c"),("instance_execute_init","lib/instance.c")],
 ["instantiation verdict, later reads through any alias"])
p("C11","Interrupting and resuming execution is transparent",
 "If an embedder interrupts a running execution any number of times at any point and resumes it, the program's results, traps, host-call sequence and memory effects are exactly those of an uninterrupted run. This includes interruption inside host functions that call back into WebAssembly, inside tail calls, while waiting with a timeout, and during instance initialisation; abandoning an interrupted execution releases everything it held.",
 ["schedules","programs","histories"],"all programs x all sequences of interrupt points and resume/abandon decisions",
 "Stable tests use a single timeout scenario and the fixed artificial restarts of debug builds; the placement of interrupts relative to calls, branches and nested host calls is unbounded.",
 ["lib/exec.c","lib/exec_context.h","lib/restart.c","lib/exec.h","lib/insn_impl_threads.h"],
 [("check_interrupt / ETOYWASMUSERINTERRUPT","lib/exec_context.h"),("instance_execute_handle_restart, rewind of pending events","lib/exec.c"),("restart_info stack for host functions and timers","lib/restart.c")],
 ["results and effect log compared with the specification's run"])
p("C12","Resource limits and allocation failures end cleanly with exact accounting",
 "Execution beyond the configured frame or operand-cell limit traps with the corresponding trap kind and never otherwise exceeds them. Under any memory limit, and when any single allocation fails, loading, instantiating or executing either completes with the specified result or fails with an error (or the specified soft failure of grow), without crash or corruption. After everything is destroyed the tracked memory usage is zero, and limits on a parent account for all children.",
 ["fault_sequences","programs","configurations"],"all programs x limit values x index of the failing allocation",
 "Stable tests never inject allocation failures and run a couple of fixed limit values.",
 ["lib/mem.c","lib/mem.h","lib/vec.c","lib/exec.c","lib/module.c","lib/instance.c"],
 [("mem_context accounting","lib/mem.c"),("frame_enter/stack_prealloc limits","lib/exec.c"),("failure paths (goto fail)","all modules")],
 ["error codes, trap kinds, tracked allocation after teardown"])
p("C13","Atomic instructions and wait/notify are linearizable across threads",
 "Atomic loads, stores, read-modify-write and compare-exchange instructions of every width on a shared memory take effect atomically in one global order consistent with each thread's program order, return the zero-extended old value, and trap exactly on misaligned or out-of-bounds addresses. A wait returns 1 without blocking if the value differs, blocks until notified (0) or timed out (2), a notify wakes at most the requested number of current waiters on exactly that address and returns how many it woke, and waiting on an unshared memory traps.",
 ["schedules","inputs","histories"],"all operand values and all interleavings of several threads' atomic operations, waits and notifies",
 "Thread tests are single fixed programs whose assertions hold under almost any interleaving; single-threaded atomic opcodes are not covered at all.",
 ["lib/insn_impl_threads.h","lib/exec_insn_subr.c","lib/waitlist.c"],
 [("C11 atomics via memory_instance_getptr2","lib/insn_impl_threads.h"),("waiter list hash and locks","lib/waitlist.c")],
 ["results of each operation and final memory"])
p("C14","Growing a shared memory is atomic for all threads and never deadlocks",
 "Concurrent memory.grow calls on a shared memory behave as if executed one at a time: each successful call returns the size it grew from, sizes never decrease or exceed the maximum, and existing contents, concurrent stores and atomics are never lost. Every thread makes progress again after a growth, whatever the other threads are doing (running, waiting, in host calls, growing too), and a new size is visible to every later operation.",
 ["schedules"],"all interleavings of growers with threads that load, store, wait, grow, exit",
 "Single fixed thread tests with one grower; losing a race requires specific interleavings.",
 ["lib/exec_insn_subr.c","lib/suspend.c","lib/exec_context.h","lib/cluster.c"],
 [("suspend_threads/resume_threads/parked","lib/suspend.c"),("memory_grow_impl retry loop","lib/exec_insn_subr.c")],
 ["grow results, sizes, memory contents, termination"])
p("C15","wasi-threads: unique ids, faithful start, and process-wide exit",
 "A successful thread spawn returns a positive identifier unique among live threads and runs the module's thread entry point exactly once, in a new instance sharing the memory, with that identifier and the given argument; a failed spawn reports an error and runs nothing. The first proc_exit or trap in any thread terminates all threads, and becomes the outcome of the whole execution; return from the main function terminates the others; a thread returning normally ends only itself, and its identifier may be reused only afterwards.",
 ["schedules","fault_sequences"],"all interleavings of spawns, thread exits, traps and proc_exit",
 "Fixed programs with one scenario each; the outcome of competing exits and spawn failures is not asserted.",
 ["libwasi_threads/wasi_threads.c","lib/cluster.c","lib/idalloc.c"],
 [("tid allocation","lib/idalloc.c"),("cluster interrupt and first-trap propagation","libwasi_threads/wasi_threads.c, lib/cluster.c")],
 ["thread start log, exit status of the run"])
p("C16","WASI descriptors behave as POSIX open files",
 "Every WASI descriptor operation (read, write, pread, pwrite, seek, tell, filestat get/set size, allocate, sync, renumber, close, fdstat, readdir) acts on the open file the descriptor denotes with the specified offset, append and size semantics, transfers exactly the specified bytes between guest buffers and file, and returns the specified error for invalid descriptors, arguments or kinds without other effect. Descriptors are distinct while open, become invalid after close, and pre-opened ones keep their identity.",
 ["histories","inputs"],"all sequences of descriptor operations over files, directories, preopens and invalid descriptors",
 "Stable wasm programs perform short fixed I/O sequences; error paths and interleavings of several descriptors on one file are not covered.",
 ["libwasi/wasi_abi_fd.c","libwasi/wasi_fdtable.c","libwasi/wasi_host_fdop.c","libwasi/wasi_uio.c"],
 [("wasi_table lookup/refcount","libwasi/wasi_table.c"),("iovec copyin","libwasi/wasi_uio.c"),("host fd operations","libwasi/wasi_host_fdop.c")],
 ["errno returned to the guest, guest memory, host file contents"])
p("C17","WASI path operations mirror a POSIX directory tree",
 "Path operations (open with all flag combinations, create/remove directory, unlink, rename, link, symlink, readlink, filestat get/set-times, readdir) relative to a pre-opened or opened directory have exactly the effect and errno that the same operation has on a POSIX directory tree, and no effect when they fail. Absolute paths, paths with embedded NUL, and non-directory or invalid base descriptors are rejected with the corresponding error.",
 ["histories","inputs"],"all sequences of path operations over a small name space of files, directories and symlinks",
 "Stable programs create and read a few files; failing operations and combinations of open flags are not asserted.",
 ["libwasi/wasi_abi_path.c","libwasi/wasi_host_pathop.c","libwasi/wasi_path_subr.c","libwasi/wasi_subr.c"],
 [("wasi_copyin_and_convert_path","libwasi/wasi_path_subr.c"),("open flag translation","libwasi/wasi_host_pathop.c")],
 ["errno returned to the guest and resulting host tree"])
p("C18","WASI environment, clock, random, poll, socket and exit calls obey their contract",
 "Argument, environment and preopen queries return exactly the configured strings with matching sizes; clocks are monotonic and in range; random fills exactly the requested bytes; poll reports exactly the ready or expired subscriptions and waits no less than the requested time; socket calls transfer exactly the stream's bytes and honour their flags; exit yields exactly the given code. For every WASI call, a pointer or length outside the guest memory or a misaligned pointer traps, guest memory outside the documented outputs is unchanged, and no call crashes the host.",
 ["inputs","histories"],"all WASI calls x argument values including out-of-range pointers, lengths and counts",
 "Stable programs pass valid pointers only.",
 ["libwasi/wasi_abi_environ.c","libwasi/wasi_abi_clock.c","libwasi/wasi_abi_poll.c","libwasi/wasi_abi_random.c","libwasi/wasi_abi_proc.c","libwasi/wasi_abi_sock.c","libwasi/wasi_subr.c","lib/host_instance.c"],
 [("wasi_copyin/wasi_copyout","libwasi/wasi_subr.c"),("host_func_check_align","lib/host_instance.c"),("poll_oneoff","libwasi/wasi_abi_poll.c")],
 ["errno, guest memory before/after, trap kind, exit code"])
p("C19","Dynamic linking resolves symbols and lays out modules consistently",
 "Loading a main module with shared libraries binds every imported function, data address and function-pointer slot to the definition found first in load order (weak undefined ones to zero/none), and gives each library a disjoint, properly aligned memory and table range. Each function has one address in all modules, relocations run before any constructor, dependencies are initialised before dependents and exactly once, missing symbols and libraries are reported as errors, and eager and lazy binding, and run-time loading, give the same results.",
 ["programs","configurations","histories"],"all dependency graphs of small shared libraries x symbol definitions x binding mode x dlopen sequences",
 "The stable set runs one or two fixed dynamic-linking programs.",
 ["libdyld/dyld.c","libdyld/dyld_plt.c","libdyld/dyld_dlfcn.c","lib/dylink_type.h","lib/module.c"],
 [("dyld_resolve_symbol, dyld_register_funcinst","libdyld/dyld.c"),("memory/table base allocation","libdyld/dyld.c"),("topological init","libdyld/dyld.c")],
 ["host-call log of init functions, resolved addresses, call results"])
p("C20","Writing a loaded module and reloading it preserves its meaning",
 "For every loadable module, writing it out succeeds and produces a binary that loads successfully and is observationally equivalent to the original: same imports, exports, types, memory/table/tag/global declarations, segments and function behaviour.",
 ["programs","inputs"],"all valid modules",
 "No stable test reloads a written module.",
 ["lib/module_writer.c"],
 [("per-section writers","lib/module_writer.c")],
 ["load verdict and behaviour of the rewritten module"])
p("C21","Host functions and host callbacks exchange values and control faithfully",
 "A call from WebAssembly to a host function passes exactly the argument values in order and delivers exactly the returned values; a trap or error raised by the host function ends the execution with that outcome. Host functions that call back into WebAssembly (directly indexed, through tables, nested to any depth, or by tail call) observe the same results, stack discipline and shared state as an equivalent WebAssembly-to-WebAssembly call, and pointer conversions reject out-of-range or misaligned guest pointers.",
 ["programs","histories"],"all nestings of wasm and host frames with all value types",
 "Examples exercise fixed two-level callbacks with i32 arguments.",
 ["lib/host_instance.c","lib/cconv.c","lib/exec.c","lib/restart.c"],
 [("do_host_call / schedule_call_from_hostfunc","lib/exec.c"),("host_func_copyin/copyout/getptr","lib/host_instance.c"),("cconv_*","lib/cconv.c")],
 ["argument log, results, trap kinds"])
p("C22","Command line and REPL report module outcomes faithfully",
 "Commands given to the command line or the REPL (load, invoke with arguments, register, global-get, save, named modules) act on exactly the named module and report exactly its outcome: results are printed with exact values and types, traps with their kind, load and link failures as errors; argument literals are converted exactly or rejected. A failing REPL command leaves the session and every loaded module usable and unchanged, and the process exit status reflects success, failure or the program's exit code.",
 ["histories","inputs"],"all sequences of commands over several modules, with valid and invalid arguments",
 "Stable CLI tests run single commands with fixed output.",
 ["cli/main.c","cli/repl.c","cli/str_to_uint.c","lib/escape.c"],
 [("toywasm_repl_invoke/arg_conv/repl_print_result","cli/repl.c"),("module list and registration","cli/repl.c")],
 ["standard output and exit status"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
    print(len(P))
