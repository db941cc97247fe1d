# Single source for properties.jsonl, MANIFEST.json and the bounds text in the evidence.
CG = "crates/revmc-codegen/src"
IRVM = ("exhaustive enumeration of bounded program/operand/environment spaces; each program goes through the real "
        "revmc compiler, the emitted IR is executed step by step by an instrumented Backend with memory and UB monitors "
        "and the real builtins, and every execution is compared with the reference interpreter")
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, bounds, state=(), observe=(), hook="", technique=IRVM, note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      bounds=bounds, state=state, observe=observe, hook=hook, technique=technique, note=note))

P("P01", "Compiled code computes the same values as the interpreter",
  "For every contract bytecode and input, the arithmetic, comparison, bitwise, shift and stack-manipulation instructions of the compiled function produce exactly the 256-bit values the EVM interpreter produces. This holds whether an operand is known at compile time or only at run time, and for every composition of such instructions, so the return data, stack, gas used and outcome are those of the interpreter.",
  ["programs", "inputs"], "every composition of value-computing instructions and every operand value, each operand constant or dynamic",
  "Existing tests execute a fixed list of operand pairs per opcode, only with the LLVM backend; the simplifications that apply depend on which operands are constant, on their ranges and on what surrounds the instruction.",
  [CG+"/compiler/translate/mod.rs", CG+"/bytecode/passes", CG+"/bytecode/mod.rs", "crates/revmc-builtins/src/lib.rs", "crates/revmc-backend/src/traits.rs"],
  [("instruction translation", CG+"/compiler/translate/mod.rs"), ("constant propagation and peephole folding", CG+"/bytecode/passes"), ("wide arithmetic builtins", "crates/revmc-builtins/src")],
  "unary/binary/ternary opcodes x boundary grid of 256-bit operands x every constant/dynamic operand mask; same-operand forms; all sequences of value tokens up to length 3 (quick) / 4 (thorough) over 2-4 inputs; deep constant/dynamic mixes; all four-block graphs over value bodies where static and computed jumps meet; stacks of 2-18 (36 with the immediate operations) live known/unknown values shuffled by all short operation strings, everything or only the top observed",
  observe=["return data", "stack at the end of execution", "result code"])
P("P02", "Gas is accounted exactly and out-of-gas strikes at the same point",
  "For every bytecode and every gas limit, the compiled function consumes exactly the gas the interpreter consumes, reports the same refund, and shows the same remaining gas to the GAS instruction and to calls. When the limit is insufficient it fails with out-of-gas exactly when the interpreter does, never after having made a state change visible that the interpreter would not have made.",
  ["programs", "inputs", "configurations"], "every program, hardfork, gas schedule and gas limit",
  "Tests run with one generous gas limit; batching of gas charges across instructions and blocks only goes wrong at particular limits and particular instruction neighbourhoods.",
  [CG+"/bytecode/passes/sections.rs", CG+"/compiler/translate/mod.rs", "crates/revmc-builtins/src/lib.rs"],
  [("gas sections", CG+"/bytecode/passes/sections.rs"), ("section charge", CG+"/compiler/translate/mod.rs"), ("dynamic gas in builtins", "crates/revmc-builtins/src")],
  "all sequences of one representative per pricing rule (length 1 in every hardfork, 2, and 3 over the interacting subset; 4 in thorough), branches and loops of small block graphs, every opcode in every hardfork, a custom gas schedule, frames with a state-gas reservoir of 5 sizes (and state gas switched against the hardfork's default), all storage histories of 2 accesses (3, 4 over fewer) in every hardfork, exponents 0-40 and every byte-length boundary, single sections costing up to 72,000 gas; for each program every gas limit at which the interpreter's step-by-step remaining gas changes, +-1",
  observe=["remaining gas", "refund counter", "result code", "host operations"])
P("P03", "Control flow follows the same path as the interpreter",
  "For every bytecode and input, the compiled function executes the same sequence of observable effects as the interpreter: every jump reaches the destination the interpreter would reach, every jump to an invalid destination fails the same way, and every branch, loop and shared routine behaves identically. Bytes inside push data are never treated as jump destinations, and every path costs the gas it costs in the interpreter.",
  ["programs", "inputs"], "every control-flow graph, every jump target value (constant, computed, or from input)",
  "Jump resolution, dead-code removal, block merging and PC/section layout depend on the whole graph; tests contain a handful of graphs.",
  [CG+"/bytecode/passes", CG+"/bytecode/mod.rs", CG+"/compiler/translate/mod.rs"],
  [("static jump resolution / abstract interpretation of the stack", CG+"/bytecode/passes"), ("dynamic jump table", CG+"/compiler/translate/mod.rs"), ("dead code elimination and block deduplication", CG+"/bytecode/passes")],
  "all graphs of 1-3 blocks (4 and 5 over smaller kinds) over block bodies x terminators (fallthrough, jump, conditional, dynamic, return-address, invalid), all short strings over jump/push/jumpdest bytes, shared subroutines with several call sites, four-block graphs over constants with every placement of blocks lacking a JUMPDEST, three-layer graphs of blocks that merge only after their successors did, large generated programs",
  observe=["host operations", "return data", "result code", "stack"])
P("P04", "Memory, hashing and data-copy instructions act as in the interpreter",
  "For every bytecode and input, reads, writes and copies of memory, call data, code and return data, and hashes over memory, see and produce exactly the bytes they would in the interpreter, including zero extension, overlapping copies, out-of-range offsets and memory growth. The memory size visible to the program, and the gas paid for growing and copying it, are the interpreter's at every point.",
  ["programs", "inputs"], "every sequence of memory instructions and every offset and length",
  "Memory-expansion checks are merged across instructions from constant offsets; whether that is sound depends on the exact sequence and operand mix.",
  [CG+"/bytecode/passes", CG+"/compiler/translate/mod.rs", "crates/revmc-builtins/src/lib.rs", "crates/revmc-builtins/src/utils.rs"],
  [("memory section analysis", CG+"/bytecode/passes"), ("inline memory access", CG+"/compiler/translate/mod.rs"), ("copy builtins", "crates/revmc-builtins/src")],
  "operand grids of offsets/lengths for every memory instruction; all sequences of memory tokens of length 1-3 (4 over the core set in thorough); branch shapes; empty accesses far out, between ordinary ones; all graphs of 3 blocks (4 over a smaller set) whose memory sizes differ at joins reached by static and computed jumps; several calldata/memory environments; return-data copies of every operand around the buffer's end, after every kind of child",
  observe=["memory contents and size", "return data", "stack"])
P("P05", "State and environment instructions have the interpreter's effects",
  "For every bytecode and input, every instruction that reads or changes blockchain state or reads the execution environment makes the same requests of the host in the same order with the same arguments, and hands back the same values. Static-call protection, logs, self-destruct, transient and persistent storage, and the gas charged for each of them, behave as in the interpreter.",
  ["programs", "inputs", "configurations"], "every sequence of such instructions, in static and non-static context, in every hardfork",
  "Tests check each opcode once against a mock host with one value.",
  ["crates/revmc-builtins/src/lib.rs", CG+"/compiler/translate/mod.rs", "crates/revmc-context/src/lib.rs"],
  [("host builtins", "crates/revmc-builtins/src"), ("environment loads", CG+"/compiler/translate/mod.rs")],
  "every state/environment token alone in every hardfork x inputs x static flag, all pairs, triples over the core set, operand grids, branch shapes; storage histories of 2-4 accesses and account histories of 2 in every hardfork, frames with a state-gas reservoir, environment values and block numbers wider than 64 bits, inputs longer than 65,535 bytes, return-data operand grid (up to 70,000 bytes); the host is a small explicit model world recording every request",
  observe=["sequence of host requests", "logs", "return data", "stack"])
P("P06", "Compiler settings never change what a contract does",
  "For every bytecode, the optimisation-related and debugging settings of the compiler change neither the outcome, return data, state effects nor gas of the compiled function. Turning gas metering off changes nothing but gas accounting, and turning stack-bound checks or inspection on does not alter results of valid executions; with inspection on, the stack that the caller finds after a run that does not fail is the interpreter's.",
  ["programs", "configurations"], "every combination of settings, for every program",
  "Tests fix one or two configurations; an interaction between two passes needs a particular combination and program.",
  [CG+"/compiler/mod.rs", CG+"/bytecode/passes", CG+"/compiler/translate/mod.rs"],
  [("configuration", CG+"/compiler/mod.rs"), ("deduplication, DSE and constant propagation passes", CG+"/bytecode/passes")],
  "the product of the settings (inspect, dedup, dead-store, gas metering, stack-bound checks, analysis budget...) x twin-block programs, 3-block graphs, token pairs, dead-value programs, subroutines, value joins, merge layers, arms differing only in a DUPN/SWAPN/EXCHANGE immediate, crowded stacks",
  observe=["result code", "gas", "host operations", "return data"])
P("P07", "Stack underflow and overflow are detected exactly",
  "For every bytecode, the compiled function reports stack underflow or overflow exactly when the interpreter does, at the same point with respect to observable effects, with the same gas, and deep stack accesses read and write the right slots. No execution reads or writes outside the 1024-word stack.",
  ["programs", "inputs"], "every stack height from 0 to 1024 and every path by which it is reached",
  "Checks are merged per section; errors need particular heights at section borders.",
  [CG+"/bytecode/passes/sections.rs", CG+"/compiler/translate/mod.rs"],
  [("stack sections", CG+"/bytecode/passes/sections.rs"), ("section stack check", CG+"/compiler/translate/mod.rs")],
  "every stack instruction at heights 0-18 and near 1024, every immediate of the deep-stack instructions, all token triples (quadruples) at heights 0-3 and 1016-1024, joins of different heights, loops with net stack effect, words on the stack at the start of code compiled for inspection",
  observe=["result code", "stack", "memory monitor"])
P("P08", "Calls and creations suspend and resume with the right frame input and result",
  "For every bytecode, when a call or create instruction is reached the compiled function hands out the same child frame request (target, value, input, gas, scheme, static flag) as the interpreter. After the child finishes with any outcome, it resumes at the right place with the same stack, memory, return data and remaining gas as the interpreter, however many times it is suspended.",
  ["programs", "inputs", "histories"], "every placement of calls/creates, every child outcome, every number of suspensions",
  "Tests resume once or twice in straight-line code; which values live across the suspension depends on the program.",
  [CG+"/compiler/translate/mod.rs", "crates/revmc-context/src/lib.rs", "crates/revmc-builtins/src/lib.rs"],
  [("suspend/resume points", CG+"/compiler/translate/mod.rs"), ("call/create builtins", "crates/revmc-builtins/src"), ("resume address kept in the interpreter", "crates/revmc-context/src/lib.rs")],
  "every call/create token in every hardfork, pairs x pairs of 6 child outcomes, surroundings of constant/dynamic stack values and memory operations, branches, loops and shared routines with suspensions, operand grids, return-data operand grid after every kind of child, state-gas reservoirs of 5 sizes, state gas switched against the hardfork's default; gas sweep included",
  observe=["frame requests", "stack/memory/return data after resume", "gas"])
P("P09", "Instructions are available exactly in the hardforks that define them",
  "For every hardfork the compiler can target and every opcode, the compiled function treats the opcode as valid, invalid or undefined exactly as the interpreter configured for that hardfork does, with the rules and gas prices of that hardfork. An unreachable unknown or not-yet-activated instruction never affects the rest of the program.",
  ["programs", "configurations"], "every opcode, operand count and placement, in every hardfork",
  "Tests pin the latest hardfork for most opcodes.",
  [CG+"/bytecode/mod.rs", CG+"/bytecode/info.rs", CG+"/compiler/translate/mod.rs"],
  [("opcode table per hardfork", CG+"/bytecode"), ("translation of disabled/unknown opcodes", CG+"/compiler/translate/mod.rs")],
  "256 opcodes x stack heights 0-7 x 3 operand fills x all hardforks; dead/conditional/after-jump placements; all opcode pairs in thorough",
  observe=["result code", "host operations", "return data"])
P("P10", "Any byte string compiles to memory-safe code that behaves as interpreted",
  "Every byte string is accepted by the compiler (it never panics, hangs or emits malformed code), and running the result on any input never touches memory outside the stack, memory and context it was given and never executes an operation with undefined result. The outcome and gas used are the interpreter's.",
  ["programs", "inputs"], "every byte string up to a size, every truncated push, designators and very large code",
  "Tests compile a few fixed strings; memory errors are invisible to them unless they crash.",
  [CG+"/bytecode", CG+"/compiler", "crates/revmc-builtins/src", "crates/revmc-context/src"],
  [("decoder and analysis", CG+"/bytecode"), ("IR emission", CG+"/compiler"), ("builtins with raw pointers", "crates/revmc-builtins/src")],
  "all byte strings of length 0-2, all strings of length 3 over 44 representative bytes (all bytes in thorough), the same with prepared operands and behind an unresolvable jump, every push truncation, every byte followed by all 3-byte strings over {JUMPDEST, ADD, itself} entered behind it, all 4-byte strings over jumps and immediate operations on a filled stack, delegation designators, large programs; every IR memory access checked against live allocations",
  observe=["compiler result", "memory monitor", "result code"])
P("P13", "A reused compiler instance yields the same code as a fresh one",
  "However a compiler instance was used before (translations, finished modules, failed or repeated compilations, settings changes, clearing, freeing), every function it compiles next behaves exactly as one compiled by a fresh instance, and functions it already handed out keep working until freed. No sequence of legal operations makes it panic or produce stale code.",
  ["histories", "programs"], "every sequence of compiler operations up to a depth",
  "Tests use one compiler per program or one fixed sequence.",
  [CG+"/compiler/mod.rs", "crates/revmc-backend/src/traits.rs"],
  [("compiler life cycle", CG+"/compiler/mod.rs")],
  "all sequences of compiler operations (translate of 4 programs, compile, finalize, clear, free, change of settings) to depth 5 (quick) / 7 (thorough); plus one long-lived instance over the priced-token programs",
  observe=["behaviour of handed-out functions", "errors"])

RT = "crates/revmc-runtime/src/runtime"
MCX = ("systematic exploration of the runtime crate built from /repo against a controlled scheduler: all sequences of API calls up to a depth "
       "compared after every call with an explicit reference model, and all thread interleavings (dynamic partial-order reduction) of small "
       "concurrent scenarios with monitors; timers, compile outcomes, store faults and code lifetime are under the explorer's control")
EVMDIFF = ("exhaustive enumeration of bounded spaces of contract pairs, transactions, histories and database faults; each execution runs the real "
          "JIT EVM wrappers, runtime and compiler (scheduler and executable IR backend as for P14-P21) and is compared with mainnet revm")

P("P11", "Whole transactions give the mainnet result",
  "Executing any transaction (call, creation, system call, replay, with or without commit) through the JIT-enabled EVM wrappers (the function-map one, the runtime-backed one and the alloy one) yields the same outcome as mainnet revm: same success/revert/halt status, output, gas, refund, logs, errors and state changes. This holds whichever of the contracts involved are compiled or interpreted, for nested calls and creations, delegated accounts, failing databases, and across sequences of transactions with changes of hardfork, block or backend between them.",
  ["histories", "inputs", "configurations"], "every transaction and sequence of transactions, every mix of compiled and interpreted contracts",
  "Tests run a few transactions with LLVM; frame hand-over, resumption and cached decisions depend on the mix and the history.",
  ["crates/revmc-context/src/jit_evm.rs", "crates/revmc-runtime/src/revm_evm.rs", "crates/revmc-runtime/src/alloy_evm.rs", "crates/revmc-context/src/lib.rs"],
  [("frame dispatch", "crates/revmc-runtime/src/revm_evm.rs"), ("lookup cache and its invalidation", "crates/revmc-runtime/src/revm_evm.rs"), ("function map", "crates/revmc-context/src/jit_evm.rs"), ("call into compiled code", "crates/revmc-context/src/lib.rs")],
  "24 actions x 8 ends in the called contract x the same in its callee x 7 hardforks (all in thorough) x 5-8 drivers (mixes of compiled and interpreted); all pairs (triples in thorough) of actions; 6 kinds of transaction x 11 gas limits x all hardforks; all histories of 4 (5) EVM operations over 12; every failing database access up to the 24th",
  state=[("lookup cache", "decision per code hash for the current hardfork", "crates/revmc-runtime/src/revm_evm.rs")],
  observe=["execution result", "state changes", "committed database"], technique=EVMDIFF)
P("P12", "Inspectors see the same frames, logs and self-destructs",
  "An inspector attached to a JIT-enabled EVM receives the same sequence of call, create, log, self-destruct, frame-initialisation and frame-end notifications, with the same contents, as on mainnet revm (per-instruction steps excepted, and logs of code that fails before its next call may be missing). Inspectors that answer or modify calls and creations have the same effect, and attaching one never changes the transaction's result.",
  ["histories", "inputs", "configurations"], "every transaction, mix of compiled and interpreted contracts and interfering inspector",
  "Tests attach no inspector to nested compiled frames.",
  ["crates/revmc-context/src/jit_evm.rs", "crates/revmc-runtime/src/revm_evm.rs", "crates/revmc-runtime/src/alloy_evm.rs", "crates/revmc-builtins/src/lib.rs"],
  [("inspected frame dispatch", "crates/revmc-runtime/src/revm_evm.rs"), ("log callback", "crates/revmc-builtins/src/lib.rs")],
  "the spaces of P11 with 4 inspectors: recording only, answering calls and creations itself, rewriting outcomes, reducing gas; histories switch inspection on and off",
  observe=["inspector notifications", "execution result", "state changes"], technique=EVMDIFF)
P("P14", "Lookups hand out only the right, live program",
  "Whenever the runtime returns a compiled program for a code hash and hardfork, calling it executes exactly that bytecode compiled for exactly that hardfork, and the program stays callable for as long as the caller holds it, whatever the runtime does meanwhile (clearing, eviction, restart of compilers, shutdown). Ready programs are found again by later lookups, and code memory is released once neither the runtime nor any caller holds the program.",
  ["histories", "schedules"], "every sequence and interleaving of lookups, requests, clears, evictions and compiler recycling",
  "A dangling or mixed-up program needs a particular interleaving of eviction, clearing or recycling with a lookup; tests look up one key at rest.",
  [RT+"/backend.rs", RT+"/api.rs", RT+"/worker.rs", RT+"/mod.rs"],
  [("resident map", RT+"/backend.rs"), ("program ownership (guard keeps the code alive)", RT+"/api.rs"), ("worker compilers and their recycling", RT+"/worker.rs")],
  "all sequences of 5 (thorough: 6) calls over 5-8-call alphabets in 6 configurations; all interleavings of pairs of clients (thorough: lists of up to 2) in 5 configurations",
  state=[("resident entry", "program, hardfork and guard per (code hash, hardfork)", RT+"/backend.rs")],
  observe=["program returned", "result of calling it", "liveness of its code"], technique=MCX)
P("P15", "Callers are always answered, truthfully",
  "Every blocking request (synchronous compile, blocking lookup) returns: with the program if compilation succeeded, and otherwise with the real reason (compilation failed, ineligible code, queue full, backend unavailable). No caller is left waiting by a failure, a full queue, a concurrent clear, a disabled or unavailable backend or a shutdown, and no caller is told of a failure that did not happen to its request.",
  ["histories", "schedules"], "every sequence and interleaving of requests, failures, clears, queue overflows and shutdown",
  "A lost notification shows only in one interleaving, as a hang; tests wait for one request at a time.",
  [RT+"/backend.rs", RT+"/api.rs", RT+"/worker.rs", RT+"/mod.rs"],
  [("waiters attached to entries", RT+"/backend.rs"), ("synchronous API", RT+"/mod.rs")],
  "all sequences of 5 (6) calls over 5-10-call alphabets in 11 configurations incl. no workers, no backend, tiny queues, AOT mode; all interleavings of client pairs in 6 configurations with an early timer firing",
  observe=["return value of the call", "deadlock/termination"], technique=MCX)
P("P16", "Clearing really forgets, including what is still being compiled",
  "After a clear call takes effect, no program compiled before it is served, no compilation that was in flight when it happened appears later, hotness counts start again, and clearing persisted artifacts empties the store. Requests made after the clear are unaffected by the results of the compilations it discarded, and programs still held by callers keep working.",
  ["histories", "schedules"], "every placement of a clear among requests, compilations in flight, restarts and store faults",
  "The interesting case is a compilation finishing at a specific moment around the clear.",
  [RT+"/backend.rs", RT+"/mod.rs"],
  [("generation counter", RT+"/backend.rs"), ("clear commands", RT+"/backend.rs")],
  "all sequences of 5-6 (6-7) calls over 5-9-call alphabets in 10 configurations incl. compilations held in flight and one-by-one release; all interleavings of requests and clears of two clients",
  state=[("generation", "distinguishes results requested before and after a clear", RT+"/backend.rs")],
  observe=["programs served", "store contents", "completion events"], technique=MCX)
P("P17", "Compilation is requested exactly when the admission policy says so",
  "A contract is compiled when it has been seen the configured number of times (or explicitly requested), and only then; at most one compilation per contract and hardfork is in flight, a contract whose compilation failed is tried again only after being seen that many times anew or on explicit request, and ineligible (empty, too long) code is never compiled. The limits on pending and queued work and on the lookup-event channel are respected, overflow is dropped without blocking the lookup or losing later requests, and a disabled runtime compiles nothing.",
  ["histories", "configurations"], "every sequence of lookups and requests, for every threshold and limit",
  "Off-by-one and bookkeeping errors appear after specific sequences only.",
  [RT+"/backend.rs", RT+"/mod.rs", RT+"/config.rs"],
  [("hotness counting", RT+"/backend.rs"), ("enqueue limits", RT+"/backend.rs"), ("event channel", RT+"/mod.rs")],
  "all sequences of 3-5 (thorough: 5-7) calls over 3-8-call alphabets for thresholds 0-4, pending and queue limits 0-2, channel capacities 2-8, 0-2 workers",
  state=[("entry", "cold/working/failed/ready per key with hit count", RT+"/backend.rs")],
  observe=["compilations performed", "lookup decision", "statistics"], technique=MCX)
P("P18", "Eviction obeys the memory budget and idle time and nothing else",
  "When the resident code exceeds the configured budget, the least recently used programs are evicted until it fits; programs unused for the configured idle time are evicted, and recently used ones are not. Evicted contracts can be compiled again from scratch, programs in the hands of callers stay valid, and no budget or idle setting makes the runtime drop anything else.",
  ["histories", "configurations"], "every sequence of uses, compilations and time steps",
  "Recency order and idle deadlines depend on the history of lookups and sweeps.",
  [RT+"/backend.rs", RT+"/config.rs"],
  [("budget eviction", RT+"/backend.rs"), ("idle sweep", RT+"/backend.rs")],
  "all sequences of 5-6 (6-7) calls/time steps over 5-6-call alphabets for budgets of one and two programs, idle time and both, JIT and AOT programs",
  state=[("last use", "virtual time of last lookup per resident program", RT+"/backend.rs")],
  observe=["programs served", "eviction statistics", "released code"], technique=MCX)
P("P19", "Life cycle: lazy start, enable, pause, restart and shutdown",
  "The backend thread starts only when first needed and only once, enabling and disabling take effect for later lookups and can be repeated, pause/resume nest, and a failed start is reported and can be retried. Dropping the last handle stops every thread promptly in any state, with work queued, running or finished, and afterwards callers still holding programs can use them.",
  ["histories", "schedules"], "every sequence and interleaving of life-cycle calls with requests",
  "Shutdown races and start races need specific interleavings.",
  [RT+"/mod.rs", RT+"/backend.rs", RT+"/worker.rs"],
  [("lazy start", RT+"/mod.rs"), ("shutdown on drop", RT+"/mod.rs"), ("pause depth", RT+"/backend.rs")],
  "all sequences of 5 (6) calls over 5-7-call alphabets in 6 configurations incl. start failures; all interleavings of pairs of clients starting, pausing, requesting and dropping",
  observe=["threads alive", "termination", "call results"], technique=MCX)
P("P20", "Statistics and events tell what happened",
  "The statistics snapshot agrees with what happened: lookups, hits, misses, queued and dropped events, compilations started, succeeded and failed, evictions, resident programs and pending jobs. Each finished compilation is reported exactly once to the configured callback with the right outcome, discarded ones included as documented, and gauges return to zero when everything has finished or been cleared.",
  ["histories", "schedules"], "every sequence and interleaving of calls",
  "Gauge drift shows only after discarded or failed work.",
  [RT+"/stats.rs", RT+"/backend.rs", RT+"/mod.rs"],
  [("counters", RT+"/stats.rs"), ("event callback", RT+"/backend.rs")],
  "all sequences of 4-5 (5-6) calls over 5-8-call alphabets in 5 configurations, statistics compared after every call; all interleavings of client pairs, gauges compared at rest",
  observe=["stats snapshot", "callback invocations"], technique=MCX)
P("P21", "Persisted artifacts come back as the same programs",
  "An artifact compiled ahead of time and stored is loaded again after a restart as a program that executes the same bytecode for the same hardfork; artifacts never serve another contract or hardfork, and each is kept apart from those of other backends and optimisation levels. Missing, corrupted or unreadable artifacts and a failing store never yield a wrong program or take the runtime down, deletion and clearing remove exactly what they name, and the default directory store returns for every key exactly what was last stored under it.",
  ["histories", "configurations"], "every sequence of store, load, delete, clear, restart and fault",
  "Tests store one artifact and load it back.",
  [RT+"/storage.rs", RT+"/backend.rs", RT+"/worker.rs"],
  [("artifact store", RT+"/storage.rs"), ("preload at start", RT+"/backend.rs"), ("AOT compile and link", RT+"/worker.rs")],
  "all sequences of 4-5 (5-6) calls over 5-8-call alphabets with restarts, corrupted and lost artifacts, artifacts made by another tool and failing load/load_all/store; all sequences of directory-store operations to depth 4 (5) over keys that differ in one field",
  observe=["programs served after restart", "store contents", "files"], technique=MCX)
P("P22", "Settings and environment variables have exactly their documented effect",
  "Every runtime setting reaches the code it is about: each compilation, by any worker and also after compilers are recycled, uses the configured optimisation level of its kind, error folding, deduplication and dead-store settings, debug assertions, gas schedule and dump directory, exactly as a compiler configured directly would. Each recognised environment variable overrides its own setting and no other when valid, is reported when invalid, and leaves the configuration alone when unset; code is eligible for compilation exactly when non-empty and within the length limit.",
  ["configurations", "inputs"], "every combination of settings and of values of the environment variables",
  "Tests check the defaults and one override; a setting lost on one path (a recycled compiler, AOT instead of JIT) shows in one combination.",
  [RT+"/config.rs", RT+"/worker.rs", RT+"/backend.rs"],
  [("environment overrides", RT+"/config.rs"), ("compiler construction", RT+"/worker.rs")],
  "all 1536 combinations of 7 switches, 4 levels and 3 recycling thresholds, 4 compilations each, compared with a directly configured compiler (settings and shape of the code); all 5184 combinations of valid, invalid, unset and non-text values of the 4 variables over two base configurations; eligibility for 16 limits x 612 lengths",
  observe=["settings and code of each compilation", "resulting configuration", "dump files"], technique=MCX)
P("P23", "The assembler and disassembler are exact",
  "Assembling a text yields exactly the bytes its instructions, immediates, labels and macros spell, with pushes of unspecified width as small as possible and every label reference equal to the final offset of its label, independent of layout and comments; anything that spells no program is refused with an error and nothing makes the assembler panic. Disassembling any byte string lists its instructions, offsets and immediates faithfully for the given hardfork, and index immediates (DUPN, SWAPN, EXCHANGE) encode and decode exactly the values their specification defines.",
  ["inputs"], "every source text and every byte string",
  "Tests assemble a few listings; width changes of one label move others, and encodings have exceptions inside their range.",
  ["crates/revmc-codegen/src/bytecode/asm.rs", "crates/revmc-codegen/src/bytecode/opcode.rs"],
  [("label layout", "crates/revmc-codegen/src/bytecode/asm.rs"), ("macro expansion", "crates/revmc-codegen/src/bytecode/asm.rs"), ("index codecs", "crates/revmc-codegen/src/bytecode/opcode.rs")],
  "all sequences of up to 4 (thorough: 5) items over 33 kinds of instruction, push, label, reference, macro call and error, in 3 layouts; every opcode, width, index and pair alone and around a label; label distances around 256 and 65536; all strings of 4 (5) pieces for robustness; all byte strings of up to 4 over 12 bytes in every hardfork; all indices and pairs",
  observe=["bytes", "errors", "text"],
  technique="exhaustive enumeration of bounded spaces of source texts and byte strings; each is run through the real assembler/disassembler and compared with an independent reference")
P("P24", "Out-of-process compilation behaves like in-process compilation",
  "With compilation in a helper process, callers observe what they observe with compilation in process: the same answers, programs, admission, eviction, clearing and statistics, with the configured compiler settings. The helper is started on first use with the configured program, memory limit, CPU limit and a process group of its own; it is replaced after a crash, a failed start or a job that exceeds its time limit, and only the jobs it had are reported as failed. Pausing stops it and resuming continues it, whatever it was doing, without losing or duplicating a job and without the pause counting as a timeout. After a clear or when the backend is dropped, the helper is killed and reaped, no process or thread of the runtime is left, and no caller waits for ever.",
  ["histories", "schedules", "faults"], "every sequence and interleaving of requests, helper crashes, failed starts, time limits, pauses, clears and shutdown",
  "The tests start a real helper once; a helper that dies, is stopped or is asked to do something at the wrong moment shows as a hang or an orphan process in one history.",
  [RT+"/out_of_process.rs", RT+"/worker.rs", RT+"/backend.rs"],
  [("helper life cycle", RT+"/out_of_process.rs"), ("pause and resume", RT+"/out_of_process.rs"), ("shutdown", RT+"/worker.rs")],
  "all sequences of 4 (5) calls over 6-7-call alphabets with crashes (also right at the start of the helper), failed starts, objects that do not link, time limits, pauses, held compilations and restarts in 17 configurations; the in-process sequences of P14-P21 once more with a helper; all interleavings of two clients and the helper's own threads in 4 (5) configurations; 1536 combinations of settings; 126 of limits",
  observe=["answers and programs", "statistics", "processes alive, stopped and reaped", "settings of each compilation in the helper"], technique=MCX)
P("P25", "Words and stacks shared with compiled code are exact views",
  "The word and stack types through which embedders and builtins share data with compiled code behave as 256-bit integers and as a stack of 1024 words: conversions from and to integers, big- and little-endian bytes, slices, addresses and usize agree with the integer and refuse what does not fit; pushing, reading and writing by index, from the top or through slices touch exactly the slot they name; checked accesses refuse indices outside the capacity; and a view of an interpreter's stack or of a vector shares its values and length.",
  ["inputs", "histories"], "every word value and every sequence of stack operations",
  "The tests convert two values and never use the stack; an off-by-one at the capacity, or in one byte order, needs one particular value or index.",
  ["crates/revmc-context/src/lib.rs"],
  [("word conversions", "crates/revmc-context/src/lib.rs"), ("stack views", "crates/revmc-context/src/lib.rs")],
  "1061 word values (every power of two and its neighbours, complements, byte patterns) through every conversion, every slice length; all sequences of 4 (5) of 14 stack operations on 3 kinds of stack at 2 fill levels, all slots compared after every operation",
  observe=["values of all slots", "lengths", "refusals"],
  technique="exhaustive enumeration of bounded spaces of word values and of sequences of stack operations; each is run on the real types and compared with integers and vectors")
