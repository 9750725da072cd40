#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOTEST = "The only tests that execute projects need cloud.netsblox.org and a fixed set of XML files; "

# ---------------------------------------------------------------- execution
prop("E01", "Programs run with block semantics: control flow and order of effects",
 "Running a compiled script performs exactly the effects, in exactly the order, and reports exactly the result that the blocks prescribe, for any nesting of conditionals, lazy and/or/conditional expressions, the five loop kinds, custom block calls and early exits. Each operand is evaluated exactly once and left to right as the block orders them, loop bounds are evaluated once on entry, and a block that is stopped or reports early abandons only itself.",
 ["programs"], "all scripts built from the control-flow and call blocks up to the enumerated nesting/length, with effects placed at every position",
 NOTEST + "each fixes one nesting; a wrong jump target or a leaked operand shows only in particular nestings.",
 ["src/bytecode.rs", "src/process.rs"],
 [("compile statements/expressions to jumps", "src/bytecode.rs append_stmt/append_expr"), ("instruction dispatch", "src/process.rs step_impl")],
 observe=["values printed, syscalls issued, result reported by the process"])
prop("E02", "Variable scoping, capture by reference and upvars",
 "A name always resolves to the innermost of local, sprite field and global that declares it, each call gets fresh locals, and nothing a callee declares is visible to its caller. A closure shares, in both directions and for as long as it lives, exactly the variables it captured where it was created, and an upvar of a custom block shares exactly the caller's variable; every other assignment affects only its own variable.",
 ["programs"], "all programs up to the enumerated length over one name at three scopes, closures stored in variables, recursion and upvar blocks",
 NOTEST + "aliasing bugs need a particular order of capture, redeclaration, call and assignment.",
 ["src/runtime.rs", "src/process.rs", "src/bytecode.rs"],
 [("shared variable cells", "src/runtime.rs Shared/SymbolTable"), ("scope lookup and closure capture", "src/process.rs lookup_var!, MakeClosure, InitUpvar")],
 observe=["values read back through every scope after each statement"])
prop("E03", "Errors reach the innermost handler with the state of that handler restored",
 "An error raised anywhere (in an operator, a thrown value, a host request or command, a nested call or closure) transfers control to the innermost enclosing try block still active, binds that block's variable to the error text, and resumes as if the protected part had been left normally: pending operands, loops, calls, warp mode and host per-script state are those of the try block. With no active try block the script ends with that error, and a try block that has been left by any route never catches anything again.",
 ["programs", "fault_sequences"], "all programs of nested try/loop/warp/call/closure up to the bound, with an error injected at every possible position",
 NOTEST + "stale operands or handlers are invisible unless something after the handler consumes them.",
 ["src/process.rs"],
 [("handler stack and unwinding", "src/process.rs step (handler_stack), Return"), ("host unwind points", "src/process.rs Unwindable")],
 observe=["effects after the handler, error text, host unwind point calls"])
prop("E04", "Warp runs without interruption; every other loop iteration yields",
 "Outside warp, each completed iteration of a loop or of a higher-order list block gives every other script one turn before the next iteration; inside warp no turn is given up for loops, however deep the calls. The mode in force after leaving a warp block, by completion, early return, stop block, or a caught error, is the one in force before entering it.",
 ["programs"], "all programs of nested warp/loops/calls/closures/try up to the bound",
 NOTEST + "warp is checked for one yield count per program.",
 ["src/process.rs", "src/bytecode.rs"],
 [("warp counter", "src/process.rs WarpStart/WarpStop/Yield and call frames")],
 observe=["sequence of yields between effects"])
prop("E05", "Call depth is bounded by the configured limit",
 "No sequence of calls, through custom blocks, methods, closures, higher-order blocks or any mixture, makes the call stack deeper than the configured maximum: the call that would do so fails with a call-depth error that try blocks can catch. Calls within the limit never fail for that reason, and returning or unwinding gives the depth back.",
 ["programs", "configurations"], "all mixtures of call kinds up to the bound, for every limit in the enumerated range",
 "One test covers one recursion through custom blocks at the default limit.",
 ["src/process.rs"], [("depth check on call", "src/process.rs Call/CallClosure"), ("limit", "src/process.rs/runtime.rs Settings::max_call_depth")],
 observe=["depth of the call stack after every step, error cause"])
prop("E06", "Host requests and commands are awaited once and answered to the right place",
 "Each request or command a script makes is issued to the host exactly once, the script does nothing else until the host completes it however many polls that takes, and the answer is consumed exactly once and used as the value (or error) of that very block. Failed RPCs and syscalls either become error values with the last-error reporter set, or raised errors, as configured, and a later success clears the last error.",
 ["schedules", "fault_sequences", "configurations"], "all pending-poll counts and success/failure answers for every enumerated sequence of request and command kinds under both error schemes",
 NOTEST + "completion order and failure are fixed by the live server.",
 ["src/process.rs"], [("deferred operations", "src/process.rs Defer, process_result")],
 observe=["calls made to the host, polls per key, values produced"])
prop("E07", "Waiting, timers and timed speech follow the clock",
 "A wait resumes at the first opportunity at which the clock has reached start plus duration and never before, for every clock schedule and every duration including zero, negative and huge ones; the timer reports the seconds since the last reset and never a negative number. Waiting never blocks other scripts.",
 ["schedules", "inputs"], "all enumerated clock schedules for every enumerated duration",
 NOTEST + "they wait on the wall clock once.",
 ["src/process.rs"], [("sleep and timer", "src/process.rs Sleep/PushTimer/ResetTimer")],
 observe=["yields and effects against the scripted clock"])
prop("E08", "Meaning of a program does not depend on its size, layout or literals",
 "Adding, removing or reordering code that is never executed, or growing a program or its literals past any encoding size boundary, changes nothing about what the rest of it does; every literal (text, number, boolean, color, names of variables, messages and fields) arrives at run time exactly as written. The program's dump decodes as the same instruction stream from start to end.",
 ["programs", "inputs"], "every padding length across each jump-encoding boundary for each jump kind; every literal in the alphabet at each position",
 "Unit tests round-trip single integers; no test links a program large enough for multi-byte jumps at every distance.",
 ["src/bytecode.rs"], [("link, relocation and shrinking", "src/bytecode.rs finalize/apply_shrinking_plan"), ("literal pool and integer strings", "src/bytecode.rs optimize, BinPool")],
 observe=["effects and results of padded and unpadded program"])
prop("E09", "Every runtime error is reported at the block that raised it",
 "When a script fails, the reported trace names for the innermost entry the block that raised the error and for each outer entry the block whose call is in progress, together with the variables visible there, for every location naming scheme accepted at load time. A naming scheme that cannot be represented is refused at load time, never misreported later.",
 ["programs", "inputs"], "all enumerated programs with an error at each block, times all enumerated location-id schemes",
 "Unit tests compress a few id lists; the mapping from a failing instruction to its block is never exercised.",
 ["src/bytecode.rs", "src/process.rs"], [("location compression and lookup", "src/bytecode.rs Locations"), ("error summary", "src/process.rs ErrorSummary::extract")],
 observe=["ErrorSummary of each failing run"])
prop("E10", "Loading reproduces the saved project state, including sharing and cycles",
 "After loading, every global, field, costume, sound and sprite property has exactly the saved value: lists that were one list are one list, lists that were distinct are distinct, and self-containing lists are restored as such. Storing the compiled program and initial state in serialized form and reading them back yields a project with the same behaviour, and references to values that do not exist are refused at load time.",
 ["inputs", "programs"], "all enumerated graphs of up to N list nodes with shared, cyclic and forward references across variables",
 "One test loads one project with nested list constants.",
 ["src/bytecode.rs", "src/runtime.rs"], [("initial state extraction", "src/bytecode.rs extract_init_info"), ("state construction", "src/runtime.rs GlobalContext::from_init")],
 observe=["identity and content of every loaded value"])
prop("E11", "Higher-order list blocks call the ring once per item, in order, over a snapshot",
 "Map, keep, find-first and combine call their ring once per item of the list as it was on entry, in order, whatever the ring does to that list, to other variables, or by failing, nesting or exiting; results contain exactly the ring results, the accepted items, the first accepted item, or the left fold. For-each iterates over the same kind of snapshot.",
 ["programs"], "all enumerated ring bodies (mutating, nested, failing, yielding) for every list up to the bound",
 NOTEST + "each uses one list and one well-behaved ring.",
 ["src/bytecode.rs", "src/process.rs"], [("expansion to loops over a copied list", "src/bytecode.rs Map/Keep/FindFirst/Combine")],
 observe=["ring invocations and result"])

prop("E12", "Costume and sound blocks act on exactly the named medium of that sprite",
 "Setting a costume by name, by picture or to nothing makes exactly that picture the costume of exactly that sprite or clone, an unknown name or another kind of value fails and changes nothing, next costume goes through the sprite's own costumes in order and around and does nothing for other pictures, and the costume, its number and its name always report the current one. The host is told of a change exactly when there is one. Sounds are played exactly as named, and the reported lists of costumes and sounds are fresh copies holding the media themselves in order.",
 ["programs", "histories", "schedules"], "all operation sequences up to the depth bound over sprites of 0 to 3 costumes, other sprites' and clones' pictures, and host answers",
 NOTEST + "no test changes costumes more than once.",
 ["src/process.rs"], [("costume instructions", "src/process.rs SetCostume/NextCostume/PushCostumeNumber/PushCostumeProperty"), ("sound instructions", "src/process.rs PlaySound/PushSoundProperty"), ("media of clones", "src/process.rs Clone")],
 observe=["commands given to the host and reported costumes"])

prop("E13", "A watcher always shows the present value of the variable it was made for",
 "Showing a variable makes a watcher of exactly the variable that the name means there, belonging to the sprite the script acts for; whichever script, ring, clone, upvar or other sprite later assigns or changes that variable, the watcher reads the new value, and it never reads another variable of the same name. Hiding a variable names the watchers of that same variable and no others. A watcher of a global, of a field of a living sprite or of a captured variable never goes away by itself.",
 ["programs", "schedules"], "all sequences of the enumerated actions on a global, a field and a local (of different names and of one name) after one of them was shown, without collections and with a collection after every step",
 "No test looks at a watcher after the step that made it.",
 ["src/process.rs", "src/runtime.rs"], [("watcher instruction", "src/process.rs Instruction::Watcher"), ("shared variable cells", "src/runtime.rs Shared::alias_inner")],
 state=[("watched", "watchers held by the host: name, sprite, weak reference to the variable")], observe=["values read through every watcher held by the host after each action"])
prop("E14", "When garbage is collected makes no difference to what a project does",
 "However often the host lets the collector run, between any two scheduler steps or never, a project produces the same effects, values and errors in the same order: nothing that a script, closure, clone, queued message or suspended call can still reach is ever taken away, and nothing that was given up comes back.",
 ["programs", "schedules"], "all programs of the named phases of the other checks, each run without any collection and with a full collection after every step",
 "No test collects garbage while a project runs; a reference the collector is not told about is only lost when a collection falls between the last visible use and the next.",
 ["src/process.rs", "src/project.rs", "src/runtime.rs", "src/gc.rs"],
 [("traced state of processes", "src/process.rs Process, CallFrame, Collect impls"), ("traced state of projects", "src/project.rs State, Script, ProcContext"), ("weak references", "src/process.rs Watcher, src/project.rs")],
 observe=["the whole trace of host calls, values, errors and final variables"])
prop("E15", "Repeating work that keeps nothing needs no more memory",
 "Whatever a project did, once its scripts are stopped, its clones deleted and its variables overwritten, the memory in use is what it was after earlier such rounds; and a loop that keeps nothing from one iteration to the next runs for ever in bounded memory. Ended scripts, left loops, calls and handlers, deleted clones, closures, message queues and finished launches leave nothing behind.",
 ["programs", "histories"], "all programs of the named phases of the other checks, repeated for 26 rounds or 28 iterations, and loops that make and delete clones over all pairs of actions in their lives",
 "No test repeats anything or measures memory; a leftover of a few bytes for each iteration shows only after hours.",
 ["src/process.rs", "src/project.rs", "src/runtime.rs"],
 [("operand, call and handler stacks", "src/process.rs Return, PopHandler, step"), ("ended processes and deleted clones", "src/project.rs step (Terminate, DeletedClone), Script")],
 observe=["bytes allocated and not freed after each round, by a counting allocator"])

# ---------------------------------------------------------------- values
prop("E16", "Date and time reporters give the host's local time",
 "At every moment and in every time zone, the year, month, date, day of the week (Sunday is 1), hour, minute, second and millisecond reporters describe the same present moment of the host's clock, the first seven in the host's local time, however precise the clock is when less precision is asked for; the timer and waiting go by that clock too. On a host without a calendar they fail like any other error and nothing else is affected.",
 ["inputs", "programs", "schedules"], "all days of the stated years and times of day in the stated zones; all sequences of the enumerated operations up to the depth bound and clock schedules around boundaries; hosts with a calendar, a mere counter or no clock",
 "Tests cannot fix the clock: one only looks whether the reported numbers are plausible on the day it runs.",
 ["src/process.rs", "src/runtime.rs", "src/bytecode.rs"], [("date and time instruction", "src/process.rs Instruction::PushRealTime"), ("kinds of clock", "src/runtime.rs SysTime")],
 observe=["reported values"])
prop("V01", "List updates change exactly the addressed positions of exactly that list",
 "Insert, replace and delete with a single index, a list of indices, last or random positions leave the list as the positional definition says, keep every other item and its order, and are seen through every alias of that list and through no copy of it. An index that is not a whole number in range fails with an error and leaves every list unchanged, including when the list is used as its own index or item.",
 ["histories", "inputs"], "all operation sequences up to the depth bound over two possibly aliased lists with every index form",
 NOTEST + "sequences, aliasing and self-reference are not combined.",
 ["src/process.rs"], [("list instructions", "src/process.rs ListInsert/ListAssign/ListRemove"), ("index validation", "src/process.rs ops::prep_index, prep_index_set")],
 observe=["contents and identity of all lists after each operation"])
prop("V02", "List queries and constructors compute their definition and never alter inputs",
 "Length, rank, dimensions, flatten, reverse, columns, reshape, combinations, cdr/cons, append, numbers-from-to, find/contains, item selection by nested index lists, lines, CSV and JSON text produce the value their definition gives for every list shape, with fresh outer lists. The operand lists are unchanged afterwards.",
 ["inputs"], "all list shapes up to the enumerated size and depth over the enumerated items",
 NOTEST + "a handful of shapes are compared.",
 ["src/process.rs"], [("list operators", "src/process.rs ops::{dimensions,flatten,columns,reshape,cartesian_product,index_list,find}")],
 observe=["result and operands after each operator"])
prop("V03", "Self-containing values never hang or crash an operation",
 "Every operator, comparison, conversion, display and host hand-over terminates without crashing on lists that contain themselves directly or through each other, giving a value or a cyclic-value error. The same operations on values that merely share sub-lists succeed as if the sub-lists were separate.",
 ["inputs", "programs"], "all list graphs up to N nodes with every edge pattern (cyclic or shared) as operands of every operation",
 "One test runs one self-containing list through a few operators.",
 ["src/process.rs", "src/runtime.rs"], [("cycle detection caches", "src/process.rs ops, src/runtime.rs to_simple/Display")],
 observe=["result or error; process survives"])
prop("V04", "Comparison is a consistent relation with Snap! text and number rules",
 "Equality is reflexive and symmetric and unequal is its negation; a<b, a=b and a>b are mutually exclusive for all values of the same kind and numeric texts, a<=b is exactly a<b or a=b, and swapping the operands mirrors the relation. Numbers and numeric texts compare as numbers, other texts case-insensitively, lists item by item, and find/contains/minimum/maximum agree with these relations.",
 ["inputs"], "all pairs and triples over the enumerated value alphabet including nested lists",
 NOTEST + "tests sample pairs; laws quantify over all pairs and triples.",
 ["src/process.rs"], [("comparison", "src/process.rs ops::cmp, check_relation, identical")],
 observe=["all six relations, identity, find, contains, min, max"])
prop("V05", "Arithmetic is element-wise, exact to definition, and never leaves finite numbers",
 "Each arithmetic operator applied to lists equals applying it item by item (pairing two lists up to the shorter, scalars against every item), and on scalars equals its mathematical definition on numbers and on texts that spell numbers. No operation ever stores a not-a-number or infinite value: it fails with an error instead, and modulus always lies between zero and the divisor.",
 ["inputs"], "all operand pairs over the enumerated scalar alphabet (boundaries, huge, tiny, textual) and list shapes",
 NOTEST + "only fixed tables are compared.",
 ["src/process.rs", "src/runtime.rs", "src/util.rs"], [("vectorised operators", "src/process.rs ops::unary_op/binary_op"), ("finite numbers", "src/runtime.rs Number")],
 observe=["operator results"])
prop("V06", "Numbers and texts convert both ways without loss",
 "Every finite number turned into text and read back as a number is the same number, whole numbers print as whole numbers, and the text never has more digits than are needed to read the number back. Text is accepted as a number exactly when it is, ignoring surrounding whitespace, a decimal, exponent, or 0x/0o/0b integer form (digits only after the prefix, up to 63 bits) with a finite value, and then has the value it spells.",
 ["inputs"], "all enumerated numbers (all small rationals, powers of two and ten and neighbours) and all texts up to the length bound over the numeric alphabet",
 "A unit test checks a fixed list of numbers; reading back is not covered.",
 ["src/runtime.rs", "src/process.rs"], [("number formatting", "src/runtime.rs number_to_string"), ("number parsing", "src/runtime.rs Value::parse_number / as_number")],
 observe=["conversion results through blocks"])
prop("V07", "Values survive JSON, wire, CSV and display conversions",
 "Every value free of cycles and host handles that is sent through JSON, through the NetsBlox message format, or through the plain value form and back is equal to the original (booleans, finite numbers, texts, nested lists, images and sounds with their names), and rectangular text tables with at least one column survive CSV. Texts that themselves spell a NetsBlox costume or sound element are outside the message format. Values that cannot be represented are refused with an error rather than altered.",
 ["inputs"], "all values up to the size/depth bound over the adversarial text and number alphabet, each format",
 "One unit test round-trips a few wire values.",
 ["src/runtime.rs", "src/process.rs"], [("simple values and JSON", "src/runtime.rs SimpleValue"), ("CSV", "src/process.rs ops::to_csv/from_csv")],
 observe=["round-tripped values"])
prop("V08", "Random blocks return only, and all of, the permitted outcomes",
 "Pick-random over whole numbers returns only whole numbers between the two bounds inclusive in either order and can return each of them; with a fractional bound it stays within the bounds. Random item, random insert and random replace address only existing positions, and every one of them, and fail with an error on an empty list.",
 ["inputs", "schedules"], "every raw generator output class for every enumerated pair of bounds and list length",
 NOTEST + "tests sample the generator.",
 ["src/process.rs"], [("random", "src/process.rs ops::random, prep_rand_index")],
 observe=["set of outcomes over all generator outputs"])
prop("V09", "Text operations work on characters and are mutually inverse",
 "Length, letter-of, split, join and unicode conversions count and address whole user-visible characters for any text; splitting and joining with the same separator gives the text back, the pieces contain no separator, and every letter selected by a valid index is the one at that place (the line block takes a final line end as ending the last line, not starting another). Invalid indices and code points fail with an error.",
 ["inputs"], "all texts up to the length bound over an alphabet of ASCII, multi-byte, combining, CR/LF/TAB and separator characters",
 NOTEST + "few fixed strings are used.",
 ["src/process.rs", "src/runtime.rs"], [("text operators", "src/process.rs ops::unary_op_impl, SplitBy, StrGet")],
 observe=["results of text blocks"])

# ---------------------------------------------------------------- scheduling
prop("E17", "What cannot be run is refused when a project is loaded, naming the culprit",
 "A project with a block or an event the VM does not support, a misused system call block, an unknown key name, an initial value or sprite property that is no number, or a reference to nothing is refused when it is loaded, wherever in its scripts, branches, rings, custom blocks or lists that stands, with an error that names exactly it; loading never panics and never accepts such a project to run it as something else. The same project without it is accepted.",
 ["inputs"], "every unsupported block in every operand position of every block and in all pairs of the enumerated places of scripts; every unsupported event in every position; bad numbers and references at the enumerated depths",
 NOTEST + "no test loads a project that must be refused.",
 ["src/bytecode.rs"], [("refusals", "src/bytecode.rs CompileError, append_expr, append_stmt, extract_init_info")],
 observe=["result of ByteCode::compile"])
prop("E18", "A host may run blocks and scripts on their own, together or added later",
 "Compiling tells a host where each block and each script begins. A process the host starts there on an entity, with its arguments as locals, has the effects, result and error that calling that block (or starting that script by its event) has. Several such processes may share a context: in whatever order the host steps them, each behaves as it would alone except through variables and lists they share. A process that has ended stays ended. A project put together script by script behaves as the one loaded whole, and a script added while it runs answers the events that come after.",
 ["programs", "schedules"], "all enumerated blocks, scripts and hats; all pairs of enumerated processes with every placement of switches between them up to the bound; every sequence of inputs up to the bound with the script added at every point",
 "The maintainers' tests run single processes and need the network; none interleaves two, and none adds a script.",
 ["src/process.rs", "src/project.rs", "src/bytecode.rs"], [("process", "src/process.rs Process::new, step, is_running, get_call_stack"), ("project", "src/project.rs Project::new, add_script"), ("positions", "src/bytecode.rs ScriptInfo")],
 observe=["effects, results and errors of each process", "event traces"])
prop("E19", "Stored code and state are read back only by the version that wrote them",
"Code, initial state and locations stored by one version of the system are read back by the same version, whatever the project, and are refused with an error, never misread and never a crash, when the mark of the version in them is any other, when a part is missing, when the text ends early, or when one kind of document is given for another.",
["inputs"], "every single-bit change of the mark, every missing part, every cut of the text, every pair of kinds, over the enumerated programs",
"The maintainers' tests never store code and never read what another version wrote.",
["src/bytecode.rs", "build.rs"], [("fingerprint", "src/bytecode.rs Fingerprint, ByteCode, InitInfo, Locations")],
observe=["acceptance or refusal of each document"])
prop("S01", "Broadcast starts every matching receiver exactly once, afresh",
 "A broadcast starts, once and from the top, every script whose hat accepts that message on every sprite and clone it targets and no other script, each with the message as its received message. A receiver already running is abandoned and restarted, also when it is the broadcaster itself, and the system never crashes whatever the combination.",
 ["programs", "schedules"], "all projects of up to three receiver scripts over two sprites and clones, all target forms, from every running/idle state of each receiver",
 NOTEST + "self-restarting and already-running receivers are not combined.",
 ["src/project.rs"], [("broadcast dispatch", "src/project.rs step, Broadcast arm")],
 observe=["effects of all scripts in order"])
prop("S02", "Broadcast-and-wait resumes when all its receivers have ended, and only then",
 "The waiting script continues at its first turn after every receiver started by that broadcast has ended, whether by finishing, failing, being stopped, being restarted, or its sprite being deleted, and never before. If nothing received the message it continues at once.",
 ["programs", "schedules"], "all receiver lengths, endings and interferences up to the bound",
 NOTEST + "one ending is used.",
 ["src/project.rs", "src/process.rs"], [("barrier", "src/process.rs Barrier, Defer::Barrier")],
 observe=["order of resumption against receiver ends"])
prop("S03", "Incoming messages are each handled once, in arrival order, with their data",
 "Every message received from the network is handled exactly once by each script listening for its type, in arrival order, one at a time per script, with each declared field bound to the message's value or to 0 when absent. None is lost, duplicated or left waiting while the system is idle, however its arrival falls relative to running, failing, stopping or finishing handlers; a reply goes to the sender of the message being handled, at most once.",
 ["schedules", "histories"], "all arrival points of up to N messages relative to the steps of handlers with every kind of ending",
 NOTEST + "one message at a time against a live server.",
 ["src/project.rs", "src/process.rs"], [("context queues", "src/project.rs Script/AllContextsConsumer"), ("reply", "src/process.rs SendNetworkReply")],
 observe=["handled messages, replies, idleness"])
prop("S04", "Stop blocks and the stop button end exactly the scripts they name",
 "Stop all and the stop button end every script and discard everything pending; stop this script ends only the caller, stop other scripts ends all but the caller, stop other scripts in sprite ends exactly the others of that sprite, and stop this block only leaves the current custom block. Nothing ended ever performs another effect, nothing else is affected, and all scripts can be started again afterwards.",
 ["programs", "schedules", "histories"], "all combinations of up to three running scripts, forks and clones, with the stop at every point",
 NOTEST + "each mode is run in one configuration.",
 ["src/project.rs"], [("abort modes", "src/project.rs step, Abort arm")],
 observe=["effects after the stop, restart behaviour"])
prop("S05", "Clones copy their parent at that moment and live and die on their own",
 "A new clone has the parent's field values, properties and costume as of that moment, its own copies of the variables, and the parent's scripts, of which it runs the clone-start ones. Deleting a clone ends all its scripts and nothing else; deleting a non-clone does nothing, and clones of clones behave as clones.",
 ["programs", "histories"], "all sequences of clone, mutate, delete and broadcast up to the bound",
 NOTEST + "two fixed projects.",
 ["src/project.rs", "src/process.rs", "src/runtime.rs"], [("clone", "src/process.rs Clone, src/project.rs CreatedClone/DeletedClone")],
 observe=["field values per entity, effects"])
prop("S06", "Scripts take turns in strict rotation and each turn is atomic",
 "Between two turns of one running script every other running script gets exactly one turn, in a fixed rotation with newly started scripts at the end; within a turn no other script runs. Forking, messaging, cloning or another script ending never makes a script skip or repeat a turn.",
 ["schedules", "programs"], "all mixes of up to three scripts with loops, forks, waits and endings up to the bound",
 NOTEST + "one fixed interleaving.",
 ["src/project.rs"], [("process queue", "src/project.rs step")],
 observe=["global order of effects and yields"])
prop("S07", "User input starts exactly the scripts it addresses",
 "The start button restarts all start scripts and touches nothing else; a key starts every script listening for that key or any key unless it is still running; a custom event starts its listeners with its arguments, interrupting or queueing as requested and never queueing beyond the requested limit. Any sequence of inputs, including ones nothing listens for, is accepted without a crash.",
 ["histories"], "all input sequences up to the depth bound interleaved with steps",
 NOTEST + "inputs are given once at start.",
 ["src/project.rs"], [("inputs", "src/project.rs input")],
 observe=["effects of all scripts in order"])
prop("S08", "A failing script affects no other script",
 "When a script fails, exactly one error report for it is produced, everything it held (broadcast waits, its place in the rotation, its listener slot) is released, and every other script proceeds as if it had ended normally. The next trigger of the failed script runs it again from the top.",
 ["fault_sequences", "schedules"], "an error at every step of every enumerated mix of scripts",
 NOTEST + "errors are only raised in single-script runs.",
 ["src/project.rs", "src/process.rs"], [("error handling of the scheduler", "src/project.rs step Err arm")],
 observe=["effects and errors in order"])
prop("S09", "The scheduler reports idle exactly when nothing can run, and never crashes",
 "For every sequence of inputs, messages and steps the scheduler never panics, reports idle exactly when no script is running, and reports each termination, error, watcher change and pause exactly once and in the step in which it happens. After idling it resumes correctly on the next event.",
 ["histories", "schedules"], "breadth-first exploration of all event histories up to the depth bound over a project with every kind of script",
 NOTEST + "no test explores histories.",
 ["src/project.rs"], [("step", "src/project.rs step")],
 observe=["result of each step"])
prop("S10", "Launched closures run as independent scripts with what they captured",
 "Launching a ring starts a new script that runs the ring once with the given arguments, shares exactly the captured variables with its creator, runs for the creator's sprite, and outlives the creator. The creator continues at once, and failures or stops of either do not affect the other except through stop blocks that name it.",
 ["programs", "schedules"], "all programs of up to the bound with launches in loops, nested launches and shared variables",
 NOTEST + "one launch project.",
 ["src/project.rs", "src/process.rs"], [("fork", "src/process.rs ForkClosure, src/project.rs Fork")],
 observe=["effects in order, variable values"])

# ---------------------------------------------------------------- host-facing library
prop("H01", "Handle table never confuses a removed entry with a later one",
 "In the keyed slot container a key resolves exactly to the value inserted under it until that value is removed, and afterwards to nothing for ever, whatever is inserted later. Length, iteration, retain and clear agree with that mapping.",
 ["histories"], "all operation sequences up to the depth bound", "One test walks one history.",
 ["src/slotmap.rs"], [("generational keys", "src/slotmap.rs")], observe=["container API"])
prop("H02", "Vector maps behave as maps in insertion or sorted order",
 "The vector-backed map behaves as a map: insert replaces or adds, lookup finds exactly the last inserted value, iteration visits each key once in insertion order or, for the sorted variant, in key order. This holds for every history including building from a sequence with repeated keys and reading serialized forms.",
 ["histories"], "all operation sequences up to the depth bound, both variants", "Unit tests walk two histories.",
 ["src/vecmap.rs"], [("vector map", "src/vecmap.rs")], observe=["container API"])
prop("H03", "Asynchronous keys deliver each completion to exactly one poll",
 "However completion and polls from different threads interleave, every poll before completion reports pending, exactly one poll after completion receives the value, and every later poll reports it consumed. A second completion is refused without changing anything.",
 ["schedules"], "all thread interleavings of the enumerated completion/poll programs", "Not tested; needs concurrent schedules.",
 ["src/std_util.rs", "src/runtime.rs"], [("async key", "src/std_util.rs AsyncKey"), ("async result", "src/runtime.rs AsyncResult")], observe=["poll results per thread"])
prop("H04", "The cached clock never returns a time that was not current at its last update",
 "A read at or below the caching precision returns exactly the time of the latest update and never reads the real clock; any other read returns the current time and makes it the cached one. Under concurrent readers and updaters every read returns a time some update or read obtained, never a mixture.",
 ["schedules", "configurations"], "all interleavings of the enumerated reader/updater programs and all precision combinations", "Not tested.",
 ["src/std_util.rs"], [("clock", "src/std_util.rs Clock")], observe=["values read per thread"])
prop("H05", "Layered host configuration tries overrides first and falls back in order",
 "A request or command is offered to the overriding handler first and reaches the next handler exactly when the previous one declines it, unchanged and with the same completion key; it is reported unsupported exactly when nobody takes it. Composition is associative.",
 ["configurations", "programs"], "all handler chains up to the bound for every request and command kind", "Not tested.",
 ["src/runtime.rs"], [("fallback", "src/runtime.rs Config::fallback")], observe=["handlers reached, result"])
prop("H06", "Entity properties stay in range and obey their set/change/get laws",
 "Reading a property after setting it gives the value set, adjusted only as documented: headings and hues wrap into one turn, percentages clamp to 0..100, sizes do not go negative, and changing equals setting to the old value plus the change. Moving forward, going to a point and pointing towards a point are geometrically consistent, and clearing effects resets exactly the effects.",
 ["histories", "inputs"], "all sequences of property operations up to the depth bound over boundary values", "A few properties are tested against a live server only.",
 ["src/runtime.rs", "src/util.rs", "src/process.rs"], [("properties", "src/runtime.rs Properties")], observe=["values through the property blocks"])
prop("H07", "Notes map to MIDI numbers, names and frequencies consistently",
 "Every MIDI number from 0 to 127 and only those yields a note, its names (sharp and flat spelling) parse back to the same note, and its frequency is the equal-tempered one. Any name or number outside that range is refused rather than wrapped to another note.",
 ["inputs"], "every MIDI number, every spelling and every octave text up to the length bound", "Unit test covers listed spellings only.",
 ["src/runtime.rs", "src/process.rs"], [("notes", "src/runtime.rs Note, src/process.rs ops::prep_notes")], observe=["note API and play-notes block"])
prop("H08", "Colors convert between RGB and HSV without changing the color",
 "Every 24-bit color converted to hue, saturation and value and back is the same color with components in range, alpha is carried unchanged, and hues that differ by full turns give the same color. Setting a pen color and reading back its components is consistent with this.",
 ["inputs"], "all 2^24 RGB colors and all alphas", "Unit tests check listed colors.",
 ["src/runtime.rs"], [("color", "src/runtime.rs Color")], observe=["color API"])
prop("H09", "The idle action fires after exactly the configured run of idle steps",
 "The idle action fires exactly when the configured number of consecutive idle or yielding steps has been reached since the last productive step or firing, and an explicit trigger restarts the count. It never fires otherwise.",
 ["histories", "configurations"], "all step-result sequences up to the length bound for each threshold", "Not tested.",
 ["src/project.rs"], [("idle action", "src/project.rs IdleAction")], observe=["firings"])

prop("H10", "The editor extension offers the declared syscalls and mirrors the server",
 "For every configuration the rendered extension is a valid script that offers exactly the declared syscall menu: same nesting, order, labels and values. An upload sends the project with every omitted element removed and nothing else changed. The terminal asks the server again after every answer while it is open, appends each output once keeping the last mebibyte, shows the running state, and each error is attached, with its cause and variables, to every block of its trace that still exists.",
 ["configurations", "histories", "inputs"], "all menus, documents and sequences of user actions, answers and clock advances up to the bound, the rendered script being executed", "A unit test compares the text of six small menus; the script is never run.",
 ["src/template.rs", "src/assets/extension.js"], [("rendering", "src/template.rs ExtensionArgs::render, SyscallMenu"), ("script", "src/assets/extension.js")], observe=["requests, menus and comments seen by a stand-in for the editor"])

# ---------------------------------------------------------------- network system
prop("N01", "The standard system matches replies to requests and times out unanswered ones",
 "Against any server behaviour, a message sent with a request for reply resolves exactly once: to the first reply carrying its own identifier, or to nothing after the timeout, never to a reply meant for another request. Incoming messages are delivered once each in arrival order with their fields, ill-formed packets are ignored, and replies go back to the requesting client with the request's identifier.",
 ["schedules", "fault_sequences"], "all orders of replies, duplicates, foreign and malformed packets up to the bound against a scripted local server", "Tests need the public server.",
 ["src/std_system.rs"], [("message handling", "src/std_system.rs handler threads, message_replies")], observe=["messages at the scripted server and poll results"])
prop("N02", "RPC results and failures reach exactly the calling block",
 "Each RPC is sent once with its service, name and arguments, and whatever order responses arrive in, each calling block gets the response to its own call: decoded values, images or sounds by content type, text otherwise, and an error for failures. Configured overrides are consulted before the network.",
 ["schedules", "fault_sequences"], "all response orders and response kinds up to the bound against a scripted local server", "Tests need the public server.",
 ["src/std_system.rs"], [("rpc", "src/std_system.rs call_rpc_async")], observe=["HTTP requests at the scripted server and values in scripts"])

prop("N03", "The program's execution server answers every sequence of requests faithfully",
 "Driven over HTTP with any sequence of uploads (good, failing or unreadable projects), start, stop and pause requests, the server runs exactly the last project it could load, a failed upload leaves the running one alone, and each pull returns, once and in order, all output and runtime errors produced since the last pull, the running state, and the project now loaded. Unknown input is refused without effect.",
 ["histories", "inputs"], "all request sequences up to the bound against the program as a process", "No test runs the program.",
 ["src/cli.rs"], [("execution server", "src/cli.rs run_server"), ("web routes", "src/cli.rs set_project, send_input, pull_status, get_project")], observe=["HTTP responses and the process's own output"])
prop("N04", "The program runs the chosen role; its file blocks act on exactly the files named",
 "Given a project file and optionally a role, the program runs exactly that role (the only one when none is named); a missing or unreadable file, an unknown role or an open choice is refused with a message and a failing exit code and nothing runs. With file access enabled its file syscalls open, read line by line, write, append and close exactly the named files, byte for byte; a file closed without an error holds everything written; wrong use and closed handles are errors the script can catch, and other files stay as they are. Without it scripts have no file access.",
 ["histories", "inputs"], "all projects, role choices and file operation sequences up to the bound, run as a process in a scratch folder", "No test runs the program.",
 ["src/cli.rs", "src/main.rs"], [("running without a terminal", "src/cli.rs run_proj_non_tty, open_project, run"), ("file blocks", "src/main.rs")], observe=["standard output, exit code and the files left behind"])
prop("N05", "On a terminal, keys and answers reach the right scripts; it is left as found",
 "Running on a terminal, every key pressed starts the scripts waiting for that key and no others; while a question is pending keys edit its answer and Enter answers the oldest question, questions being shown and answered one at a time in order; printed lines appear once and in order; Escape stops all scripts, and Ctrl-C ends the program with the terminal as it found it.",
 ["histories", "inputs"], "all key sequences up to the bound typed to the program on a pseudo terminal", "No test runs the program.",
 ["src/cli.rs"], [("terminal loop", "src/cli.rs run_proj_tty")], observe=["the screen and the terminal's settings"])
prop("N06", "A clock's cached reading is the last one fetched",
 "Reading a clock at or below its caching precision gives the time of the last fetch, by whichever thread and way it was fetched, and never another; reading above it, reading a clock that does not cache, and updating give the present time and, when it caches, make that the cached time. Every time given is in the clock's own zone.",
 ["histories"], "all histories of reading, updating and time passing up to the depth bound, with every kind of caching",
 "No test uses a caching clock.",
 ["src/std_util.rs"], [("clock", "src/std_util.rs Clock")], observe=["times returned"])

# ---------------------------------------------------------------- manifest
DIFF = "exhaustive stateless exploration of the real VM under a controlled host/clock/scheduler inputs, each execution compared event by event with an independent reference interpreter"
# id -> (technique, note)
CLAIMED = {i: (DIFF, "every case of the enumerated space (bounds listed per phase in the evidence) is executed on the real VM; nothing is sampled") for i in
 "E01 E02 E03 E04 E05 E06 E07 E08 E09 E10 E11 E12 E13 E16 S01 S02 S03 S04 S05 S06 S07 S08 S09 S10 V01 V02 V03 V04 V05 V06 V07 V08 V09".split()}
DIRECT = "exhaustive enumeration of operation histories (or of the whole input domain) on the real library code, every result compared with a small model"
CLAIMED |= {i: (DIRECT, "every history up to the bound (or every input of the stated domain) is executed on the real code next to the model; nothing is sampled") for i in
 "E17 E19 H01 H02 H05 H06 H07 H08 H09 H10".split()}
LOOM = "exhaustive exploration of every thread interleaving of the real code (compiled against loom), each execution judged by a search for a sequential order of a small model that explains it"
CLAIMED |= {i: (LOOM, "every interleaving loom distinguishes of every enumerated program is executed on the real code; preemption bound, where one is used, is listed per phase in the evidence") for i in
 "H03 H04".split()}
NET = "exhaustive enumeration of all sequences of network events, calls and clock advances up to the bound around the real standard system with a scripted loopback server, every observation compared with a small model"
CLAIMED |= {i: (NET, "every sequence of events up to the bound is executed on the real code; interleavings of the system's own threads within one event are not enumerated (each event is awaited before the next)") for i in
 "N01 N02 N06".split()}
PROC = "exhaustive enumeration of all sequences of requests, keys or file operations up to the bound given to the real program running as a process, every observation compared with a small model"
CLAIMED |= {i: (PROC, "every sequence up to the bound is executed on the real program; each step is awaited before the next, so steps in flight at the same time are not enumerated") for i in
 "N03 N04 N05".split()}
CLAIMED["E14"] = ("exhaustive stateless exploration of the real VM: every enumerated program is run twice, never collecting and collecting after every scheduler step, and the two executions are compared event by event", CLAIMED["E01"][1])
CLAIMED["E18"] = ("exhaustive stateless exploration of the real VM: every enumerated program is executed in the ways a host may run it (whole project, single processes, processes stepped in every order up to a bound on switches, scripts added later) and the executions are compared event by event", CLAIMED["E01"][1])
CLAIMED["E15"] = ("exhaustive stateless exploration of the real VM: every enumerated program is repeated and the memory in use is counted after each repetition by the allocator; late repetitions must not exceed early ones", CLAIMED["E01"][1])
NOT_APPLICABLE = {}

def write():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    ids = [p["id"] for p in P]
    m = {"version": 1, "setup_cmd": "./run.sh build",
         "checks": [{"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                     "evidence_file": f"evidence/{i}.json", "technique": CLAIMED[i][0], "level": "model_checking", "level_note": CLAIMED[i][1]} for i in ids if i in CLAIMED],
         "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built for it yet")} for i in ids if i not in CLAIMED]}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
if __name__ == "__main__":
    ids = [p["id"] for p in P]; assert len(set(ids)) == len(ids)
    for p in P: assert len(p["title"]) <= 80, p["title"]
    write()
    print(len(P))
