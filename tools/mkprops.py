import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
p("C01","Interned values keep one stable identity",
 "Interning the same value always returns the same key, interning different values never does, and every key handed out resolves to the value it was created for, no matter what is interned afterwards, how often the storage grows, or whether the interner is frozen. Lookups, size and emptiness always reflect exactly the set of distinct values interned so far. When the key space is exhausted the interner fails loudly and never hands out an aliased or wrong key.",
 ["histories","configurations"],"all histories of intern calls up to the stated length, over colliding and non-colliding values, for every key width up to exhaustion",
 "The unit tests intern a few items in one order; identity must survive every history, hash collision, table growth and key-space exhaustion.",
 ["asylum/src/lib.rs","asylum/src/sequence.rs"],[("Interner::intern","asylum/src/lib.rs"),("Interner::finalize","asylum/src/lib.rs")])
p("C02","Sequence interning is transactional and keyed exactly",
 "Building a sequence element by element and interning it is equivalent to interning it in one go: equal sequences share one key, different ones do not, and each key resolves to exactly its elements forever. A sequence that is abandoned half-built leaves no trace in later results or in the size statistics. A (position, length) pair that a key cannot represent is refused, never truncated into another sequence's key.",
 ["histories","configurations"],"all scripts of push, pop, commit and abandon operations mixed with direct interning, up to the stated depth; all (start, length) pairs of the narrow key types",
 "Unit tests exercise one commit or one abandon at a time; the property is about every interleaving of transactions with different sizes and with duplicates of earlier sequences.",
 ["asylum/src/sequence.rs"],[("SequenceEntry push/pop/intern/drop","asylum/src/sequence.rs"),("SequenceKey packing","asylum/src/sequence.rs")])
p("C03","Paths are normalized without changing what they denote",
 "Interning a file path removes empty, current-directory and parent-directory components exactly as lexical normalization prescribes, so two paths share a key if and only if they normalize to the same file, and the key always resolves to that normalized path. Relative paths are refused with an error and leave the set of known paths unchanged. Path and component statistics reflect exactly the distinct paths interned.",
 ["inputs","histories"],"all paths up to the stated number of components over an alphabet with empty, dot, dot-dot, plain, spaced and non-ASCII components, absolute and relative, interned in one shared history",
 "Unit tests use a handful of paths; parent components at every position, above the root, after each other and mixed with empty ones need enumeration.",
 ["asylum/src/path.rs"],[("PathInterner::intern","asylum/src/path.rs"),("InternedPath","asylum/src/path.rs")])
p("C04","Parsing a C++ name does not depend on parsing history",
 "Within one parser, a name yields the same entity whenever it is parsed, two names yield the same entity only if they mean the same thing, and anything parsed earlier keeps displaying identically whatever is parsed, successfully or not, later. A rejected name leaves all entities known so far untouched.",
 ["histories","inputs"],"all sequences of parse attempts up to the stated length over a corpus of valid names, near-duplicates and malformed names that fail at different depths",
 "Unit tests parse each name with a fresh parser; shared interners, aborted transactions and backtracking only show with histories.",
 ["cpparser/src/lib.rs","asylum/src/sequence.rs","cpparser/src/subparsers/names/scopes.rs","cpparser/src/interning/slice.rs"],[("EntityParser::parse_entity","cpparser/src/lib.rs"),("interning of parsed components","cpparser/src/subparsers, cpparser/src/interning")])
p("C05","C++ names are shown back faithfully",
 "Every name in the supported C++ subset is accepted, and displaying it without a length limit gives back the same name in canonical spelling: no part is lost, added, reordered or regrouped. Displaying the reparsed output gives the same text again.",
 ["programs","inputs"],"all names derivable from the stated bounded grammar of nested names, templates, function signatures, types, declarators, literals, operators, lambdas and anonymous entities",
 "Unit tests check isolated parse trees; loss or regrouping of parts shows only for particular combinations of constructs.",
 ["cpparser/src/lib.rs","cpparser/src/subparsers"],[("parsers and their display views","cpparser/src/subparsers")],observe=["simpp output","EntityParser::entity display"])
p("C06","Shortened names fit the requested width and keep most detail",
 "Displaying a name under a column budget never uses more columns than the budget (a lone ellipsis excepted), shows the name in full whenever it fits, and otherwise shows the most detailed simplification that fits, a simplification being the name with everything nested deeper than some level replaced by ellipses. A larger budget never yields a shorter or less detailed rendering.",
 ["inputs","configurations"],"all names of a bounded grammar, times every column budget from one column to beyond the full length",
 "Unit tests check a few widths on one name; the guarantee is for every width on every name.",
 ["cpparser/src/display.rs","simpp/src/main.rs"],[("CustomDisplay::bounded_display","cpparser/src/display.rs"),("per-construct depth-limited display","cpparser/src")],observe=["simpp --max-cols output"])
p("C07","Name parsing is total: it answers on any text without crashing",
 "Given any text of bounded nesting, however long its lists and whatever was parsed before, the C++ name parser terminates promptly and either accepts it or reports a parse error; it never crashes, hangs or aborts the analysis of a trace that contains the text.",
 ["inputs"],"all token strings up to the stated length over the C++ token alphabet that the parser distinguishes, as whole names and inside template or function arguments; all valid names of a bounded grammar cut short or damaged at every character; lists of every kind with lengths around all powers of two up to 2048 (4096); parsing sessions that run out of keys",
 "Unit tests feed names that are meant to parse; malformed or unforeseen names come from every trace and cannot be sampled exhaustively by hand.",
 ["cpparser/src"],[("EntityParser::parse_entity","cpparser/src/lib.rs"),("operator and value parsing","cpparser/src/subparsers/operators, cpparser/src/subparsers/values")])
p("C08","C++ names are split at the right structural boundaries",
 "Template argument lists, function parameter lists, scopes and declarators are split where C++ splits them: commas, angle brackets, operators and parentheses inside literals, nested arguments, operator names or parenthesized expressions never end an enclosing construct. Whitespace that C++ ignores does not change the entity.",
 ["programs","inputs"],"all names of a bounded grammar in which every delimiter-bearing construct is nested in every delimited position; all optional-whitespace variants up to the stated count",
 "Unit tests check individual productions; mis-splits come from one construct nested inside a specific other one.",
 ["cpparser/src/subparsers/templates.rs","cpparser/src/subparsers/functions.rs","cpparser/src/subparsers/values","cpparser/src/subparsers/operators"],[("template parameter and call parsing","cpparser/src/subparsers/templates.rs, cpparser/src/subparsers/functions.rs")])
p("C09","The activity tree mirrors time containment exactly",
 "From any valid set of activity intervals, the reconstructed tree makes each activity the child of the smallest enclosing one, keeps siblings in chronological order and loses or duplicates nothing; self time is duration minus that of direct children, and parents, descendants and roots agree with each other. Intervals that partially overlap, or events listed out of order, are reported as an error instead of yielding a tree.",
 ["inputs"],"all lists of up to the stated number of intervals over a small integer time grid, including shared endpoints, zero-length and identical intervals, in every order",
 "Unit tests check a few hand-made nestings; boundary equality and tie cases explode combinatorially.",
 ["clang-time-trace/src/tree.rs"],[("activity tree construction","clang-time-trace/src/tree.rs")],observe=["clang_time_trace::ClangTrace public accessors"])
p("C10","Traces are accepted exactly when well formed, never crash",
 "Loading a trace file either yields a profile whose process name, start time, global statistics and activities are exactly those in the file, or reports an error describing what is wrong; it never crashes and never silently drops, merges or alters an event. Files with unknown event kinds, contradictory process identifiers, missing or duplicate metadata or malformed statistics are refused.",
 ["inputs"],"all event lists up to the stated length over a catalogue of valid events and of every single-field corruption of them, at every position; all document-level corruptions",
 "Unit tests cover one valid trace and some error cases; which corruption at which position is accepted needs enumeration.",
 ["clang-time-trace/src/lib.rs","clang-time-trace/src/ctf","clang-time-trace/src/metadata.rs","clang-time-trace/src/stats/global.rs"],[("ClangTrace::from_str","clang-time-trace/src/lib.rs"),("event decoding","clang-time-trace/src/ctf")])
p("C11","Activity names and arguments are classified faithfully",
 "Every known kind of clang activity is recognized by name and its detail is decoded as the kind of thing it is (file, C++ entity, mangled or literal symbol, none) and shown back unchanged in meaning; a missing, superfluous, ill-typed or malformed detail yields an error and never a crash or another activity's data. An activity of unknown kind is still loaded, with its detail preserved.",
 ["inputs"],"all known activity names plus unknown ones, times every detail shape in the stated catalogue, times the order in which details are resolved; and whatever clang writes for programs, options and optimization levels of the stated catalogue",
 "Unit tests check one detail per activity kind; the cross product with malformed and unexpected details is not covered.",
 ["clang-time-trace/src/stats/activity"],[("ActivityId and argument parsing","clang-time-trace/src/stats/activity")])
p("C12","A build measurement runs every job exactly once and finishes",
 "Whatever the number of workers and however they are scheduled, measuring a build runs each compilation command to success exactly once, produces a profile with exactly one row per source file carrying that command's own figures, reports one step of progress per job, announces completion exactly once and then terminates: no deadlock, lost wake-up, skipped or repeated job. No more commands run at once than the requested concurrency.",
 ["schedules","configurations"],"all interleavings of workers, monitor and results thread up to the stated preemption bound, for every small number of jobs and workers (and large worker counts on selected schedules)",
 "The tests run a few real commands under whatever schedule the OS picks; lost wake-ups and races need the other schedules.",
 ["cmakeperf/src/measure/mod.rs","cmakeperf/src/measure/main.rs","cmakeperf/src/measure/worker.rs"],[("Measurement::start","cmakeperf/src/measure/mod.rs"),("worker and work queue","cmakeperf/src/measure/worker.rs, cmakeperf/src/measure/mod.rs")])
p("C13","Memory pressure delays jobs but never loses or corrupts them",
 "When memory runs low during a measurement, commands are stopped to free memory and run again later, so that the resulting profile still has exactly one row per source file with figures from a complete run. If memory is exhausted even with a single command left, the measurement reports that it ran out of memory instead of looping or succeeding. A command that did not finish never contributes a row.",
 ["schedules","fault_sequences"],"all interleavings up to the stated preemption bound combined with all placements of memory-pressure episodes in a bounded history",
 "Tests cannot make the machine run out of memory on demand, let alone at every point of every schedule.",
 ["cmakeperf/src/measure/main.rs","cmakeperf/src/measure/worker.rs"],[("memory monitor and job restart","cmakeperf/src/measure")])
p("C14","Cancelling a measurement stops everything promptly",
 "Whenever a running measurement is cancelled, every worker stops, no further command is started, every running command and its descendants are terminated, and the cancellation returns; no schedule leaves a thread blocked or a compiler process running. The completion callback reports the cancellation at most once and no success is reported afterwards unless the work was already complete.",
 ["schedules","crash_points"],"cancellation at every scheduling point of all interleavings up to the stated preemption bound, for every small number of jobs and workers",
 "Tests cancel at one or two moments; shutdown races need every moment.",
 ["cmakeperf/src/measure/mod.rs","cmakeperf/src/measure/main.rs","cmakeperf/src/measure/worker.rs"],[("Measurement drop and stop flags","cmakeperf/src/measure/mod.rs")])
p("C15","Failing commands end the measurement with a clear failure",
 "If any compilation command fails, produces unusable output or cannot be started, the measurement terminates and reports that failure exactly once, with the failing command's diagnostics; it never reports success, hangs, or crashes, and it stops starting further commands.",
 ["schedules","fault_sequences"],"every choice of failing job and failure kind, over all interleavings up to the stated preemption bound",
 "Tests check one failing job under one schedule; termination and single reporting must hold for all of them.",
 ["cmakeperf/src/measure/mod.rs","cmakeperf/src/measure/main.rs","cmakeperf/src/measure/worker.rs"],[("job error propagation","cmakeperf/src/measure/worker.rs")])
p("C17","Profile freshness reflects the files on disk",
 "A stored profile is reported as nonexistent when it is absent, as outdated exactly when the compilation database or one of the source files it derives from is strictly newer, and otherwise as possibly up to date together with its age (unknown if it lies in the future). A full-build profile depends on every source file of the database, a single-file trace only on its own. A source or database that cannot be examined yields an error, not a verdict, unless the profile is already known to be absent or outdated.",
 ["configurations"],"all combinations of missing, older, equal and newer modification times of profile, database and source files for databases of up to the stated number of entries",
 "Unit tests check a few orderings of timestamps; the verdict is a function of every file's state.",
 ["cmakeperf/src/commands.rs"],[("profile and product freshness","cmakeperf/src/commands.rs")])
p("C18","Compilation commands are understood exactly as the shell would",
 "Loading a compilation database yields, for each source file, exactly the program, arguments, directory and output file that the recorded command denotes, including quoting and escaping; looking up a file finds its own entry and no other. Malformed databases are refused, and a command without program or output yields none, never a crash or another command's.",
 ["inputs"],"all databases of up to the stated number of entries, over all command lines of bounded length from an alphabet with quotes, escapes, spaces and output flags, in both output spellings",
 "Unit tests check one typical cmake command; quoting and flag placement need enumeration.",
 ["cmakeperf/src/commands.rs"],[("CompilationDatabase and DatabaseEntry","cmakeperf/src/commands.rs")])
p("C19","Stored build profiles read back exactly",
 "A stored full-build profile reads back as exactly the rows that were measured, in file order, with each row's source file, peak memory and wall time (when it was measured), for any file name including ones with separators, quotes, line breaks or non-ASCII characters. Wall times that are no valid duration are flagged with their raw value instead of being turned into one. A file that cannot be read, lacks a required column or holds ill-typed values is reported as an error, never as a shorter or different profile.",
 ["inputs"],"all profiles of up to the stated number of rows over a catalogue of awkward file names and extreme numbers, and every single-field corruption of them",
 "Unit tests read one simple profile; the space of file names, numbers and corruptions is not covered.",
 ["cmakeperf/src/output.rs","cmakeperf/src/measure/main.rs"],[("output::load and UnitProfile","cmakeperf/src/output.rs"),("CSV writing","cmakeperf/src/measure/main.rs")])
p("C20","Durations are displayed correctly rounded and ordered",
 "A displayed duration, read back in its unit, is within half a unit of the last shown digit of the true value, never shows an out-of-range part such as 60 seconds or 1000 ms, and a longer duration is never displayed as a shorter one.",
 ["inputs"],"every duration around every unit and rounding boundary, on a grid covering the whole displayed range",
 "Unit tests check selected values; carry and rounding bugs hide at boundaries.",
 ["src/ui/display/duration.rs"],[("duration display","src/ui/display/duration.rs")],observe=["crofiler --ui stdio output"])
p("C22","The text report states the true profile",
 "The text report lists exactly the activities at or above the requested thresholds, in decreasing order of self time in the flat profile and of total time in the hierarchical one, with their true times and shares, and states exactly how many were left out. Every share is computed against the trace's total duration, activity breakdowns add up to it, and the hierarchical listing mirrors the activity tree.",
 ["inputs","configurations"],"all small activity trees over a bounded duration grid, times threshold settings on, below and above each activity's share",
 "Unit tests do not cover the report at all; ordering, ties and threshold boundaries need enumeration.",
 ["src/ui/stdio.rs","src/ui/display"],[("stdio report","src/ui/stdio.rs")],observe=["crofiler --ui stdio output"])
p("C21","Shortened labels respect the terminal width",
 "Any label, file path or activity description shortened for display uses no more columns than allotted, is shown unmodified when it fits (except that control characters such as line feeds are shown as spaces), and keeps its beginning and end recognizable otherwise; wide and multi-byte characters are never split. The description of a trace keeps to the width likewise, and states the process, thread and recording time of the trace. A shortened path keeps the file name whenever there is room for it.",
 ["inputs","configurations"],"all labels and paths up to the stated length over an alphabet of narrow, wide, combining and multi-byte characters, times every width",
 "Unit tests check a few strings at a few widths; off-by-one errors depend on the exact combination.",
 ["src/ui/display"],[("path and string display","src/ui/display")],observe=["crofiler --ui stdio output"])
p("C23","Measuring never costs the user an earlier profile",
 "When measuring a full-build profile or a single-file trace fails or is cancelled at any moment, the earlier profile is back in place with its original content, and if there was none, no partial one is left behind. A successful measurement leaves exactly the newly measured profile, and no backup.",
 ["schedules","crash_points","fault_sequences"],"failure or cancellation at every step of the measurement, over every combination of pre-existing profile, leftover backup and partial output",
 "Nothing tests this path; cancellation at each point cannot be hit by hand.",
 ["src/ui/tui/trace/measure.rs","src/ui/tui/build/measure.rs"],[("TraceBackup and cancelable clang","src/ui/tui/trace/measure.rs"),("MeasureHandle","src/ui/tui/build/measure.rs")],observe=["files beside the trace and profile output, driving the real binary in a pseudo-terminal"])
p("C24","Choosing a file in the table analyses exactly that file",
 "The table of a build profile shows every file once with its recorded figures and its path, abbreviated if there is no room for it, sorted as marked, and stays so when scrolled. Choosing a row analyses that row's file, be it a link or in a linked directory: an existing trace is offered for reuse exactly when it may be up to date; otherwise, or if the user wants a new one, the compiler is run exactly once, in the recorded directory with the recorded arguments plus the tracing options, and the trace it wrote is shown. Declining or cancelling runs nothing. A compiler that fails is reported with its exit status and diagnostics, however much it prints; files without an entry, output or source are reported and the table stays usable.",
 ["configurations","schedules"],"all combinations of file, sort order, trace state (missing, outdated, possibly current), user answer, kind of recorded command and compiler outcome and output volume, and terminal width and number of rows, up to the stated bounds",
 "No test covers this path, and a wrong row, directory or option only shows for particular sort orders, commands or compiler outputs.",
 ["src/ui/tui/build/display.rs","src/ui/tui/trace/measure.rs","src/ui/tui/create.rs","src/trace.rs","src/clang.rs"],[("display_profile","src/ui/tui/build/display.rs"),("measure_trace","src/ui/tui/trace/measure.rs")],observe=["screen of the real binary in a pseudo-terminal, and the compiler commands it runs"])
p("C25","The interactive profile views are truthful in every state",
 "Whatever sequence of commands led there, the view shown is the one the user navigated to: it lists exactly the activities of that place in the tree (flat or hierarchical), each with its true times or shares of the chosen reference, in the marked order, the highlighted row being the activity that is described and that Return zooms into; the backtrace lists the views below, and Esc and dialogs lead back to them unchanged. No command, trace (including ones without time or activities), or terminal size makes the program crash, and files that are no traces are reported.",
 ["histories","inputs","configurations"],"every command in every reachable state of a reference model of the views for small traces, all raw key sequences up to the stated length, and all terminal sizes in the stated range",
 "The interactive interface has no tests; stale figures, orders and selections need particular sequences of commands.",
 ["src/ui/tui/trace/display.rs","src/ui/tui/trace/load.rs","src/ui/tui/init.rs","src/ui/tui/processing.rs"],[("show_profile and switch_duration_unit","src/ui/tui/trace/display.rs"),("exit_current_layer and backtrace_dialog","src/ui/tui/init.rs")],observe=["screen of the real binary in a pseudo-terminal"])
p("C26","Starting in a build directory offers what its files allow",
 "Without an input file the program reports a missing or unreadable compilation database, and a missing, broken or too old clang++. It asks before measuring when there is no build profile, says so when the profile is older than the database or a source, mentions its true age when it may be outdated, and asks nothing about a recent profile or one that was given explicitly and is not outdated. The answer is obeyed: reuse shows the recorded figures and changes no file, measuring compiles every file once and writes only the profile, declining or quitting changes nothing. Unreadable profiles are reported; nothing crashes.",
 ["configurations","inputs"],"all combinations of the stated catalogues of databases, clang++ versions, profile states and ages, options and answers",
 "Start-up has no tests, depends on external programs and on file times, and asks different questions on each side of several boundaries.",
 ["src/ui/tui/build/mod.rs","src/ui/tui/create.rs","src/clang.rs","src/ui/tui/build/measure.rs"],[("profile and update_profile","src/ui/tui/build/mod.rs"),("CreatePrompt::from_freshness","src/ui/tui/create.rs"),("find_clangpp","src/clang.rs")],observe=["screen of the real binary in a pseudo-terminal, files, and the compilers it runs"])
p("C27","Loading a trace can be abandoned at any moment",
 "While a trace is being read or analysed, the user can abort, ask to quit, change their mind, and start loading the same or another trace. An aborted load never shows up later, whatever the order in which loads end; what is shown in the end is the trace that was chosen last, complete and with its own figures; the other views and commands work as if the aborted loads had not been there. Quitting ends the program without waiting for the loads and without a crash. A load that fails is reported once.",
 ["schedules","histories"],"all interleavings, up to the stated number of loads, of user commands (choose, abort, quit, change one's mind) and of the moments at which file reads and load results are delivered",
 "The races between the interface and the abandoned processing threads need particular schedules that no test produces.",
 ["src/ui/tui/trace/load.rs","src/ui/tui/processing.rs"],[("show_loader, start_wait_for_input, end_wait_for_input","src/ui/tui/trace/load.rs"),("ProcessingThread","src/ui/tui/processing.rs")],observe=["screen and exit status of the real binary in a pseudo-terminal"])
p("C28","The command line selects interface and settings as documented",
 "--ui auto starts the text interface exactly when standard input and output are both terminals and writes the report otherwise; an explicit choice is obeyed. The report takes the width of the terminal if it is one of known size, at most --cols, and is the same whether it goes to a terminal, a pipe or a file; -s governs the self times only and -i the hierarchical profile only, with the documented defaults, in every spelling and order. Unreadable input yields a message and no report, mistakes on the command line are refused with a failure status, and no file is changed.",
 ["configurations"],"all combinations of interface option, kind of standard input and output, and input; all pairs of the stated terminal widths and limits; all combinations of the stated settings in every spelling and order",
 "Argument handling has no tests, and terminals behave differently from the pipes that tests use.",
 ["src/main.rs","src/ui/stdio.rs","src/ui/tui/mod.rs"],[("main and CliArgs","src/main.rs"),("run","src/ui/stdio.rs")],observe=["standard output, errors, exit status and screen of the real binary"])
p("C29","simpp prints the most detailed simplification of a name that fits",
 "Given a width and a C++ name, as an argument or otherwise on the standard input, simpp prints exactly one line: the most detailed simplification of that name that fits the width, or the name in full when it fits. Blanks and line breaks around the name do not matter, nor how the input is cut into pieces; standard input is left alone when the name is an argument. Without a valid name or width it fails with a message and prints nothing.",
 ["inputs","configurations"],"all names of a bounded grammar and all widths, in every way of giving the name and spelling the width, and the stated mistakes",
 "simpp has no tests at all.",
 ["simpp/src/main.rs"],[("main","simpp/src/main.rs")],observe=["standard output, errors and exit status of the real binary"])
P.sort(key=lambda x:x["id"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
