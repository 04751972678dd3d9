#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and properties.jsonl"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("explicit enumeration of all operation histories on the real interner, compared with a reference list", "All histories up to length 9 (quick) / 11 (thorough) over 3-4 values plus cloning, with colliding hashes and five key types; table growth and key exhaustion are covered by complete deterministic runs."),
 "C02": ("explicit enumeration of all transaction scripts on the real sequence interner, compared with a reference set", "All depth-2 combinations of transactions of up to 4 steps and direct interning, depth 4/5 for shorter ones; key packing on a complete grid of boundaries."),
 "C03": ("explicit enumeration of all paths and interning orders on the real path interner, compared with lexical normalization", "All paths of up to 5-8 components (quick) over small alphabets, up to 254 components on selected shapes."),
 "C04": ("explicit enumeration of all parse histories on the real parser, compared with a fresh parser per name and with known aliases", "All histories of 3 (quick) / 4 (thorough) parses over a corpus of 50 valid, aliased and malformed names, plus every name of a grammar in long histories."),
 "C05": ("explicit enumeration of a bounded grammar generated together with its meaning, run through the real parser", "Every atom in every chain of up to 3 of about 130 contexts (3.7 million names), and a few atoms in chains of 4 in the thorough tier; names that are ambiguous without declarations are excluded."),
 "C06": ("explicit enumeration of a bounded grammar times all column budgets on the real parser, compared with an independent model of the elided spellings", "All names of 2-3 nested contexts (quick) or 3 (thorough), at every budget from 1 to beyond the full length."),
 "C07": ("explicit enumeration of all token strings up to a bound on the real parser, monitored for crashes and hangs", "All strings of up to 4 out of 63 tokens in 3 wrappers (thorough: 5 out of 46), plus all truncations and damages of the names of a grammar; parsing time is exponential in nesting depth, which the bound keeps small."),
 "C08": ("explicit enumeration of a bounded grammar, comparing the structure reported by the real parser with the structure each name was generated from, and all whitespace variants", "Every atom in every chain of up to 3 contexts; whitespace at every single position and at all positions at once."),
 "C09": ("explicit enumeration of all interval lists on small time grids, loaded by the real trace reader and compared with an O(n2) containment oracle", "All lists of up to 8 intervals on 3 grid points, 6 on 5, 4 on 9 (thorough: 10, 7, 4 on 12), in every order, plus long regular shapes."),
 "C10": ("explicit enumeration of event lists, corruptions and damaged documents on the real trace reader, compared with a reference validity predicate", "All lists of up to 4 (thorough: 5) of 19 valid events, about 8000 corrupted events at every position among up to 2 (thorough: 3) valid ones, all pairs of document-level keys, all one-character damages of a document. JSON duplicate keys and unknown extra event fields are unspecified."),
 "C11": ("explicit enumeration of activity names, details and resolution orders on the real trace reader, compared with a reference table and a small name mangler; and of types, names and compiler options whose traces the installed clang writes", "All 122 known activities and about 490 unknown names with every detail of a catalogue (hundreds in the quick tier, thousands in the thorough one); all ordered triples of a corpus for independence of resolution order. About 50 (thorough: 180) real traces of clang: all types of up to two constructors over 20 basic ones, a program with every kind of name, 21 option sets and 7 optimization levels; every distinct detail of each."),
 "C12": ("controlled-scheduler exploration of the real measurement code: every schedule within a deviation bound, compared with a reference outcome", "1-4 jobs on 1-4 workers with all run times from a small set, up to 3 (quick: 2) deviations from the default schedule at any point, including stalled threads and spurious wake-ups; 63-130 workers on selected schedules. Commands, processes, time and memory are simulated beneath the system calls; interleavings are sequentially consistent."),
 "C13": ("controlled-scheduler exploration of the real measurement code with every placement of memory readings in a bounded history", "All scripts of memory levels of bounded length, combined with up to 2 (thorough: 3) scheduling deviations; levels near the threshold for a single poll may or may not be reported as out of memory."),
 "C14": ("controlled-scheduler exploration of the real measurement code with cancellation at every step of every explored schedule", "Cancellation at every step of all schedules within 1-2 (thorough: 2-3) deviations, for jobs with descendants, just-started commands, memory pressure and quick jobs. Processes that ignore SIGTERM or fork in the instant between snapshot and kill are excluded."),
 "C15": ("controlled-scheduler exploration of the real measurement code with every choice of failing job and failure kind", "Every failing job, failure kind (exit status, signal, cannot start, malformed, mute or excessive output) and pairs of them, under all schedules within 1-2 (thorough: 2-3) deviations."),
 "C17": ("explicit enumeration of all file-state configurations on the real freshness check, compared with a reference verdict", "Seven states (missing, unreadable, older/newer by 1 h and 1 ns, equal) for the database and each of up to 3 (thorough: 4) sources, 15 states of the profile, in the past and in the future, including symbolic links; real files with set modification times."),
 "C18": ("explicit enumeration of all command strings and small databases on the real database reader, compared with a reference splitter validated against sh", "All strings of up to 7 (thorough: 8) of 12 characters; all lists of up to 4 (5) of 18 arguments in 3 quoting styles and 4 directories; all databases of up to 3 (4) of 12 entries with every malformed field and truncation. Expansions, comments, unterminated quotes and several -o flags are unspecified."),
 "C19": ("explicit enumeration of small profiles and single-field corruptions on the real profile reader, compared with an independent CSV codec", "26 awkward names x 11 memory sizes x 18 times, all lists of up to 3 (thorough: 4) of 26 rows, every field of profiles of up to 3 (4) rows corrupted in 8-17 ways, all truncations. What the measurement itself writes is checked in C12."),
 "C20": ("explicit enumeration of all durations on a grid around every unit and rounding boundary, run through the real program and read back from its report", "Every microsecond up to 1.1 s (thorough: 10 s), every rounding boundary up to 61 s and in selected (thorough: all) minutes up to 2 h, carries at every second, minute and hour up to 100 days (400), every nanosecond around boundaries below a minute."),
 "C21": ("explicit enumeration of all small labels and paths times all widths on the real program, compared with an independent reference", "All strings of up to 6 (thorough: 8) of 4 graphemes and 4 (5) of 8, long strings with a wide or multi-byte character anywhere, all paths of up to 4 (5) components, at every width from 1 column. Descriptions of the trace with recording times of all magnitudes and around the limits of dates. Emoji sequences and lone combining marks are excluded, as the documentation does; C++ entities are only checked for width here (C06 decides their shortening)."),
 "C22": ("explicit enumeration of all small activity trees times threshold settings on the real program, compared with a reference report", "All trees of up to 3 (thorough: 4) activities of 0-3 eighths of the total time, with thresholds on and around every eighth, decimal thresholds on and around shares, forests of several roots, large regular trees, and the trace of the test suite. Traces of no duration are unspecified."),
 "C23": ("exploration of the real program in a pseudo-terminal under a controlled environment: every file operation and every compiler step is held by the driver, which enumerates their orders and the user's actions", "All schedules within 1-2 (thorough: 2-3) deviations - Abort, quit, Ctrl+C, Esc, measuring again, reordered or failing file operations - of every combination of earlier profile, leftover backup and compiler outcome, for builds and single files, also two measurements in a row. Killing crofiler itself and compilers whose descendants outlive them are excluded."),
 "C24": ("exhaustive exploration of the real program in a pseudo-terminal with stand-in compilers under the driver's control", "All combinations of file, sort order, trace state, answer, recorded command and compiler outcome within the stated catalogues. Of long diagnostics only the beginning has to be shown. How paths are abbreviated is only judged by consistency with the path; a few columns may stay free."),
 "C25": ("explicit-state model of the views, every transition of every reachable state being replayed on the real program in a pseudo-terminal; De Bruijn sequences of raw keys with an invariant; all terminal sizes in a range", "All model transitions for small traces, all raw key words of length 3 (thorough: 4), terminal sizes 1-46 x 1-14 (thorough: 1-70 x 1-16). Ties in the order, the direction when another column is chosen and the selection after toggling flat views are left open; views laid out for another terminal size need not be legible."),
 "C26": ("exhaustive exploration of the start-up decisions of the real program in a pseudo-terminal, with stand-in compilers and file times set by the driver", "All combinations of the stated catalogues of databases, compiler versions, profile states, ages (30 s around each boundary are left out), options and answers."),
 "C27": ("stateless exploration of the schedules of the real program: file reads of the processing threads are held and released in every order relative to user commands; explicit-state model as oracle", "Up to two abandoned loads at a time (thorough: three), one to three files; reads are held as a whole, not byte by byte."),
 "C29": ("explicit enumeration of names, widths and ways of giving them on the real simpp program, compared with the simplifications each name was generated with", "All names of a bounded grammar (quick: few contexts, thorough: every atom in every context) at the widths where their simplification changes; about 40 names at every width through every channel (argument, file, pipe cut at every byte, terminal), and a catalogue of mistakes."),
 "C28": ("exhaustive exploration of command lines, terminals and pipes on the real program; differential oracle between configurations that must agree", "The stated catalogues of spellings, widths (thorough: 1-210 and some larger) and thresholds; the text interface is only started on terminals of known size."),
}
exec(open(os.path.join(root, "tools/manifest_more.py")).read()) if os.path.exists(os.path.join(root, "tools/manifest_more.py")) else None
NA = globals().get("NA", {})
COMMITS = globals().get("COMMITS", [])
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check --setup",
     "hooks": {"guard": "crofiler_verif", "enable": "RUSTFLAGS='--cfg crofiler_verif' (no hook is needed so far)", "source_commits": COMMITS},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in T:
        tech, note = T[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                            "technique": "model checking: " + tech, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
