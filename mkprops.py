#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
PP = "crates/mdbook-aquascope/src/preprocessor.rs"
MAIN = "crates/mdbook-aquascope/src/main.rs"
CACHE = "crates/mdbook-aquascope/src/cache.rs"
BLOCK = "crates/mdbook-aquascope/src/block.rs"
ANN = "crates/mdbook-aquascope/src/annotations.rs"
PERM = "crates/mdbook-aquascope/src/permissions.rs"
UTIL = "crates/aquascope_workspace_utils/src/lib.rs"
SRV = "crates/aquascope_serve/src/server.rs"
CONT = "crates/aquascope_serve/src/container.rs"
LIB = "frontend/packages/aquascope-editor/src/lib.tsx"
EMB = "frontend/packages/aquascope-embed/src/main.tsx"
STA = "frontend/packages/aquascope-standalone/src/index.tsx"
PLUG = "crates/aquascope_front/src/plugin.rs"
ANA = "crates/aquascope/src/analysis/mod.rs"
STEP = "crates/aquascope/src/analysis/stepper/table_builder.rs"
ERRS = "crates/aquascope/src/errors/mod.rs"

def m(name, where): return {"name": name, "where": where}

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, na=None, level_note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=list(state), mechanism=mech, observe_at=list(observe), hook_needed=hook),
                  na=na, level_note=level_note))

prop("C01", "A book is rendered faithfully under every schedule",
     "Whenever a build of a book succeeds, the emitted book is the input with every Aquascope block replaced in place by one element carrying that block's own code, annotations (every position in them being that of its marker in the code, as the page's editor counts), options and the analysis results for exactly that code and those options, every permission marker outside a block replaced by its badge, and everything else unchanged byte for byte. "
     "If every analysis succeeds, so does the build. "
     "Both hold for every number of CPUs, every interleaving of the blocks' analyses and of their output, and whether results come from an analysis or from the cache.",
     ["schedules", "inputs", "histories"],
     "books of several chapters, programs and variants of one program; CPU counts; interleavings of the worker threads, of the started processes and of their writes; sequences of builds sharing a cache, also at the same time",
     "The tests parse single blocks; no test builds a book with more than one block, none decides the order in which workers and analyses run.",
     [PP, BLOCK, ANN, PERM, CACHE, MAIN],
     [m("parallel replacement of the blocks of a chapter", PP + " replacements"), m("cache lookup keyed by the block", PP + " process_code"), m("one project directory per block", PP + " run_aquascope")],
     [{"name": "cache", "meaning": "results by hash of the block, shared by all workers", "where": CACHE}],
     ["standard output of the preprocessor", "files of the book's source directory"],
     level_note="Search, not proof: thousands of seeded schedules and books against an independent model of the output; preemption at system calls and allocations, memory sequentially consistent.")
prop("C02", "A failed analysis is never masked",
     "If an analysis that a book needs, or the set-up of its project, fails in any way (exits with an error, is killed, reports an error as its result, is cut short, or writes something that is no result), then the build fails, says why, including what an analysis that exited with an error wrote to its standard error, and emits no book. "
     "The outcome of a failed analysis is never kept: a later build analyses the program again, and succeeds once nothing fails.",
     ["fault_sequences", "schedules", "histories"],
     "every way in which a started program can fail, at every operation of every block, alone or several at once, under every interleaving with the analyses that succeed, over sequences of builds",
     "The only test of the preprocessor runs well-formed programs; none makes an analysis fail, let alone while others are under way.",
     [PP, CACHE, MAIN],
     [m("exit status, Err and BuildError results are turned into errors", PP + " run_aquascope"), m("only complete results are put into the cache", PP + " process_code")],
     observe=["exit status, standard output and standard error of the preprocessor", "the programs it starts"],
     level_note="Fault injection at every started program (17 ways to fail) in seeded schedules; complete for none.")
prop("C03", "No state of the results cache can make a build wrong",
     "In whatever state the results cache was left (by a build that was killed at any point, a power loss, a full disk, an I/O error, another build at the same time, or damage to the file), a build that succeeds emits exactly what it would without a cache, and a build that meets no further fault succeeds.",
     ["crash_points", "fault_sequences", "histories", "schedules"],
     "every system call of a build as a crash point, every I/O call on the cache failing or cut short, torn and lost writes at power loss, truncation, bit flips, foreign content, concurrent builds, in sequences",
     "The cache test runs two undisturbed builds after one another.",
     [CACHE, PP],
     [m("an unreadable cache is treated as empty", CACHE + " load"), m("truncate, rewind and rewrite as one gzip stream", CACHE + " save")],
     [{"name": ".aquascope-cache", "meaning": "gzip-compressed results by hash of the block", "where": CACHE}],
     ["standard output of the builds that follow"],
     level_note="Crash points, torn writes and corruptions are sampled by seed; the file system is simulated (writes without fsync may be lost or torn at power loss).")
prop("C04", "Exactly the blocks that are new are analysed",
     "A build analyses a block if and only if no earlier successful build stored the results of a block with the same program, operations and options: blocks that stayed the same are not analysed again wherever they move in the book, and blocks that changed always are. "
     "A build that analyses nothing leaves the cache file as it is.",
     ["histories", "schedules", "inputs"],
     "sequences of builds of a changing book (blocks moved, dropped, changed in code, options, operations or annotations; failing builds in between), under every interleaving of the workers",
     "The test has one block, one chapter and one change.",
     [CACHE, PP, BLOCK],
     [m("lookup before analysis, insertion after", PP + " process_code"), m("save only when something was added", CACHE + " save")],
     [{"name": "dirty", "meaning": "something was added since the cache was loaded", "where": CACHE}],
     ["programs started by the preprocessor", "content of the cache file"],
     level_note="Counts the analyses started in each simulated build of a history against a set model of the cache.")
prop("C05", "Every build ends in time, and no prompt analysis is cut off",
     "Every build ends: an analysis that takes longer than ten seconds is stopped then, and the build fails with a message. "
     "An analysis that ends within its time is never cut off, however much it writes to standard output and standard error, in whatever order and pieces, and even if a process it started stays on and holds its output open.",
     ["schedules", "fault_sequences", "inputs"],
     "analyses that never end, before, after or in the middle of their output, or wait for a descendant that never ends; outputs larger than a pipe on either stream; any interleaving with the workers and with other analyses",
     "No test has an analysis that hangs or writes more than a pipe holds; waiting out real timeouts is too slow to explore.",
     [PP],
     [m("wait with a timeout, then kill", PP + " run_aquascope")],
     observe=["end of the preprocessor's process", "life of the processes it starts, on the simulated clock"],
     level_note="Simulated clock: timeouts cost nothing, so thousands of hung analyses are explored; bounded liveness, sampled.")
prop("C06", "A build leaves nothing behind",
     "When a build has ended, successfully or not (other than by being killed), the temporary directories it made are gone and none of the analyses it started is still running.",
     ["fault_sequences", "schedules"],
     "every way in which an analysis or project set-up can fail or hang, failing system calls (open, write, mkdir, pipe, spawn), any interleaving of workers when one of them fails",
     "No test looks at what is left, and none makes a step fail.",
     [PP],
     [m("temporary directory removed when its owner goes out of scope", PP + " run_aquascope"), m("the child is killed at the timeout", PP + " run_aquascope")],
     observe=["simulated temporary directory", "simulated process table"],
     level_note="Sampled by seed. A known finding is listed: descendants of an analysis that was cut off keep running.")
prop("C07", "The toolchain is the one given or found, or the build says why not",
     "Every analysis of a build runs with the Miri sysroot and the compiler library path of the toolchain named in the environment, or else of the one found by asking the toolchain manager. "
     "If asking fails in any way, the build fails with a message before anything is analysed, and never panics.",
     ["fault_sequences", "configurations"],
     "every combination of what the environment names and of how each discovery command behaves (fails, is killed, missing, slow, writes much or not UTF-8)",
     "The tests run with one installed toolchain.",
     [UTIL, PP],
     [m("environment first, then cargo miri, rustup, rustc", UTIL), m("environment of every analysis", PP + " run_aquascope")],
     observe=["environment of the started analyses", "standard error of the preprocessor"],
     level_note="Fault injection at the discovery commands, sampled by seed.")
prop("C08", "Building a book is reproducible",
     "Builds of the same book emit the same bytes: whatever the number of CPUs, the interleaving of workers and analyses, the state of the cache, the seeds of hash tables, the names of temporary directories and the time of day, and whether other builds run at the same time.",
     ["schedules", "histories"],
     "pairs of successful builds of one book at any points of a history of builds, with the cache full, empty, removed, damaged or holding other books' results, each under its own schedule, hash seeds and clock",
     "The cache test compares cache files, not books; a difference between two runs of one binary shows in no single run.",
     [PP, ANN, CACHE, BLOCK],
     [m("the element of a block is written in a fixed order", PP + " process_code"), m("annotations are serialised in a fixed order", ANN), m("replacements are sorted by position", "mdbook-preprocessor-utils")],
     observe=["standard output of the preprocessor"],
     level_note="Compares whole outputs of builds under different seeded schedules, hash seeds and clocks; sampled.")

prop("S01", "Every request to the server is answered",
     "The server answers every complete request on every connection, in order, with exactly one well-formed response: the greeting, the result of the analysis, or an error that says why, and an analysis that could be run is never answered with an error of the server. "
     "Neither a request nor a client that leaves at any point, nor a program that fails, nor a failing system call ends the server or keeps it from serving the requests that follow.",
     ["schedules", "fault_sequences", "inputs"],
     "any number of concurrent clients sending well-formed, malformed, pipelined, chunked and slow requests and leaving at any point; every way in which the started programs can fail; failing system calls (accept, open, write, mkdir, pipe, spawn); any interleaving of the executor's threads",
     "The crate's only test makes one project directory; none starts the server.",
     [SRV, CONT],
     [m("errors are turned into responses", SRV + " make_single_file_endpoint"), m("rejections are turned into JSON errors", SRV + " Json::from_request"), m("commands' outcomes", CONT + " exec_output")],
     observe=["bytes received by the clients", "life of the server's process"],
     level_note="Real server with its tokio threads under seeded schedules and faults on a simulated network; sampled.")
prop("S02", "Requests do not affect one another",
     "The answer to an analysis request carries, verbatim, the standard output and standard error of one analysis made for this request: of exactly the program sent, with the operation and options asked for, in a fresh project directory of its own, with the Miri sysroot of the toolchain. It is marked a success if and only if that analysis wrote something to its standard output. "
     "This holds whatever other requests are under way, and exactly one analysis is run per request.",
     ["schedules", "inputs"],
     "any number of concurrent clients, equal and different programs, outputs of any size in any pieces, every way in which analyses can end, any interleaving of the executor's threads and the started programs",
     "No test sends a request, let alone two at the same time.",
     [SRV, CONT],
     [m("one container per request", SRV + " with_container"), m("both streams are collected", CONT + " exec_output"), m("options of the command", CONT + " interpreter_command")],
     observe=["bytes received by the clients", "programs started by the server: arguments, environment, directory, source file"],
     level_note="Every analysis is a pure function of its program and options, so a mix-up shows in the response; sampled by seed.")
prop("S03", "No request waits for another, and nothing stays behind",
     "A command that a request needs is stopped after twenty seconds, and the request is answered with an error then. No request is delayed by another one, nor by a command that hangs. "
     "When a request is over, answered or abandoned by its client, nothing stays behind: its commands have ended, its directory is gone, and the descriptors it used are closed.",
     ["schedules", "fault_sequences"],
     "commands that hang before, in or after their output at any step of a request; clients that leave at any point; slow discovery of the toolchain; any number of executor threads and any interleaving",
     "No test has a command that hangs or a client that leaves; waiting out real timeouts is too slow to explore.",
     [CONT, SRV],
     [m("timeout around each command", CONT + " exec_output"), m("temporary directory owned by the request", CONT + " Container")],
     observe=["arrival of the responses on the simulated clock", "simulated process table, temporary directory and descriptor table of the server"],
     level_note="Simulated clock; bounded liveness, sampled. A known finding is listed: descendants of a command that was stopped keep running.")

prop("D01", "An analysis is a function of its program",
     "The result of `cargo aquascope` for a program and its options (exit status and the JSON value written to standard output) is always the same: under any memory layout, hash seed, clock, directory, unrelated environment, number of CPUs and thread schedule, also next to other analyses, and whatever an analysis that failed or was killed left behind. "
     "The result for a function, where the analysis gives one, does not depend on the bodies of the other functions of the program.",
     ["schedules", "fault_sequences", "histories", "inputs"],
     "generated programs, each analysed several times with different layouts, seeds, clocks, schedules and environments, after failed and killed analyses, and with the bodies of other functions replaced",
     "A test analyses a program once and compares with a snapshot; results whose order or content depends on addresses, hash seeds or what came before look right in every single run.",
     [PLUG, ANA, STEP, "crates/aquascope/src/analysis/boundaries", "crates/aquascope/src/analysis/permissions", ERRS],
     [m("rows of a step in a fixed order", STEP), m("diagnostics are recorded per body and taken when it is done", ERRS), m("bodies are analysed one after another in one thread", PLUG)],
     [{"name": "diagnostics", "meaning": "thread-local, of the body under analysis", "where": ERRS}],
     ["exit status, standard output and standard error of the compiler driver"],
     level_note="The real driver (rustc with Aquascope's analyses) under seeded schedules, layouts and faults; sampled.")
prop("D02", "An analysis that did not complete is not passed off as one",
     "Every analysis ends. If it exits with success, its standard output is one JSON list with a result or an error for every function of the program, each result being that of an undisturbed analysis; otherwise it exits with a failure. "
     "This holds for programs that do not compile, too, and whatever fails on the way: memory, reading or writing of files, starting of threads, standard output that is full or closed, signals.",
     ["fault_sequences", "crash_points", "inputs"],
     "programs that compile, are rejected at each stage of the compiler, or have no functions; every system call failing, cut short or killed at; standard output full, slow or closed by its reader",
     "The tests run analyses in which nothing fails, and look at no exit status.",
     [PLUG, ERRS],
     [m("result or error of every body, printed at the end", PLUG + " postprocess"), m("a compilation that stopped is reported", PLUG + " run_with_callbacks")],
     observe=["exit status and standard output of the compiler driver"],
     level_note="Fault injection at the system calls of the real driver, sampled by seed.")

prop("E01", "What the editor shows belongs to the code in it",
     "The permission boundaries, permission steps, loan and move regions, and state markers shown in an editor (playground or embedded block) are at all times those of results for exactly the code that the editor contains, or none: "
     "whenever and however the code is edited, however long a request takes, in whatever order responses arrive, and whichever of them fail.",
     ["schedules", "fault_sequences", "histories"],
     "any sequence of edits, undos, presses of buttons and check boxes, and calls; any delay and order of responses; requests that fail before, in or after their response; pages with several editors",
     "The browser tests load a page and press a button once, with nothing edited meanwhile and nothing failing; the build does not run them.",
     [LIB, "frontend/packages/aquascope-editor/src/editor-utils", EMB, STA],
     [m("marks are cleared on edit", LIB + " resetMarkedRangesOnEdit"), m("a response for other code is dropped", LIB + " renderOperation"), m("fields of decorations", "frontend/packages/aquascope-editor/src/editor-utils/misc.tsx makeDecorationField, genStateField")],
     observe=["decorations provided by the editor's fields after every event", "document of the editor"],
     level_note="The real pages under a simulated browser, editor and network; sampled by seed.")
prop("E02", "Every request of the page ends with its result or a reason",
     "Pressing a page's button sends one request per operation, with the code in the editor and the options chosen. When the request ends and the code was not edited meanwhile, its result is shown (boundaries and steps as chosen, markers and the diagram of states), along with the errors in it and what the analysis wrote to standard error; or, if it failed in any way, the reason is reported. "
     "Once no request is under way, every button can be used again.",
     ["schedules", "fault_sequences", "inputs"],
     "every way in which a request can fail (connection, errors of the server in either form, proxies, torn responses, results cut short, analyses that end without a message), alone and along with others, with edits, clicks and timers in between",
     "No test makes a request fail or overlaps two.",
     [LIB, EMB, STA],
     [m("failures are reported", LIB + " renderOperation"), m("buttons are enabled again", STA + " withLoadingButton"), m("an embedded block is recomputed with its own options", EMB + " initAquascopeBlocks")],
     observe=["requests sent", "texts, alerts and errors put before the user", "decorations and diagrams shown", "state of the buttons"],
     level_note="The real pages under a simulated browser, editor and network; sampled by seed.")
prop("E03", "Permissions drawn and regions highlighted are those of the result shown",
     "Every step and boundary in an editor shows the permissions of the result it belongs to: each path with those it has, gained or lost, each boundary with those expected, and which of them are missing. "
     "Pointing at a permission highlights the places of the loan and the move that took it, and no other, in that editor alone; when the pointer leaves, or what it pointed at goes, nothing stays highlighted. This holds for every result shown: the first, a later one for the same code, one of several bodies, one of several editors on a page.",
     ["schedules", "fault_sequences", "histories"],
     "any sequence of results (for the same or other code, in any order, with failures in between), edits, and movements of the pointer; several bodies with the same numbers of loans; several editors",
     "No test shows two results in one editor, or points at anything.",
     ["frontend/packages/aquascope-editor/src/editor-utils", LIB],
     [m("regions are found by names made for one result", "frontend/packages/aquascope-editor/src/editor-utils/misc.tsx generateAnalysisDecorationFacts, showRegion, hideRegion"), m("a widget is drawn again unless it equals the one in its place", "frontend/packages/aquascope-editor/src/editor-utils/stepper.tsx PermissionStepLineWidget.eq, boundaries.tsx BoundaryPointWidget.eq"), m("loans of a permission", "frontend/packages/aquascope-editor/src/editor-utils/stepper.tsx PermDiffRow, boundaries.tsx PermStack")],
     observe=["texts and handlers of the elements drawn for each widget", "classes of the elements of marked ranges, while and after a permission is pointed at"],
     level_note="The real pages and their components under a simulated browser, editor and network; sampled by seed.")

NA = [
 ("A01", "Permission analysis is sound", "The permissions shown at each point of a program are those the borrow checker grants there, and a refined permission names the loan, move or missing mutability that removed it.",
  ["crates/aquascope/src/analysis/permissions"], "a pure function of the program: one thread, no clock, no I/O, no party that could fail; deterministic simulation has no schedule or fault to vary, and feeding it programs would be input generation under another name"),
 ("A02", "Permission boundaries mark what each use expects", "Every use of a path in a program is marked with the permissions that use requires and with those that are missing, at the place of the use.",
  ["crates/aquascope/src/analysis/boundaries"], "a pure function of the program without schedule, time, I/O or faults"),
 ("A03", "Permission steps add up", "Applying the steps shown for the statements of a body one after the other turns the initial permissions into the final ones on every path through the body, and no change is shown twice or left out.",
  ["crates/aquascope/src/analysis/stepper"], "a pure function of the program without schedule, time, I/O or faults"),
 ("A04", "Ranges in the output lie on the text they are about", "Every range in an analysis result denotes the part of the given source text that it is about, also with multi-byte characters and macros.",
  ["crates/aquascope/src/analysis/mod.rs", "crates/aquascope/src/analysis/ir_mapper"], "a pure function of the program without schedule, time, I/O or faults"),
 ("A05", "The interpreter's trace is the program's execution", "The sequence of states shown for a program is that of its execution: each stack frame, heap value and pointer is what the program holds at that point.",
  ["crates/aquascope/src/interpreter"], "a pure function of a single-threaded interpreted program, and the interpreter cannot be built here: its miri dependency is not in the offline cache"),
 ("A06", "The front end draws what the results say", "The embedded view shows the states, permissions and steps of the results it was given, and nothing else.",
  ["frontend/packages"], "a function from a result document to a drawing, without schedule, time, I/O or faults (what is shown when, under edits, failures and movements of the pointer, is E01 to E03); a browser and the npm packages that draw are missing here, too"),
]
for id, title, st, files, why in NA:
    prop(id, title, st, ["programs"], "all programs that the compiler accepts", "The tests compare snapshots of a few dozen programs.", files, [m("see files", files[0])], na=why)

with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash sim/build.sh",
    "checks": [dict(property=p["id"], quick_cmd="./check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"],
                    technique="deterministic simulation with fault injection (seeded search over " + ("events, deliveries and faults, real page code in a simulated browser and network)" if p["id"][0] == "E" else "schedules and fault sequences, real binary on a simulated kernel)"),
                    level="exploration", level_note=p["level_note"]) for p in P if not p["na"]],
    "not_applicable": [dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
    "notes": "No hooks in /repo: the seam is the system-call interface of the unmodified binaries (an LD_PRELOAD stub hands every call to the simulated kernel), and for the front end the browser and library interfaces its sources import. See DESIGN.md.",
}
with open("MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
