"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent


def A(files, mech, state=(), observe=(), hook=None):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe), "hook_needed": hook}


PROPS = []


def P(id, title, statement, over, qtext, why, anchors):
    assert len(title) <= 80, (id, len(title))
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})


BUILD = ["rsm/app.py", "rsm/cli.py", "rsm/reader.py", "rsm/builder.py", "rsm/writer.py", "rsm/manuscript.py"]

P("P01", "A build that reports success has published the complete, exact site",
  "When a build (library call, application object or command line) ends without an exception, a nonzero exit status or an error message, the output directory holds the whole site: index.html exactly as a fault-free build of the current inputs gives it, every shipped style sheet and script byte for byte, and a byte-exact copy of every asset the manuscript refers to, wherever it lies. Whatever storage fault occurs (failed or short reads and writes, full disk, failed open, close, listing), it is either survived with that result or reported. A well-formed manuscript with all its assets builds successfully when no fault occurs, and one whose source or asset is missing does not.",
  ["fault_sequences", "histories", "inputs"],
  "for all manuscripts, asset sets and earlier builds in the directory, and every placement of storage errors and partial transfers among the file operations of each build",
  "Tests build a handful of manuscripts on a healthy disk; no test makes any file operation fail or return short, and none compares all published bytes.",
  A(BUILD, [("pipeline raises instead of swallowing", "rsm/app.py run"), ("assets and static files are copied through an in-memory site", "rsm/builder.py FullBuilder"), ("final copy to disk", "rsm/writer.py Writer.write")],
    [("output directory", "index.html and static/", "current directory")], ["files after the call", "exception, exit status, standard error"]))

P("P02", "A build never harms the user's files",
  "A build creates or changes only index.html, the static directory, the shipped static files and the copies of referenced assets inside it, all within the output directory. The source, the assets themselves (including one already inside static/) and every other file keep their exact content and stay where they are, and a build that is not killed leaves no other new files behind. This holds whichever storage operation fails and at whichever operation the process dies, even in the middle of a write.",
  ["crash_points", "fault_sequences", "histories", "inputs"],
  "for all manuscripts, directory contents and directory names, entry points and build histories, and all placements of a storage fault, crash or torn write",
  "Tests never interrupt a build and never look at files other than the ones they expect to be written.",
  A(BUILD, [("only relative target names", "rsm/writer.py Writer.write, rsm/builder.py"), ("own assets in static/ are skipped", "rsm/builder.py mount_required_assets")],
    [("user files", "source, assets, bystanders", "current directory")], ["directory contents before and after each build"]))

P("P03", "A build that fails on its inputs leaves the published site untouched",
  "When a build fails because the source is malformed, missing or unreadable, because a referenced asset is missing or unreadable, or because the shipped static files cannot be read, the site published by earlier builds stays exactly as it was: no file of it is changed, truncated, removed or added. Only a build that has everything it needs starts to write.",
  ["fault_sequences", "histories", "inputs"],
  "for all histories of good and bad edits, asset removals and builds, and all placements of read-side failures",
  "No test runs a failing build over an existing site.",
  A(BUILD, [("site assembled in memory before anything is written", "rsm/builder.py, rsm/manuscript.py WebManuscript"), ("writer is the last task", "rsm/app.py FullBuildApp")],
    [("published site", "index.html and static/", "current directory")], ["site bytes before and after the failed build"]))

P("P04", "After any crash, one clean rebuild restores the exact site",
  "Whatever sequence of builds came before, each possibly killed at any file operation, torn in the middle of a write, cut off by a full disk or followed by a power loss that drops or zero-fills unsynced data, one later build without faults succeeds and publishes exactly the complete site of the current inputs. No leftover of an interrupted build makes a later build fail, skip a file or keep stale content.",
  ["crash_points", "fault_sequences", "histories"],
  "for all histories of edits and interrupted builds, all crash points within a build and all losses of unsynced data",
  "Tests start every build in a clean directory and never kill one.",
  A(BUILD, [("every build rewrites every file", "rsm/writer.py Writer.write, fs.copy"), ("no incremental state", "rsm/builder.py")],
    [("partial site", "what an interrupted build left behind", "current directory")], ["site bytes after the recovery build"]))

P("P05", "Calls do not depend on what happened before or on other threads",
  "Rendering, linting and building, through the library, a reused application object or the command line, give the result the same call gives in a fresh process: after any earlier calls with other options, after failed calls, after calls interrupted or out of memory at any line, after tasks were taken off an application's pipeline and put back, and after sources on disk changed even when size and modification time did not. Threads that render or lint at the same time each get the result they would get alone, and never wait for each other forever.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "for all histories of calls on well-formed and malformed sources, all interruption points, and all interleavings of two or three calling threads at line granularity",
  "Tests make single calls in isolation on one thread; state left behind by an interrupted or concurrent call is never looked at.",
  A(["rsm/app.py", "rsm/tsparser.py", "rsm/transformer.py", "rsm/translator.py", "rsm/nodes.py", "rsm/rsmlogger.py", "rsm/util.py"],
    [("per-call pipeline objects", "rsm/app.py"), ("no module-level mutable state in the result path", "rsm/tsparser.py, rsm/nodes.py"), ("per-run reset", "rsm/transformer.py transform, rsm/translator.py translate")],
    [("logger, parser, class attributes, node counters", "what outlives a call", "module and class level")], ["return value, exception, output file, standard output"]))

P("P06", "Every diagnostic appears exactly once, as asked for, and harms nothing",
  "A call writes each message it issues at or above the requested level exactly once to standard error, in the requested format (rsm, plain, json, lint) with or without time and line number as asked, and nothing else; options given to earlier calls, failed calls and interrupted calls have no influence. When standard error fails for a while, for good, or is absent, the call still returns the result it returns otherwise. The lint format names level and message; the json format is one document per line; the time shown is the one the message was issued at, whatever the clock does.",
  ["histories", "fault_sequences", "configurations", "inputs"],
  "for all histories of calls with differing logging options, interruptions and clock jumps, and all failure patterns of the error stream",
  "Tests check a few formatted strings after one configuration; none configures logging repeatedly in one process or makes the stream fail.",
  A(["rsm/rsmlogger.py", "rsm/app.py", "rsm/cli.py", "rsm/linter.py"], [("handler set up per call", "rsm/rsmlogger.py config_rsm_logger"), ("formatters", "rsm/rsmlogger.py")],
    [("RSM logger", "handlers, level", "process-wide logging registry")], ["standard error, return value"]))

P("P07", "Under --serve the page catches up with the source after every save",
  "While rsm-make --serve is running, once the author's last save has left a well-formed source, the served index.html becomes the page a fresh build of that source gives within two polls, and the rebuild uses the same command-line options. This holds whatever the source path looks like (spaces, quotes, shell characters), however the editor saves (in place, in two steps, by rename, by delete and create), whether saves fall before, between or in the middle of builds including the first one, and after rebuilds that failed, were killed or could not be started. When nothing changes any more, nothing is rebuilt any more.",
  ["schedules", "histories", "fault_sequences", "configurations"],
  "for all editor schedules relative to polls and to the file operations of running builds, all paths without glob characters, and all failures of earlier rebuilds",
  "No test runs the serve mode at all.",
  A(["rsm/cli.py"], [("watch registered before the first build", "rsm/cli.py make"), ("rebuild runs the same command without --serve", "rsm/cli.py make"), ("polling watcher", "livereload")],
    [("watched modification time", "what the watcher last saw", "livereload.watcher.Watcher")], ["index.html in the served directory, rebuilds run, diagnostics of the rebuild"]))

P("P08", "The same manuscript gives the same bytes in every environment",
  "The published site is a function of the manuscript and its assets: it does not depend on locale encoding, time zone, clock, hash seed, random state, directory enumeration order, partial reads, umask, environment variables, the name of the working directory (including characters such as %, $, ?, ! and non-ASCII ones), relative or absolute source paths, the line ends the source file was saved with, log level and format, garbage collection, or what the output directory held before. The command line, the application object and the library call, given a path or a string, publish the same page for the same manuscript.",
  ["configurations", "inputs", "schedules"],
  "for all manuscripts and all combinations of the listed environment settings",
  "Tests run in one environment and in one directory; a dependence on the environment is invisible to them.",
  A(["rsm/reader.py", "rsm/builder.py", "rsm/writer.py", "rsm/cli.py", "rsm/app.py", "rsm/translator.py"], [("explicit encoding", "rsm/reader.py"), ("document order everywhere", "rsm/transformer.py, rsm/translator.py"), ("plain directories, no URL or variable expansion", "rsm/builder.py, rsm/writer.py")],
    [], ["index.html, static/, returned text"]))

P("P09", "A finished manuscript tree can be translated any number of times",
  "Translating the same finished tree again, by the same or another translator object, with or without handrails and source, gives the same page every time as translating a fresh copy once. This also holds after translations that were interrupted or ran out of memory at any point, when a translator object is reused for other trees, and when the tree was read, linted or printed in between.",
  ["histories", "fault_sequences", "inputs"],
  "for all manuscripts, all sequences of translations by the three translator configurations, and all interruption points",
  "Tests translate each tree once.",
  A(["rsm/translator.py", "rsm/nodes.py"], [("translators only read the tree", "rsm/translator.py"), ("per-translation state is reset", "rsm/translator.py Translator.translate")],
    [("node tree", "shared between translations", "rsm/nodes.py"), ("deferred edit commands", "pending output of one translation", "rsm/translator.py")], ["returned HTML"]))

P("P10", "The manuscript tree stays a tree through any history of edits",
  "Appending, prepending, replacing, removing and clearing keep parents and children in agreement: a node is a child of exactly the node it names as its parent, once, in the position asked for. An edit that must be refused (the node already has another parent, its type does not allow the parent, or it would come to lie below itself) raises and leaves the tree as it was, and an edit whose iterable fails part way leaves a consistent tree. Traversal, sibling and ancestor queries agree with that structure, and a traversal during which other parties edit the tree still visits every node that nobody moved exactly once, in document order, and ends; what its consumer adds or removes below the node it was just handed takes effect in the rest of the traversal.",
  ["histories", "schedules", "fault_sequences"],
  "for all node types, all edit sequences including refused and failing ones, and all interleavings of edits with suspended traversals",
  "Tests check single operations on small hand-made trees; refused edits and edits under a running traversal are not examined.",
  A(["rsm/nodes.py"], [("checks before changes", "rsm/nodes.py append, prepend, replace_self, parent"), ("traversal keeps its own stack", "rsm/nodes.py traverse")],
    [("parent and children links", "the tree", "rsm/nodes.py Node, NodeWithChildren")], ["children, parent, traverse and the query methods"]))

P("P11", "Builds running at the same time do not spoil each other or the site",
  "When two or three builds of the same manuscript run in the same directory at the same time, in processes of their own or in threads of one process, every one of them that is not killed succeeds, whichever way their file operations (and the lines threads execute) interleave. If none was killed the directory then holds exactly the complete site and nothing else new; if one was, one further build restores it. The source, the assets and the other files of the user keep their content.",
  ["schedules", "crash_points", "histories"],
  "for all interleavings of the file operations of two or three builds, over a fresh or an existing site, with or without one of them being killed at any operation",
  "Tests run one build at a time; whether two builds overlap is decided by timing they do not control.",
  A(BUILD, [("directories may exist already", "rsm/writer.py Writer.write, fs.copy"), ("site assembled in memory, no shared temporary files", "rsm/manuscript.py WebManuscript")],
    [("output directory", "index.html and static/, written by all of them", "current directory")], ["exceptions of each build", "directory after the last one ended"]))

P("P12", "A call leaves nothing behind in the process but its result",
  "After any rsm.render(), rsm.lint() or rsm.make(), application object or command-line call, successful, failed, interrupted at any line, out of memory or hit by a storage fault, the process is as it was before: same working directory, environment, umask, open files, threads, child processes, signal and warning settings, recursion limit, locale, random state, standard streams and loggers other than rsm's own. No temporary file stays, rendering and linting change no file at all, and repeating a call any number of times keeps no growing number of rsm's objects alive.",
  ["histories", "fault_sequences", "inputs"],
  "for all histories of calls on well-formed and malformed sources, and all placements of storage and error-stream failures in them",
  "Tests look at what a call returns; what it leaves in the process, above all when it fails half way, is never looked at.",
  A(["rsm/app.py", "rsm/cli.py", "rsm/reader.py", "rsm/builder.py", "rsm/writer.py", "rsm/tsparser.py", "rsm/rsmlogger.py"],
    [("files opened in with blocks", "rsm/reader.py, rsm/writer.py"), ("all state lives in the application object", "rsm/app.py Pipeline")],
    [("process settings", "everything the embedding program also uses", "the interpreter"), ("live objects", "trees and tasks of earlier calls", "rsm/app.py, rsm/nodes.py")], ["process state and directories before and after each call", "objects alive"]))

P("P13", "Commands print exactly the result, and never report lost output as success",
  "What rsm-render writes to standard output is exactly the page rsm.render() returns for the same source and options, followed by a newline; rsm-lint, rsm-make and silent runs write nothing there (below debug verbosity), and diagnostics go to standard error. A command exits with success only if every byte reached the output: whatever short writes occur, and whether the output breaks, fills up, is not ready or cannot represent a character, the command either completes the output or fails, and what did get out is a beginning of the result. A failure of the output does not affect later calls.",
  ["fault_sequences", "histories", "inputs", "configurations"],
  "for all sources and options, all output encodings and buffer sizes, and all placements of short writes and errors in the output stream",
  "Tests never fail or shorten a write to standard output and compare no bytes of it.",
  A(["rsm/cli.py", "rsm/app.py", "rsm/rsmlogger.py"], [("print of the result after the run", "rsm/cli.py main"), ("log handler on standard error", "rsm/rsmlogger.py config_rsm_logger")],
    [("output stream", "text, buffered and raw layers", "sys.stdout")], ["bytes that reached the descriptor", "exit status including the final flush"]))

WEB = []
exec((Path(__file__).parent / "web_props.py").read_text()) if (Path(__file__).parent / "web_props.py").exists() else None

NA = []


def N(id, title, statement, why, anchors, reason):
    P(id, title, statement, ["inputs", "programs"], "for all manuscripts", why, anchors)
    NA.append({"property": id, "reason": reason})


PURE = " It is a pure function of one input: no schedule, time, I/O, failure or second party can influence it, so a simulator has nothing to decide; it needs input generation against a language oracle, another technique."
N("N01", "Generated pages are well-formed HTML with unique ids",
  "Every page produced from any manuscript is well-formed HTML: elements nest and close properly and no id occurs twice unless the author used a label twice.", "Tests compare a few dozen fixed pages.",
  A(["rsm/translator.py"], [("edit commands emit matching tags", "rsm/translator.py")]), "Static shape of the output of a sequential, deterministic translation." + PURE)
N("N02", "Every reference resolves to the element it names",
  "Every reference, citation and previous-step reference of a manuscript links to the element carrying that label with the right text, and an unresolvable one becomes a visible error, never a dead link.", "Tests cover a few references of each kind.",
  A(["rsm/transformer.py"], [("label table and pending nodes", "rsm/transformer.py resolve_pending_references")]), "Name resolution within one document in one pass." + PURE)
N("N03", "Numbers and contents follow document order",
  "Numbered elements carry consecutive numbers in document order within their numbering scope, unnumbered ones none, and the table of contents lists exactly the sections of the manuscript with the numbers and links they carry.", "Tests cover a few nesting shapes.",
  A(["rsm/transformer.py", "rsm/nodes.py"], [("autonumbering", "rsm/transformer.py add_numbers_to_nodes"), ("contents", "rsm/transformer.py make_toc")]), "Numbering of one document in one pass." + PURE)
N("N04", "No text of the manuscript is lost, duplicated or invented",
  "Every piece of text, math and code the author wrote appears in the page exactly once, in order, unchanged except for escapes and white space, and special characters are escaped.", "Tests cover chosen sentences.",
  A(["rsm/tsparser.py", "rsm/translator.py", "rsm/util.py"], [("text nodes", "rsm/tsparser.py"), ("escapes", "rsm/util.py EscapedString")]), "Content preservation of one translation." + PURE)
N("N05", "Syntax errors are located and every lint rule reports every offence once",
  "A malformed manuscript yields an error naming the place of the fault, and the linter reports each offence against its rules exactly once at the right place and nothing else.", "Tests cover one or two cases per rule.",
  A(["rsm/tsparser.py", "rsm/linter.py"], [("error nodes", "rsm/tsparser.py"), ("rules", "rsm/linter.py")]), "Analysis of one input by a native parser and a single pass." + PURE)

SIM = "deterministic simulation: "
CHECKS = {
    "P01": (SIM + "seeded storage-fault injection over build histories, clean-room reference build as oracle", "Seeded search over histories of edits and builds; every file operation of the real code passes a simulated disk that injects errno failures, short reads and short writes. Trusts the disk seam, the kernel file system, and that errors are injected one or two per build."),
    "P02": (SIM + "seeded crash, torn-write and fault injection, byte-exact bystander invariant", "Every door to the file system is wrapped, with an audit hook behind it; escapes are refused and reported."),
    "P03": (SIM + "seeded read-fault and bad-input injection over an existing site", "Faults on the input side only; write-side failures are judged by P01, P02 and P04."),
    "P04": (SIM + "seeded crash points and power loss, then a fault-free recovery build against a clean-room reference", "Power loss is modelled per file: kept, cut short, emptied, zero-filled or gone for anything written and not synced."),
    "P05": (SIM + "seeded thread schedules at line granularity, interruptions and histories against a fresh-process reference", "Real threads under a baton scheduler; preemption at Python lines of rsm, not inside native code."),
    "P06": (SIM + "seeded call histories with failing error streams and clock jumps against an independent formatter model", "The expected text is computed from the log records themselves by an independent formatter; the set of messages is compared with a fresh process."),
    "P07": (SIM + "seeded editor schedules under simulated time, polls, process spawning and build faults", "Real livereload watcher and server start-up under a virtual clock; sockets are not opened."),
    "P08": (SIM + "seeded environments against a plain-environment interpreter with another hash seed", "Locale is simulated at open(); hash seed and assertions by a second interpreter."),
    "P09": (SIM + "seeded interruptions and translation histories on one tree against a fresh-process reference", "Interruptions at line granularity."),
    "P10": (SIM + "seeded interleavings of edits, failing iterables and suspended traversals against a reference model", "Reference model of a rooted ordered forest written from the documentation."),
    "P11": (SIM + "seeded interleavings of several building processes or threads at file-operation granularity (threads also between lines), with kills, clean-room reference build as oracle", "Real forked processes that take turns at every file operation under a seeded scheduler; no preemption inside one operation."),
    "P12": (SIM + "seeded storage and error-stream faults, interruptions and allocation failures over call histories, process state compared before and after each call", "The process state is a fixed list of about forty settings plus open files, temporary files and live objects of rsm's classes."),
    "P13": (SIM + "seeded short writes and failures of the output descriptor under the interpreter's own stream layers, fresh-process reference as oracle", "The descriptor behind standard output is simulated; text and buffer layers are Python's own."),
}
CHECKS.update({k: v for k, v in globals().get("WEB_CHECKS", {}).items()})
PYX = "/opt/venv/bin/python -m sim.check "
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -m sim.setup",
    "checks": [{"property": k, "quick_cmd": PYX + k, "thorough_cmd": PYX + k + " --tier thorough", "technique": t, "level": "exploration", "level_note": n} for k, (t, n) in CHECKS.items()],
    "not_applicable": NA,
    "notes": "One driver (sim/check.py) for all checks; replay a failure with: /opt/venv/bin/python -m sim.check --replay FILE. No hooks in /repo: every seam is one the language or the code already has.",
}
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids) and set(ids) == set(CHECKS) | {n["property"] for n in NA}, set(ids) ^ (set(CHECKS) | {n["property"] for n in NA})
(V / "properties.jsonl").write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in sorted(PROPS, key=lambda p: ("PWN".index(p["id"][0]), p["id"]))))
(V / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
