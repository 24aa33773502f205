#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json (kept as one source so they stay in step).
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
S, CR, I, H, CF, F = "schedules", "crash_points", "inputs", "histories", "configurations", "fault_sequences"
def m(*pairs): return [{"name": a, "where": b} for a, b in pairs]
P = []
def p(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    a = {"files": files, "mechanism": mech, "observe_at": observe or ["public API results", "commands and bytes received by the ExifTool child processes"], "hook_needed": None}
    if state: a["state"] = state
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a), note))

p("C01", "Every call gets the answer to its own request, complete and unaltered",
  "When calls run concurrently through a pool of ExifTool processes, a resolved call's value is exactly what ExifTool answered to that very request: never another call's answer, never a truncated, merged or re-decoded one, whatever bytes the metadata contains and however the pipes chunk them. Values that happen to look like protocol text or contain multi-byte or malformed characters arrive unchanged (malformed bytes are reported separately, losslessly). A valid request is not rejected because of the text it carries or returns.",
  [S, I, F, H], "All interleavings of calls over the pool, all splits of stdout/stderr into chunks, all tag text, all crash/retry/recycle histories.",
  "The tests use a handful of files and never control chunk boundaries, interleavings, or crashes in mid-reply; a mis-attributed answer needs a specific schedule.",
  ["src/ExifToolTask.ts", "src/ReadTask.ts", "src/ReadRawTask.ts", "src/BinaryToBufferTask.ts", "src/DefaultExifToolOptions.ts", "src/ExifTool.ts", "src/JSON.ts", "src/VersionTask.ts", "src/Utf8JsonFilter.ts", "src/InvalidUtf8Bytes.ts"],
  m(("end-of-response markers", "src/DefaultExifToolOptions.ts pass/fail"), ("stream decoding", "src/ExifTool.ts processFactory / ExifToolTask parser"), ("per-task parser", "src/ReadTask.ts, src/ReadRawTask.ts #parse")),
  "Every resolved value is matched to a recorded command/answer pair of the simulated ExifTool; answers may be used once. Date and GPS fields are compared through their raw text only.")
p("C02", "A modifying call is carried out at most once",
  "A write, edit or delete call makes ExifTool execute its modification at most once, whatever fails and however many retries are configured; it resolves only after ExifTool executed it and answered. This also holds when the process crashes, hangs, times out or errs after having applied the change.",
  [S, CR, F, CF], "All crash and time-out points around the command, all retry settings, all concurrent histories.",
  "The tests do not crash ExifTool between applying a change and acknowledging it; double execution is invisible for idempotent assignments.",
  ["src/ExifTool.ts", "src/AsyncRetry.ts", "src/WriteTask.ts"],
  m(("non-retriable submission of mutations", "src/ExifTool.ts write/editTags/deleteAllTags → enqueueTask(task, false)"), ("retry loop", "src/AsyncRetry.ts")),
  "Each modifying call carries a unique token; executions of commands carrying it are counted in the simulated ExifTools, including 60 simulated seconds after the last settlement.")
p("C03", "Failed reads and extractions are retried as configured, no more and no less",
  "A read, extraction or rewrite whose attempt fails is attempted again until one attempt succeeds or the configured number of retries is used up; it then resolves with the successful attempt's answer or rejects with the last attempt's error. No attempt follows a success, and a binary payload that is certain to be absent is not looked for again.",
  [F, S, CF], "All sequences of failing attempts (crash, hang, error, garbage, torn output) and all retry counts.",
  "Tests fail at most one attempt in one way; off-by-one and wrong-error bugs need sequences of failures.",
  ["src/AsyncRetry.ts", "src/ExifTool.ts", "src/BinaryToBufferTask.ts"],
  m(("retry loop with back-off", "src/AsyncRetry.ts retryOnReject"), ("retries of buffers", "src/ExifTool.ts extractBinaryTagToBuffer")),
  "Attempts are counted per call on distinct files and compared with the planned fault sequence.")
p("C04", "Every call settles, and no failure escapes as an uncaught exception",
  "Every API call returns a promise that settles within the time its time-out and retry settings allow, whatever ExifTool processes do: crash, hang, talk nonsense, fail to start, ignore signals. Failures surface only as rejections with an Error; none becomes an uncaught exception, an unhandled rejection, or a synchronous throw.",
  [F, S, CF], "All fault sequences at spawn, command, stream and time level; all pool settings, also while the instance is being shut down.",
  "Tests exercise a few error paths with healthy processes; an uncaught stream or spawn error, or a promise lost in one path, needs a particular fault at a particular time.",
  ["src/ExifTool.ts", "src/ExifToolTask.ts", "src/AsyncRetry.ts", "src/Lazy.ts", "src/ReadTask.ts", "src/WriteTask.ts"],
  m(("task time-outs", "src/DefaultExifToolOptions.ts taskTimeoutMillis, spawnTimeoutMillis"), ("spawn-failure handling", "src/ExifTool.ts processFactory"), ("error results of tasks", "src/ExifToolTask.ts renderStdout/renderStderr")),
  "Liveness limit computed from the plan's time-outs. Excluded: an installation in which ExifTool can never be started leaves calls waiting inside batch-cluster (a dependency's design).")
p("C05", "Once faults stop, an instance serves again",
  "After any period of crashes, hangs, failing starts, missing or unusable perl or ExifTool, and failing lookups, an instance that was not shut down settles everything pending and serves fresh calls correctly once the cause is gone. No failure is remembered forever.",
  [F, H], "All fault periods of any length with calls in flight, followed by repair.",
  "Tests never repair a broken environment under a live instance; cached failures and wedged queues only show after recovery.",
  ["src/Lazy.ts", "src/ExifTool.ts", "src/ExiftoolPath.ts", "src/Which.ts", "src/TagDescriptions.ts"],
  m(("caching of look-ups", "src/Lazy.ts"), ("respawning and health checks", "src/DefaultExifToolOptions.ts healthCheckCommand, batch-cluster")),
  "Each fresh call that fails must be explained by a child that was already broken when the faults stopped.")
p("C06", "A modification is reported as done exactly when ExifTool reported it done",
  "A write, edit or delete call resolves, with the created/updated/unchanged counts and warnings ExifTool gave, exactly when ExifTool reported success for that request; otherwise it rejects with ExifTool's own error text. A failure, refusal or incomplete answer is never reported as success, and a success that merely came with warnings is never reported as failure.",
  [I, F, S], "All outcomes ExifTool can report (success, no-op, warnings, minor errors, refusals, torn answers) and all interleavings of its two output streams.",
  "Tests cover a few outcomes on a healthy process; stream interleavings and torn answers are not reachable.",
  ["src/WriteTask.ts", "src/ExifToolTask.ts", "src/ErrorsAndWarnings.ts", "src/ExifTool.ts"],
  m(("status-line parsing", "src/WriteTask.ts parse"), ("error/warning classification", "src/ErrorsAndWarnings.ts")),
  "The result is recomputed independently from the recorded command output.")
p("C07", "Reads report exactly ExifTool's errors and warnings for that file",
  "A resolved read carries in its errors and warnings lists exactly the messages ExifTool produced for that file, from metadata and diagnostics alike, each once, with none lost, invented or taken from another call. A read is rejected only when ExifTool returned no tags for the file, and then with ExifTool's message.",
  [I, S, F], "All message texts and combinations, all interleavings of the output streams, concurrent calls on the same process, retries.",
  "Tests read a few broken images one at a time; cross-talk between consecutive commands needs chosen stream timings.",
  ["src/ReadTask.ts", "src/ReadRawTask.ts", "src/ErrorsAndWarnings.ts", "src/ExifToolTask.ts"],
  m(("merging of messages", "src/ReadTask.ts #parse"), ("classification", "src/ErrorsAndWarnings.ts")),
  "Messages are recomputed from the recorded answer. A diagnostic chunk of only white space is dropped by batch-cluster and is not generated.")
p("C08", "Modifications store exactly what was asked, or nothing",
  "After a write, edit or delete call resolves, the file holds exactly the requested change, value for value (text, numbers, lists, dates, positions, structures, deletions, retained tags), everything else as before, with a backup unless overwriting was asked for. A rejected call leaves the file either as it was or fully changed, an invalid request changes nothing, a valid one is not refused, and no other file is ever touched.",
  [I, H, CR, F], "All tag values and edit sequences, all crash points during the write, all concurrent histories on other files.",
  "Tests round-trip selected values without crashes; encoding errors are value-specific and partial effects are crash-point-specific.",
  ["src/WriteTask.ts", "src/TagEdit.ts", "src/ExifTool.ts", "src/ExifDateTime.ts", "src/ExifDate.ts", "src/ExifTime.ts", "src/Struct.ts"],
  m(("value encoding", "src/WriteTask.ts, src/Struct.ts"), ("entity escaping", "src/WriteTask.ts htmlEncode, -E"), ("edit encoding", "src/WriteTask.ts forTagEdits, src/TagEdit.ts")),
  "A small reference model of the documented semantics predicts the stored photo; the simulated ExifTool implements argument parsing and storage independently. Documented limits of write() (HTML entities, leading blanks) are outside the generated text.")
p("C09", "No caller-supplied text can become a command, an option or another file's name",
  "Whatever text callers supply (file names, destinations, tag names, values, list items, structure fields, retained tags, options), ExifTool receives at most the one request that was made, naming only the files that were named; text never adds arguments, commands or files. Text that cannot be passed safely is rejected before ExifTool sees it, and other callers stay undisturbed.",
  [I, S, H], "All strings in all positions, combined with honest concurrent traffic.",
  "Tests try a handful of injection strings in a few positions; each position has its own encoding path.",
  ["src/ExifToolTask.ts", "src/WriteTask.ts", "src/TagEdit.ts", "src/TagNameValidation.ts", "src/Struct.ts", "src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts", "src/RewriteAllTagsTask.ts", "src/ReadTask.ts", "src/ExifTool.ts"],
  m(("argument rendering and line-break checks", "src/ExifToolTask.ts renderCommand"), ("tag-name validation", "src/TagNameValidation.ts, src/TagEdit.ts"), ("path resolution", "src/*Task.ts _path.resolve")),
  "Arguments the caller supplies as ExifTool arguments (readArgs, writeArgs) may contain options by design; they may not contain line breaks.")
p("C10", "Each call runs with its own options, and caller objects are never modified",
  "A call obeys the options given to it, else those of its instance, else the documented defaults, regardless of calling style, retries and other concurrent calls. No call modifies objects its caller passed in (options, tags, edits, lists; frozen ones included), nor the instance's options or the exported defaults. What a caller does to its tags, edits or option fields after making a call does not alter that call, and what a receiver does to a result affects no other call.",
  [CF, H, S], "All combinations of instance, per-call and deprecated options and shared argument objects over concurrent calls and retries.",
  "Tests set one option at a time on fresh objects; leaks between calls and precedence slips show only in combinations.",
  ["src/ExifTool.ts", "src/ReadTask.ts", "src/WriteTask.ts", "src/DefaultExifToolOptions.ts", "src/ExifToolOptions.ts", "src/Pick.ts"],
  m(("option merging", "src/ExifTool.ts read/readRaw/write/… {...pick(this.options), ...options}"), ("deprecated options", "src/ExifToolOptions.ts handleDeprecatedOptions")),
  "Commands are compared with the options in force; reads also with the same read whose options are all given in one place; objects with deep snapshots.")
p("C11", "Shutdown is a barrier: nothing survives it, nothing starts after it",
  "Once shutting an instance down (or disposing of it) has begun, new calls are rejected and never reach ExifTool; when it has resolved, everything the instance had accepted has settled and all its processes are gone or killed, and it starts none again. Overlapping and repeated shutdowns all honour this, a graceful one lets running commands finish within its grace period, and other instances are unaffected. closeChildProcesses() in the same way resolves once the children it found are gone or killed, and the instance goes on serving calls.",
  [S, H, F], "All instants of shutdown relative to queued, running, starting and retried work; overlapping shutdowns; stubborn children.",
  "Tests end an idle or lightly used instance once; the races (shutdown during start-up, retry, another shutdown) need controlled schedules.",
  ["src/ExifTool.ts", "src/AsyncRetry.ts"],
  m(("end and disposal", "src/ExifTool.ts end, [Symbol.dispose], [Symbol.asyncDispose], closeChildProcesses")),
  "Death of a SIGKILLed process is the kernel's business; the check requires the kill, not its completion.")
p("C12", "The library neither keeps the host process alive nor leaves orphans",
  "The host process stays alive while a call is pending, and ends by itself soon after the last call has settled even if nothing was shut down; process exit is not delayed beyond a short bound. However the host exits, no ExifTool process is left running.",
  [S, H, F], "All exit instants (natural, process.exit, during start-up, retry, shutdown) and child behaviours.",
  "The test runner keeps its own process alive and cannot observe event-loop references or exits at chosen instants.",
  ["src/ExifTool.ts", "src/AsyncRetry.ts", "src/DefaultExifToolOptions.ts", "src/TagDescriptions.ts"],
  m(("child and timer references", "batch-cluster options unrefStreams, cleanupChildProcs set by src/DefaultExifToolOptions.ts"), ("disposal timers", "src/ExifTool.ts dispose")),
  "The simulator tracks every referenced timer, pipe, child and file operation. A SIGKILL of the host itself is outside (no code runs).", observe=["references held on the event loop", "process table after host exit"])
p("C13", "Pool limits are honoured",
  "An instance never has more usable ExifTool processes than its limit, gives no process more requests than its per-process limit or a second request before the first is answered, and retires processes that are too old or do not answer within the time-out. A request answered within its time-out is not failed by these limits, and the pool is used when there is work for it.",
  [CF, S, F], "All limit settings, burst sizes and child behaviours.",
  "Tests check counts at a few instants under light load; overshoot happens in races between spawn, death and enqueue.",
  ["src/ExifTool.ts", "src/DefaultExifToolOptions.ts", "src/DefaultMaxProcs.ts", "src/ExifToolOptions.ts"],
  m(("limits passed to batch-cluster", "src/ExifTool.ts constructor"), ("default process count", "src/DefaultMaxProcs.ts")),
  "Every process start, command and reply is compared with the limits.", observe=["process starts and commands"])
p("C14", "Tag descriptions are always ExifTool's own, whatever happens to the cache",
  "A tag description lookup answers exactly what the running ExifTool version says for that tag and language (or the library's curated text), never a stale, torn, foreign or invented one: not after upgrades, crashes during cache writes, corrupt or tampered cache files, full disks or concurrent processes. Cache trouble never makes a lookup fail that ExifTool could answer, ExifTool is asked at most once per process and language when nothing fails, a later process reuses an intact cache, and nothing outside the cache directory is written.",
  [CR, F, H, S], "All crash points inside cache writes, file-operation faults, cache contents, upgrade histories, and concurrent processes sharing the directory.",
  "Tests use a healthy disk and one process; torn and stale caches come from crash points and generations.",
  ["src/TagDescriptions.ts", "src/ListXTask.ts", "src/Lazy.ts"],
  m(("cache file with version key, temporary file and rename", "src/TagDescriptions.ts"), ("-listx parsing", "src/TagDescriptions.ts")),
  "Hosts, disk (durable and unsynced state), and ExifTool's -listx output are simulated; answers are compared with the generated database of the version running.",
  observe=["returned descriptions", "cache directory", "listx queries"])
p("C15", "What a read returns depends only on the file and the options",
  "A read returns the same tags, dates, zones and positions for the same file and options whether it runs alone or amid other calls, now or at any other date, in any host time zone, on a fresh or a recycled process, before or after other reads. A returned result does not change later.",
  [S, H, CF, I], "All schedules, neighbouring calls, wall-clock times (DST changes included), host zones, and metadata.",
  "Tests run at one date in one zone per machine and mostly one call at a time; hidden dependence on now, zone or earlier calls needs controlled clocks.",
  ["src/ReadTask.ts", "src/ExifDateTime.ts", "src/ExifDate.ts", "src/ExifTime.ts", "src/Timezones.ts", "src/TimeParsing.ts", "src/GPS.ts", "src/FirstDateTime.ts", "src/Settings.ts", "src/ExifTool.ts"],
  m(("zone inference from tags only", "src/ReadTask.ts, src/Timezones.ts"), ("date parsing without reference to now", "src/TimeParsing.ts, src/ExifDateTime.ts")),
  "Differential: each read is compared with the same read alone in a fresh simulated process with another clock, zone and schedule. A residual luxon quirk with ambiguous local times is masked (see DESIGN.md).")
p("C16", "Extracted payloads and rewritten files are complete, exact and in place",
  "When an extraction or rewrite resolves, the destination (or returned buffer) holds exactly the stored payload, bit for bit, written during that call; when it rejects, the destination is as before or complete unless ExifTool died while writing it. Existing files are replaced only where that was permitted, missing directories are created, and sources and other files are untouched.",
  [I, CR, F, CF], "All payloads, source and destination names, overwrite settings, crash points during the write.",
  "Tests extract a few thumbnails to fresh paths; partial output and overwrite slips need faults and pre-existing files.",
  ["src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts", "src/RewriteAllTagsTask.ts", "src/ExifTool.ts"],
  m(("output status parsing", "src/BinaryExtractionTask.ts"), ("base64 decoding", "src/BinaryToBufferTask.ts"), ("directory creation", "src/ExifTool.ts extractBinaryTag")),
  "Disk contents are compared with stored payloads. Known finding: destination names with ExifTool file-name codes (known_findings.json).", observe=["destination files", "returned buffers"])
p("C17", "ExifTool is launched exactly as configured, every time",
  "Every ExifTool process, first or replacement, is started as the program, interpreter, arguments and environment that the options and the machine determine, directly (no shell, not detached), with none of the host's own environment except what was configured. Nothing is started before it is needed, and without a usable perl, calls are rejected with an error that says so when that check is on.",
  [CF, H, F], "All placements of perl and ExifTool, all launch options, all respawn histories.",
  "Tests run on one machine layout; fall-back layouts and replacement processes after failures are not reached.",
  ["src/ExifTool.ts", "src/ExiftoolPath.ts", "src/Which.ts", "src/DefaultExiftoolArgs.ts", "src/IsWin32.ts", "src/Lazy.ts"],
  m(("process factory", "src/ExifTool.ts constructor"), ("program look-up", "src/ExiftoolPath.ts, src/Which.ts")),
  "Every simulated process start is compared with an independent resolver. POSIX layouts only; transient look-up errors relax the comparison to 'an existing program'.", observe=["process starts"])

p("C20", "Results saved as JSON outlive the process that read them",
  "Tags from read() or readRaw() that one process saves with JSON.stringify() and another process, later and on a differently configured machine (host time zone, clock), restores with parseJSON() are the same tags: same keys, same classes (date-times, dates, times, binary fields, malformed-text bytes), same instants, texts, zones and flags. Saving a restored result again gives the same JSON, and writing a restored value stores what writing a freshly read one does.",
  [H, CR, I, CF], "All metadata values and read options, all crash points of the first process, all time zones and clocks of the second.",
  "Tests round-trip a few values inside one process; dependence on the process, its zone and clock, or on unusual values is not reached.",
  ["src/JSON.ts", "src/ExifDateTime.ts", "src/ExifDate.ts", "src/ExifTime.ts", "src/BinaryField.ts", "src/InvalidUtf8Bytes.ts"],
  m(("revivers", "src/JSON.ts parseJSON"), ("toJSON/fromJSON", "src/ExifDateTime.ts, ExifDate.ts, ExifTime.ts, BinaryField.ts"), ("byte sidecar revival", "src/InvalidUtf8Bytes.ts reviveInvalidUtf8Bytes")),
  "The first process's own view of each value (fields, texts, instant) is recorded before it dies and compared in the second. Structures that imitate the library's own serialised form (a field _ctor naming one of its classes) are not generated; numbers beyond double range neither.", observe=["public API results", "JSON saved on the simulated disk", "files written by the simulated ExifTool"])
p("C22", "Malformed text is never lost and never mistaken",
  "For every string, list item and structure field that is not valid UTF-8, read() and readRaw() return repaired text in place and its exact original bytes (a Uint8Array) at the same path of invalidUtf8Bytes; values that are well-formed have no entry there, however much they resemble the library's private encoding, and arrive unchanged. With a Filter of the caller's own in readArgs (constructor, per call or positional; the last one counts, a blank one is none), ExifTool's output is returned as it is. This holds for concurrent reads, however the pipes split characters, and after crashes and retries.",
  [I, S, F, CF], "All byte strings at all positions of a result, all chunkings, all placements of readArgs and Filter options.",
  "Tests use three files with a few malformed bytes each; positions inside nested structures, chunk boundaries inside characters and combinations of filters are not reached.",
  ["src/InvalidUtf8Bytes.ts", "src/Utf8JsonFilter.ts", "src/ReadTask.ts", "src/ReadRawTask.ts", "src/ExifTool.ts"],
  m(("private filter", "src/Utf8JsonFilter.ts utf8JsonFilterArgs"), ("decoding", "src/InvalidUtf8Bytes.ts unwrapInvalidUtf8Tags"), ("pruning to returned tags", "src/ReadTask.ts #parseTags")),
  "The oracle is the list of malformed values the simulated ExifTool printed, kept apart from the wire encoding. The library's filter expression (Perl) is evaluated by the vendored ExifTool's own Filter(). A rename of the private encoding is not an alarm. Sizes of binary payloads must be unaffected. GPS and date tags may be interpreted or dropped by read(); then no bytes are kept.")
p("C23", "What an instance reports about its processes and calls is true",
  "At every moment pids names only processes this instance started that are still in the process table, and, unless it is closing its children or shutting down, every child executing one of its commands; spawnedProcs, busyProcs, pendingTasks and childEndCounts() agree with the processes started, at work and ended and with the calls waiting; ended is false until end() is invoked and true from then on. childStart and childEnd are emitted once per child, beforeEnd and end once, to listeners added with on() and no longer to ones removed with off(). When all work is done, nothing is reported busy or pending; after end(), no pids remain.",
  [S, F, H], "All schedules, recycling and crash histories, all moments of asking.",
  "Tests ask at a few quiet moments with healthy processes.",
  ["src/ExifTool.ts"],
  m(("status accessors and events", "src/ExifTool.ts pids, spawnedProcs, busyProcs, pendingTasks, childEndCounts, ended, on, off")),
  "Compared with the simulated process table. Exact equality is demanded when everything is quiet and no fault was planned; with faults in progress, only soundness (nothing false is reported) and the totals. Start attempts that fail may or may not count in spawnedProcs.", observe=["status accessors", "events", "simulated process table"])

p("C24", "Tasks of a caller's own are run like the library's calls",
  "A caller's own task (a subclass of ExifToolTask) passed to enqueueTask() gets the guarantees of the built-in calls: ExifTool receives exactly its arguments (blank ones left out, -ignoreMinorErrors as the task's options say); its parse() is called at most once per created task, with exactly what ExifTool printed to that very command and with an error, made from ExifTool's first error message, exactly if ExifTool reported one; its warnings and errors then hold exactly the diagnostics of that command. The promise settles with what the last created task's parse() returned or threw. A task that is not retriable is executed at most once; a retriable one (the default) is created anew for every attempt until one succeeds or taskRetries is used up. Factories that throw and arguments with line breaks or NULs lead to a rejection, never to a synchronous throw, and reach no ExifTool.",
  [S, F, I, CF], "All schedules, chunkings, fault sequences, task behaviours and outputs that do not themselves imitate ExifTool's end-of-reply sign at a line's end.",
  "Tests enqueue hardly any task but the built-in ones, and only with healthy processes.",
  ["src/ExifTool.ts", "src/ExifToolTask.ts", "src/AsyncRetry.ts"],
  m(("enqueueing and retrying", "src/ExifTool.ts enqueueTask"), ("rendering and diagnostics", "src/ExifToolTask.ts renderCommand, #parser")),
  "Plain-text output with a value ending in \"{ready}\" cannot be told from the end of a reply (batch-cluster's protocol) and is not generated; JSON output, which all built-in calls use, is not affected (C01).")

NA = [
 ("C18", "Date and time values survive parsing and formatting", "Parsing an ExifTool date, date-time or time text and formatting it again yields the same text and instant.", "src/ExifDateTime.ts", "A pure function of its argument: no scheduling, time, I/O or multi-party behaviour for a simulator to control once C15 has established independence from clock and zone. Searching its inputs would be property-based testing, not simulation. (Dates that travel through writes are covered by C08, reads by C15.)"),
 ("C19", "GPS coordinates and positions are parsed exactly and within range", "Latitude, longitude, position and altitude texts yield the same signed decimal values for every notation, and out-of-range ones are refused.", "src/GPS.ts", "A pure function of its argument; nothing for a simulator to schedule, delay or fault. (Positions that travel through writes are covered by C08.)"),
 ("C21", "Time zone texts and offsets are normalised consistently", "Every notation of the same zone or offset normalises to the same zone, and invalid ones to none.", "src/Timezones.ts", "A pure function of its argument; its independence from clock, host zone and earlier calls is part of C15."),
]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, _ in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
    for i, t, s, fl, r in NA:
        f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier={"over": [I], "text": "All input texts."}, why_tests_cant="Tests sample texts; the input space is unbounded.", anchors={"files": [fl], "mechanism": m(("parser and formatter", fl))}), ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "node bin/selftest.js --tools", "checks": [], "not_applicable": [{"property": i, "reason": r} for i, _, _, _, r in NA],
  "notes": "No hooks in /repo: module loading, child_process, timers, fs, os, process and randomness are the seams (sim/loader.js). Fixes of genuine defects are the fix: commits listed in known_findings.json."}
for d, note in P:
    man["checks"].append({"property": d["id"], "quick_cmd": f"node bin/check.js {d['id']}", "thorough_cmd": f"VERIF_TIER=thorough node bin/check.js {d['id']} --thorough", "technique": "deterministic simulation with fault injection (seeded search)", "level": "exploration", "level_note": "Seeded search over schedules and fault sequences; real library code and real batch-cluster, simulated ExifTool processes, clock, pipes and disk. " + note})
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
