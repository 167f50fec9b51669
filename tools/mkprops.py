#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe]}
    if state: a["state"]=state
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Every log message reaches every attached sink exactly once, intact",
 "A message whose LOG statement returned while the logger was active and sinks were attached is handed to each attached sink exactly once, unmodified, no later than the end of the logger's destruction. Nothing else is handed to a sink: no duplicate, no mix of two messages, no message that was never logged, and what one sink does to its copy is never visible in another sink's copy.",
 ["schedules","inputs","configurations"],"any number of logging threads, sinks (taking text or message objects), message sizes, burst/backlog lengths and speeds of sinks",
 "tests log a handful of messages from one or two threads to one or two sinks; loss, duplication and aliasing need many producers, backlog, several sinks and particular interleavings",
 ["src/g3log.cpp","src/logcapture.cpp","src/logworker.cpp","src/g3log/sink.hpp","src/g3log/active.hpp","src/g3log/shared_queue.hpp","src/g3log/moveoncopy.hpp","src/logmessage.cpp"],
 [("hand-over of the captured text to the background worker","src/g3log.cpp saveMessage/pushMessageToLogger, src/logworker.cpp save"),("fan-out with one copy per sink","src/logworker.cpp bgSave"),("per-sink queue","src/g3log/sink.hpp send, src/g3log/active.hpp, src/g3log/shared_queue.hpp"),("drain at destruction","src/logworker.cpp ~LogWorker, src/g3log/active.hpp ~Active")],
 "recording sinks attached through the public addSink API; return of the LOG statement")
p("P02","Sinks see messages in an order consistent with the order of the LOG calls",
 "If one LOG statement returns before another one starts (in the same thread, or in another thread), no sink receives the second message before the first. All sinks receive the messages they have in common in the same relative order.",
 ["schedules"],"all interleavings of logging threads, the worker and the sink threads; all backlogs and sinks of different speed",
 "an ordering bug shows only under contention or backlog; tests check order in a single-threaded, idle situation",
 ["src/logworker.cpp","src/g3log/active.hpp","src/g3log/shared_queue.hpp","src/g3log/sink.hpp","src/g3log.cpp"],
 [("single FIFO to the worker","src/logworker.cpp save, src/g3log/shared_queue.hpp"),("fan-out in worker order","src/logworker.cpp bgSave"),("FIFO per sink","src/g3log/sink.hpp send")],
 "call/return stamps taken around LOG, receive stamps taken in the sinks")
p("P03","Every record carries exactly what the call site supplied",
 "The record a sink receives holds the exact message text, source file (base name, or the full path when so configured), full file path, line, function, level value and name, logging thread id, contract expression, and a time stamp taken while the LOG statement executed. Its text rendering is composed of exactly these parts in the documented default layout, in the layout with thread id, or as the caller's own formatter lays them out; the level decides which fatal or non-fatal layout applies.",
 ["inputs","configurations","schedules"],"all message texts (any bytes, any length), call sites, levels including custom and boundary values, threads, formatters, and build options for file name, function name and level naming",
 "tests check a few fixed strings; corruption may depend on length, bytes, level value, thread or option",
 ["src/g3log/logcapture.hpp","src/logcapture.cpp","src/g3log.cpp","src/logmessage.cpp","src/g3log/logmessage.hpp","src/g3log/g3log.hpp","src/loglevels.cpp","src/g3log/loglevels.hpp"],
 [("call-site capture","src/g3log/g3log.hpp INTERNAL_LOG_MESSAGE, src/logcapture.cpp"),("record construction","src/logmessage.cpp LogMessage ctor, splitFileName"),("rendering","src/logmessage.cpp toString and helpers")],
 "fields and toString() of the message object in a sink")
p("P04","The printf-style API logs what snprintf yields, and marks truncation",
 "A printf-style log statement produces the text that formatting the same arguments with the C library yields. A result that does not fit the maximum message size (2048 by default, or the size set at initialization when that option is built in) is logged as its leading part followed by the documented truncation marker, never silently shortened; a format that cannot be processed is reported in the message, and no format, argument or length makes the statement write or read out of bounds.",
 ["inputs","configurations"],"all formats, arguments and result lengths, in particular around and far beyond the limit; all configured limits; from any thread",
 "tests use a few short formats and one long one; off-by-one and shared-buffer errors need boundary lengths or concurrency",
 ["src/logcapture.cpp","src/g3log/logcapture.hpp","src/g3log/g3log.hpp"],
 [("formatting into a bounded buffer","src/logcapture.cpp capturef"),("truncation marker","src/logcapture.cpp capturef"),("configurable limit","src/logcapture.cpp setMaxMessageSize")],
 "message text received by a sink, compared with snprintf on the same arguments")
p("P05","Everything logged before a fatal event reaches all sinks before the process dies",
 "When a fatal event (fatal log level, broken contract, or a handled fatal signal) is raised while the logger is active, on any thread but the logger's own and the sinks' own, every message whose LOG statement had returned before the event was raised is received, completely processed, by every attached sink, and by log files as complete lines, before the process terminates. The fatal message itself is received exactly once by every sink and is the last message each sink receives.",
 ["crash_points","schedules","fault_sequences"],"all fatal event kinds, threads that raise them, backlogs, sink speeds and numbers, and other threads logging at the same time",
 "dying at the wrong moment needs backlog, slow sinks and concurrent loggers; unit tests replace the exit by a mock",
 ["src/logworker.cpp","src/g3log.cpp","src/crashhandler_unix.cpp","src/g3log/sink.hpp","src/filesink.cpp"],
 [("fatal message goes through the same FIFO","src/logworker.cpp fatal"),("flush by destroying the sinks before exit","src/logworker.cpp bgFatal"),("raising thread waits","src/g3log.cpp pushFatalMessageToLogger")],
 "shared-memory sinks and log files of a child process, read after it died")
p("P06","A fatal event terminates the process with the right signal and never returns",
 "After a fatal log statement or a broken contract the process terminates by SIGABRT, and after a handled fatal signal by that same signal, and the code after the raising statement never executes. Where that signal does not end the process (it is the init process, or the application's own action returns) it exits at once with the signal's number. This holds with the logger active, before initialization, after shutdown and with no sink attached, for events raised on any thread including the logger's and the sinks' own, and termination always happens (it never hangs).",
 ["crash_points","fault_sequences","configurations"],"all fatal event kinds, raising threads, logger states, sink sets and previously installed signal dispositions that are default",
 "tests mock the exit; hangs and wrong exit status need real child processes in unusual states",
 ["src/crashhandler_unix.cpp","src/g3log.cpp","src/logworker.cpp","src/logcapture.cpp"],
 [("restore original handlers and re-raise","src/crashhandler_unix.cpp exitWithDefaultSignalHandler"),("fatal without active logger","src/g3log.cpp pushFatalMessageToLogger"),("fatal after flush","src/logworker.cpp bgFatal")],
 "wait status of a child process")
p("P07","Signal dispositions are installed, overridden and given back as documented",
 "Exactly the signals in the currently configured set are handled by the logger after initialization, reinstallation or an override; all other signals keep the application's dispositions. Restoring a signal, replacing the set, or the fatal exit gives each affected signal the disposition (handler, flags and mask) it had before the logger first took it, no matter how often or in which order install, override, restore and reset to default were called; only when a build disables fatal signal handling is no disposition ever touched.",
 ["histories","configurations"],"all sequences of initialize, install, override, restore, reset and application sigaction calls, with any set of signals",
 "tests run one or two fixed sequences; saved-handler bookkeeping goes wrong on repeated or overlapping sequences",
 ["src/crashhandler_unix.cpp","src/g3log.cpp","src/g3log/crashhandler.hpp"],
 [("saved actions","src/crashhandler_unix.cpp gSavedSigActions, installSignalHandler, restoreSignalHandler"),("override of the set","src/crashhandler_unix.cpp overrideSetupSignals, restoreFatalHandlingToDefault")],
 "sigaction(2) queries against a reference model; delivered signals in child processes")
p("P08","The pre-fatal hook runs exactly once, before the fatal message is sent",
 "The most recently set pre-fatal hook is called exactly once (at most once when several fatal events are raised at the same time), in the thread that raised the fatal event, before the fatal message is handed to the logger or to the fatal handler, and everything the hook logs arrives before the fatal message. A hook that itself crashes or logs a fatal message does not recurse: the process still terminates, and for a crash by another signal than the event's own the fatal message notes the recursive crash and includes the first stack dump. Initialization resets the hook to do nothing.",
 ["fault_sequences","schedules","histories"],"all hooks (logging, slow, crashing, fatal), fatal kinds and threads, set/reset histories and simultaneous fatal events",
 "recursion and simultaneous fatals cannot be run inside a unit-test process",
 ["src/g3log.cpp","src/g3log/g3log.hpp"],
 [("take the hook and reset it","src/g3log.cpp saveFatalMessage"),("recursive crash note","src/g3log.cpp saveFatalMessage"),("reset at initialization","src/g3log.cpp initializeLogging")],
 "hook call records in shared memory, fatal text received by the sinks of a child process")
p("P09","Adding and removing a sink takes effect synchronously",
 "A sink receives every message whose LOG statement starts after its addition returned and that returned before its removal started, and, of the whole message stream, one contiguous part without gaps. When the removal of one sink or of all sinks returns, the removed sink has processed everything it was sent and has been destroyed (unless the application, or a handle call in progress, holds it alive), it is never called again, and other sinks are unaffected.",
 ["schedules","histories"],"all interleavings of adding, removing one, removing all and logging from several threads; sinks with backlog; any number of sinks",
 "needs concurrent logging with adds/removes; tests add and remove while idle",
 ["src/g3log/logworker.hpp","src/logworker.cpp","src/g3log/sink.hpp","src/g3log/sinkhandle.hpp"],
 [("add through the worker queue and wait","src/logworker.cpp addWrappedSink"),("remove through the worker queue and wait","src/g3log/logworker.hpp removeSink, removeAllSinks"),("drain in sink destructor","src/g3log/sink.hpp ~Sink")],
 "sink constructor/destructor/receive events and stamps around add/remove")
p("P10","A sink runs one call at a time on its own thread and cannot stall others",
 "All calls into one sink (messages and handle calls) are executed one after the other, never overlapping, on one background thread that is neither the logging thread nor another sink's thread. A slow or blocked sink delays neither the return of LOG statements nor the delivery of messages to the other sinks.",
 ["schedules"],"all mixes of logging threads, handle calls from several threads, and sinks that block or are slow",
 "overlap and stalls depend on scheduling and blocked sinks; tests use fast sinks",
 ["src/g3log/sink.hpp","src/g3log/active.hpp","src/g3log/sinkhandle.hpp","src/logworker.cpp"],
 [("one active object per sink","src/g3log/sink.hpp"),("asynchronous fan-out","src/logworker.cpp bgSave")],
 "entry/exit markers in the sink's methods; progress of other sinks while one sink is held")
p("P11","A handle call runs exactly once in order and its future always resolves",
 "A call made through a sink's handle is executed exactly once on the sink with exactly the given arguments, in the order the calls and the log messages of the calling thread reached that sink, and its future delivers the returned value or the exception thrown by the call; an exception does not disturb the sink or later calls. A call made before removal is still executed; a call on a removed sink that no call in progress keeps alive is never executed and its future throws the documented bad-weak-pointer exception.",
 ["schedules","inputs","histories"],"all callables (member functions, lambdas, throwing, move-only or reference results), arguments, calling threads and interleavings with logging, removal and shutdown",
 "broken promises and lost calls show only when calls race with removal or throw",
 ["src/g3log/sinkhandle.hpp","src/g3log/sink.hpp","src/g3log/future.hpp","src/g3log/moveoncopy.hpp","src/g3log/active.hpp"],
 [("weak handle","src/g3log/sinkhandle.hpp call"),("packaged call on the sink's queue","src/g3log/sink.hpp async, src/g3log/future.hpp spawn_task")],
 "futures held by the caller; execution records in the sink")
p("P12","Logger life cycle: before, between and after active periods",
 "The first message logged before any logger is active is reported on stderr and, marked as such, is the first message delivered once a logger is initialized; further messages before that, and messages after shutdown, are dropped without effect on the program. Initializing twice or with a null logger ends the program with a failure exit, destroying a worker that is not the active one leaves logging active (and says so in the log), and after destruction of the active one a new logger can be initialized and works fully, any number of times.",
 ["histories"],"all sequences of create, initialize, log, shut down, destroy active / other worker, and re-initialize",
 "the state is per process and one-shot, so a test process can exercise only one history",
 ["src/g3log.cpp","src/logworker.cpp"],
 [("initialization checks and first message","src/g3log.cpp initializeLogging, pushMessageToLogger"),("shutdown for the active worker only","src/g3log.cpp shutDownLoggingForActiveOnly, src/logworker.cpp ~LogWorker")],
 "messages at sinks, stderr and exit status of child processes")
p("P13","Dynamic log levels: enabled levels log, disabled or unknown levels do not",
 "With dynamic levels built in, a LOG statement produces a message if and only if its level is registered and enabled at that time; the level operations (add, reset, set, enable, disable, enable/disable all, enable from a level upwards) change exactly the levels they name, and the queries (status, snapshot, printout) show exactly the current state. This also holds while other threads log or change levels: a change that returned is seen by every later log statement, and logging or querying never changes the set of levels; without dynamic levels every level logs.",
 ["histories","schedules","inputs"],"all operation sequences over default and custom levels with any value, with concurrent loggers and level changers",
 "tests use fixed short sequences and no concurrency",
 ["src/loglevels.cpp","src/g3log/loglevels.hpp","src/g3log/atomicbool.hpp","src/g3log/g3log.hpp"],
 [("level table","src/loglevels.cpp"),("gate in the macros","src/g3log/g3log.hpp LOG*, src/loglevels.cpp logLevel")],
 "level queries and delivered messages against a reference map")
p("P14","Log and contract macros evaluate their operands exactly when they should",
 "A statement whose level is disabled or whose condition is false evaluates none of its message operands and logs nothing; otherwise every operand is evaluated exactly once, in the calling thread, and one message is logged. A contract check evaluates its condition exactly once and is fatal if and only if it is false, reporting the condition's source text; all macros are single statements that are safe in unbraced if/else, loops, nested log statements and functions that throw.",
 ["inputs","programs"],"all macros, conditions, operand lists, nesting and surrounding statement shapes",
 "tests check few macros with side-effect-free operands",
 ["src/g3log/g3log.hpp","src/logcapture.cpp","src/g3log/logcapture.hpp"],
 [("macro expansion","src/g3log/g3log.hpp LOG, LOG_IF, CHECK, LOGF, LOGF_IF, CHECKF, CHECK_F"),("capture object","src/logcapture.cpp")],
 "evaluation counters around the macros, messages at a sink, fatal handler calls")
p("P15","A log file holds all its entries, whole, in order, also after a crash",
 "The log file contains the header once before the first entry and then the text of every message the file sink received, complete and in order, followed by the closing note once the sink is destroyed. With an interval of x, at least every x-th message makes all entries so far reach the file, so that killing the process at any moment leaves a prefix of the full log that lacks only the entries after the last multiple of x processed.",
 ["crash_points","inputs","configurations"],"all message streams and sizes, flush intervals, header/format overrides and kill moments",
 "tests read the file after orderly shutdown with the default interval",
 ["src/filesink.cpp","src/g3log/filesink.hpp","src/filesinkhelper.ipp"],
 [("write buffer and flush interval","src/filesink.cpp fileWrite"),("final flush","src/filesink.cpp ~FileSink"),("header","src/filesink.cpp addLogFileHeader")],
 "bytes of the log file, also after SIGKILL of the writing child")
p("P16","Changing the log file never loses, duplicates or damages an entry",
 "After a successful change the returned path names an existing new file, the current file name query reports it, and later entries go there; the entries in the old and new files together are exactly those logged, each once and in order. When the new file cannot be opened the change returns an empty name, logging continues in the old file with a note, and nothing is lost; content that was already in any of the files, also when two changes produce the same name within a second, is never destroyed.",
 ["histories","fault_sequences"],"all sequences of log and change calls, valid and invalid directories and ids, unflushed buffers, concurrent loggers and same-second changes",
 "tests change once with an empty buffer and a valid target",
 ["src/filesink.cpp","src/filesinkhelper.ipp"],
 [("swap of the output stream","src/filesink.cpp changeLogFile"),("opening","src/filesinkhelper.ipp openLogFile, createLogFile")],
 "the set of log files on disk after destruction, return values of the change calls")
p("P17","Log files get the documented name in the requested directory, or are refused",
 "A file sink opens a file named prefix, id (if any) and local creation time with extension .log in the requested directory, after white space, slashes, backslashes, dots and colons are stripped from the prefix and the directory is cleaned of backslashes and trailing separators. A prefix that is then empty or contains a forbidden character aborts the program without creating any file, and a directory that cannot be written leads to a file of the same name in the current directory.",
 ["inputs","configurations"],"all prefixes, directories, ids, times and time zones",
 "tests try a few prefixes; the character set and path shapes are combinatorial",
 ["src/filesinkhelper.ipp","src/filesink.cpp"],
 [("prefix and path sanitizing","src/filesinkhelper.ipp prefixSanityFix, isValidFilename, pathSanityFix"),("file name","src/filesinkhelper.ipp createLogFileName"),("fallback","src/filesink.cpp FileSink ctor")],
 "directory listing and reported file name after constructing the sink in a child process")
p("P18","Time stamps are formatted correctly for every instant, zone and format",
 "Formatting a time yields the local calendar representation of that instant according to the standard conversion specifiers, with the fraction specifiers replaced by the zero-padded milli-, micro- or nanosecond part, truncated and consistent with the displayed second. It is correct for instants before and after the epoch, in all time zones and across daylight-saving changes, with any mix of specifiers and literal text including escaped percent signs, and when used from several threads at once.",
 ["inputs","schedules","configurations"],"all representable instants, formats of bounded length and time zones, concurrently",
 "tests check a few instants and formats in one zone",
 ["src/time.cpp","src/g3log/time.hpp","src/logmessage.cpp"],
 [("fraction replacement","src/time.cpp localtime_formatted_fractions, to_string, getFractional"),("calendar conversion","src/time.cpp localtime, put_time, localtime_formatted")],
 "returned string against an independent oracle (strftime plus integer arithmetic)")
p("P19","Log messages have value semantics",
 "Copying a message gives an equal, independent message in every field; moving and assigning transfer every field and leave the source safely destructible and assignable; self-assignment and swapping are harmless. Converting a fatal message to an ordinary one keeps every field, and rendering does not change the message's content.",
 ["inputs","histories"],"all contents (texts, levels, expressions, formatters, threads, times) and sequences of copy, move, assign, swap, render and modify",
 "tests cover one copy and one move of a sample message",
 ["src/logmessage.cpp","src/g3log/logmessage.hpp","src/g3log/loglevels.hpp","src/g3log/moveoncopy.hpp"],
 [("copy/move constructors, swap, assignment","src/logmessage.cpp, src/g3log/logmessage.hpp"),("level copy","src/g3log/loglevels.hpp LEVELS"),("move-on-copy wrapper","src/g3log/moveoncopy.hpp")],
 "all public fields against a shadow record")
p("P20","No memory error, undefined behaviour or leak in any supported use",
 "No supported use of the library — logging of any text and level, sinks, handle calls, file changes, level changes, life cycles, shutdown and fatal events — reads or writes outside live objects, uses freed or uninitialized objects, or has undefined behaviour. Memory and file descriptors do not accumulate over repeated logger life cycles or sink additions and removals.",
 ["inputs","schedules","histories"],"all workloads of the other properties",
 "plain test builds do not detect silent memory errors, and tests do not sample hostile inputs",
 ["src/g3log.cpp","src/logcapture.cpp","src/logworker.cpp","src/logmessage.cpp","src/filesink.cpp","src/filesinkhelper.ipp","src/time.cpp","src/loglevels.cpp","src/crashhandler_unix.cpp","src/g3log/sink.hpp","src/g3log/active.hpp","src/g3log/shared_queue.hpp","src/g3log/future.hpp"],
 [("all native code","src/")],
 "AddressSanitizer/UndefinedBehaviorSanitizer reports, allocation and descriptor accounting")
p("P21","No data race in documented concurrent use",
 "Concurrent logging, handle calls, adding and removing sinks, enabling and disabling levels, time formatting, worker destruction after the loggers stopped, and fatal events while other threads log are free of data races: any two conflicting accesses are ordered by synchronization.",
 ["schedules"],"all interleavings of the documented concurrent operations",
 "a race rarely changes a test's outcome",
 ["src/g3log.cpp","src/logworker.cpp","src/loglevels.cpp","src/g3log/active.hpp","src/g3log/shared_queue.hpp","src/g3log/sink.hpp","src/g3log/sinkhandle.hpp","src/g3log/atomicbool.hpp","src/time.cpp","src/crashhandler_unix.cpp","src/logcapture.cpp"],
 [("queue lock","src/g3log/shared_queue.hpp"),("logger pointer","src/g3log.cpp"),("level status","src/g3log/atomicbool.hpp, src/loglevels.cpp")],
 "ThreadSanitizer reports")
p("P22","The task queue and task runner are FIFO, lossless and drain on destruction",
 "The shared queue behaves like an atomic FIFO queue for any number of producers and consumers: every pushed item is popped exactly once, in order, a blocked consumer is woken by a push, and a non-blocking pop fails only if the queue was empty at some moment during the call. A background task runner executes every submitted task exactly once, in submission order, on its own single thread, completes all tasks submitted before its destruction started, and a spawned task's future delivers its result or exception, or an error if there is no runner.",
 ["schedules","histories"],"all interleavings of pushes, blocking and non-blocking pops, size queries, task submissions (also from tasks) and destruction",
 "tests use a single consumer and small counts",
 ["src/g3log/shared_queue.hpp","src/g3log/active.hpp","src/g3log/future.hpp","src/g3log/moveoncopy.hpp"],
 [("queue","src/g3log/shared_queue.hpp"),("runner","src/g3log/active.hpp"),("futures","src/g3log/future.hpp")],
 "recorded call/return histories of queue operations; task execution records; futures")
p("P23","Messages never refer to caller memory once the LOG statement returned",
 "After a LOG statement returned, the record in flight and everything a sink sees of it own their data: the caller may free or overwrite the message operands, format and argument buffers, file and function strings, expression text and level object, or unload the shared library that contained the call site, before the sinks process the message.",
 ["schedules","programs"],"all records delayed behind a blocked sink while the caller's memory is freed, overwritten or unmapped",
 "literals used by tests stay valid forever, so a dangling reference goes unnoticed",
 ["src/g3log.cpp","src/logcapture.cpp","src/logmessage.cpp","src/g3log/loglevels.hpp"],
 [("explicit copies of all input","src/g3log.cpp saveMessage"),("deep copy of the level text","src/g3log/loglevels.hpp LEVELS copy")],
 "record fields seen by a gated sink after the caller's memory is poisoned or unmapped")
p("P25","A fatal record tells what happened",
 "The fatal message that reaches the sinks, and the copy written to stderr, names the cause: for a log statement its text, for a contract also the condition's source text, for a signal the signal's name and number. It contains a stack dump of the raising thread, the documented exit note with the level and the fatal type, and the marker for its kind (fatal log, broken contract, fatal signal or custom fatal level).",
 ["inputs","crash_points"],"all fatal kinds, signals, levels, texts and raising threads",
 "tests check a fragment of the text for one or two kinds with a mocked exit",
 ["src/g3log.cpp","src/logworker.cpp","src/logmessage.cpp","src/crashhandler_unix.cpp","src/logcapture.cpp"],
 [("signal text","src/crashhandler_unix.cpp signalHandler, exitReasonName"),("stack dump","src/crashhandler_unix.cpp stackdump, src/logcapture.cpp"),("exit note","src/logworker.cpp bgFatal"),("layout by kind","src/logmessage.cpp toString")],
 "fatal text at shared-memory sinks and stderr of a child process")
p("P26","A custom fatal handler fully replaces the default fatal exit",
 "When the application sets its own fatal handler, every fatal statement and broken contract, and the first fatal signal, calls it exactly once, in the raising thread, after the pre-fatal hook, with the complete fatal message (text, level, site, expression, signal); the library then neither logs that message nor terminates the process on its own, exceptions thrown by the handler propagate to the raising statement, and logging stays usable. A handler that passes the message on to the library's default continuation gets the default behaviour.",
 ["inputs","histories","schedules"],"all fatal kinds and threads, handlers that return, throw, log or forward, and repeated or concurrent fatal events",
 "tests use one mock handler from one thread",
 ["src/g3log.cpp","src/logcapture.cpp"],
 [("replaceable fatal call","src/g3log.cpp setFatalExitHandler, fatalCall"),("throwing capture destructor","src/logcapture.cpp ~LogCapture")],
 "calls recorded in the handler, messages at sinks, process state")
p("P27","Simultaneous fatal events: one wins, nothing already logged is lost",
 "When several threads raise fatal events at about the same time, the process terminates by the signal of one of these events, exactly one fatal message reaches the sinks, as their last message, and every message logged before any of the events was raised reaches every sink first. A later fatal event neither cuts the flush of the first one short nor keeps the process from terminating.",
 ["schedules","fault_sequences"],"all combinations of fatal kinds on several threads with any relative timing, including during the flush of the first one",
 "cannot be run in a unit-test process and depends on precise timing",
 ["src/g3log.cpp","src/crashhandler_unix.cpp","src/logworker.cpp"],
 [("only one signal proceeds","src/crashhandler_unix.cpp signalHandler"),("later fatal events wait","src/g3log.cpp pushFatalMessageToLogger")],
 "shared-memory sinks and wait status of a child process")
p("P28","Shutdown always completes and releases everything exactly once",
 "Destroying the logger returns in bounded time once its sinks can make progress, whatever the backlog, number of sinks and pending handle calls; each sink is destroyed exactly once, after its last message, and every background thread the logger started has ended. A sink kept alive by the application is not destroyed under it and does not block shutdown, and handles outliving the logger stay harmless.",
 ["schedules","histories"],"all backlogs, sink counts, handle and ownership histories, and moments of destruction",
 "lost wake-ups and double destruction need rare interleavings",
 ["src/logworker.cpp","src/g3log/logworker.hpp","src/g3log/active.hpp","src/g3log/shared_queue.hpp","src/g3log/sink.hpp","src/g3log/sinkhandle.hpp"],
 [("ordered destruction","src/logworker.cpp ~LogWorker"),("join of background threads","src/g3log/active.hpp ~Active")],
 "sink destructor records, thread count of the process, return of the destructor")
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
