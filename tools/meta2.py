PYNOTE = "Generated histories against the built Python extension (the interface users call), compared with a reference model. No absence proof; model and harness are trusted. "
prop("P06", "A later session skips what succeeded and reruns what did not",
     "A task that the log says has succeeded is not run again by any later session; every other task whose dependencies succeed is run, except that with rerun_failures=False those that failed, and everything downstream of them, are left alone. "
     "A task with an empty key is never skipped because of an earlier session.",
     ["histories", "inputs", "configurations"], "for every sequence of sessions over the same log, with changing graphs, targets, outcomes and settings",
     "the tests resume a log once or twice with the same graph",
     ["src/execgraph.rs", "src/logfile2.rs", "src/pylib.rs"], "runcounts loaded from the log; get_subgraph", note=PYNOTE)
prop("P07", "Run counts give every execution its own work directory",
     "The pair of key and run count is never used by two executions, over all sessions of a log: a task whose start the log records gets a higher run count when it runs again, one that was not started keeps it. "
     "logfile_runcount() reports the run count that the next execution will have and, for a task that succeeded, the directory of its last execution (under the storage root with the recorded index).",
     ["histories", "crash_points", "configurations"], "for every sequence of sessions, outcomes, crashes and storage roots",
     "the tests check one or two steps",
     ["src/pylib.rs", "src/logfile2.rs", "src/execgraph.rs"], "RuncountStatus, storage roots in headers", note=PYNOTE)
prop("P09", "A crash at any point loses no finished work and never blocks the log",
     "Whatever prefix of the log a crash leaves behind (also one that ends within a line, or within a character), a new session can open it and go on: tasks whose end is recorded in it are not run again if they succeeded, tasks that were under way run again with a new run count, and everything the new session writes can be read back. "
     "While tasks run, what has happened is in the log file within a second.",
     ["crash_points", "histories"], "for every byte position at which the log can be cut and every point at which the process can be killed",
     "no test crashes the process or truncates a log",
     ["src/logfile2.rs", "src/sync.rs"], "append-only lines, periodic flush, tolerant reopening", note=PYNOTE)
prop("P10", "The log's reading and writing interfaces agree",
     "Entries written with write_logfile() are read back by load_logfile() unchanged and in order, also when they are appended in several steps and whatever text they contain. "
     "Lines that are not entries are skipped by load_logfile() without losing any other entry.",
     ["inputs", "histories"], "for every sequence of entries and every unreadable line in between",
     "the tests use two or three fixed entries",
     ["src/logfile2.rs", "src/pylib.rs"], "serde of LogEntry, pythonize, LogFileSnapshotReader", note=PYNOTE)
prop("P11", "Current and outdated entries are told apart correctly",
     "load_logfile(\"current\") returns the header and entries of the last session plus the complete last execution of every task that session reused; no entry of the rest is lost, except that \"outdated\" leaves out tasks that are also current, so that deleting what is outdated never deletes what is in use. "
     "\"current,outdated\" returns both.",
     ["histories", "inputs"], "for every history of sessions with back references, reruns, interruptions and dropped tasks",
     "the tests have three fixed histories",
     ["src/logfile2.rs"], "backward scan with pending back references", note=PYNOTE)
prop("P12", "At most one writer has the log, and the next one sees everything",
     "At no time do two sessions (or write_logfile calls), in one or several processes, have the same log open; who comes second is refused with an error and changes nothing. "
     "When a writer closes or dies the log can be opened again at once, and the new writer sees every entry of those before it.",
     ["schedules", "crash_points"], "for every interleaving of opening, writing, closing and crashing by several processes",
     "the tests open a log twice in one process",
     ["src/logfile2.rs"], "advisory lock on .wrk.lock", note=PYNOTE)
prop("P15", "What a remote runner is given is exactly the task",
     "In both encodings and with or without compression, a remote runner receives the task's command line, key, file descriptor input, run count and storage root byte for byte, and the status, output and values it sends back are taken over unchanged, whatever their size or content. "
     "Undecodable requests get a 4xx answer and nothing else happens.",
     ["inputs"], "for every command line, input, values and output, and every byte string as a body",
     "the tests use short ASCII commands",
     ["src/http_extensions", "src/httpinterface.rs", "src/server.rs"], "Postcard extractor, LZ4 layers")
prop("P20", "Local tasks: input, output, values and status are passed on faithfully",
     "A local task is run with exactly the given arguments (no shell), no standard input, its fd_input on the requested descriptor, and descriptor 3 open for reporting values; its output and errors appear unaltered in log.txt and on the console, its values and its exit status or signal in the log. "
     "No amount of input or output, read or unread, in any order, blocks or crashes the run; a command that cannot be started counts as failed.",
     ["inputs", "schedules"], "for every command line, input, amount and order of reading and writing, and way to end",
     "the tests echo short strings",
     ["src/localrunner.rs", "src/sync.rs"], "pipes, fd mappings, wait_with_output", note=PYNOTE)
prop("P21", "execgraph-remote runs the task it was given and reports it faithfully",
     "execgraph-remote runs exactly the command it is given, with the given input and the environment it promises, and reports its pid and host, its exit status or signal, its output and its values to the controller, whatever their size or content. "
     "A command that cannot be started is reported as failed and the runner goes on; it asks for work until it is told to stop.",
     ["inputs", "histories"], "for every sequence of tasks, inputs, outputs and outcomes",
     "the tests run a few short commands",
     ["src/bin/execgraph-remote.rs", "src/localrunner.rs"], "run_command, begun/ping/end requests")
prop("P22", "execgraph-remote never outlives its purpose",
     "While its task runs, execgraph-remote pings the controller at least every 30 seconds; if the controller is gone or refuses it, it ends its task and exits within bounded time, leaving no process of the task behind. "
     "The same holds when it is told to terminate and when its time limit is reached.",
     ["fault_sequences", "crash_points"], "for every point at which the controller disappears, refuses or delays",
     "no test takes the controller away",
     ["src/bin/execgraph-remote.rs"], "ping loop, signal handling, time limit")
prop("P23", "Building the graph: add_task and its queries are consistent",
     "add_task() returns the index of the task, the existing one if its key is already in the graph; an invalid task (no command, an unknown or forward dependency) is refused and leaves the graph as it was. "
     "ntasks(), task_keys() and get_task() report exactly the tasks that were accepted, with their command line, key and display text.",
     ["inputs", "histories"], "for every sequence of valid and invalid additions interleaved with execute() calls",
     "the tests add a few valid tasks and one invalid",
     ["src/execgraph.rs", "src/pylib.rs"], "key_to_nodeid, petgraph indices", note=PYNOTE)
prop("P24", "Preamble and postamble are called once per execution, at the right time",
     "For every execution of a task that has them, the preamble is called exactly once before its command starts and the postamble exactly once after it has ended, with the task's context, and the postamble is told whether it succeeded and its run count. "
     "For tasks that are not run neither is called.",
     ["histories", "schedules"], "for every graph, outcome, and way for a task to end, on local and remote queues",
     "the only test does not look at the calls",
     ["src/execgraph.rs", "src/sync.rs", "src/server.rs", "src/localrunner.rs"], "call_preamble, call_postamble", note=PYNOTE)
