"""Which engines decide which property."""
from .driver import Sim, Rust, Py

SIM_RULE = ("a case is a generated task graph and a generated history of operations (requests of well-behaved, silent and misbehaving runners, "
            "local tasks that end or hang, admin requests, shutdowns, steps of the virtual clock, several execute() calls and sessions), executed "
            "against the real controller and judged after every step by a reference model; non-trivial: ")

RULES = {
    "P01": "at least 2 tasks with dependencies were handed out",
    "P02": "at least 3 tasks were handed out, 2 of them eligible for several queues",
    "P03": "at least 3 tasks were handed out and execute() returned a result that was compared exactly",
    "P04": "the failure budget was exhausted",
    "P05": "at least 2 hand-outs were judged for priority, and at least 2 went to local slots or could have gone to several queues",
    "P08": "at least 3 tasks were handed out, the log was judged, and a runner was lost, a task fizzled, a run was stopped or a session resumed",
    "P13": "at least 2 bad, stale, duplicate or foreign requests were aimed at transactions",
    "P14": "at least 2 runners were lost to silence or kept alive by pings",
    "P16": "at least 2 /status answers were compared exactly or long-polled",
    "P17": "a slurm job was cancelled and at least 2 tasks were handed out",
    "P18": "at least 4 tasks were started under a rate limit",
    "P19": "a run with a handed-out task was stopped (softly, hard, by SIGINT or by its provisioner's exit)",
}
SIM_CASES = {"P01": 880, "P02": 880, "P03": 800, "P04": 800, "P05": 960, "P08": 640, "P13": 640, "P14": 320, "P16": 880, "P17": 880, "P18": 400, "P19": 1200}
SIM_ASSUME = ["the clock is virtual (the harness interposes clock_gettime), so timing is exact up to the harness's 4-25 ms steps",
              "one tokio thread: interleavings are those of task scheduling and message arrival, not of parallel threads"]


def sim(p):
    return Sim("sim", SIM_CASES[p], rule=SIM_RULE + RULES[p])


PROPS = {p: {"engines": [sim(p)], "assumptions": SIM_ASSUME} for p in SIM_CASES}

HIST_RULE = ("a case is a generated history of 1-4 sessions over one log (task graphs, outcomes, kills, signals, targets, storage roots, settings, cuts of the log in between), "
             "each run by the real extension in a process of its own and compared with what the log said before it, read by an independent parser; non-trivial: ")
HIST_CASES = {"P06": 1200, "P07": 1200, "P09": 1200, "P11": 1200, "P24": 1000}
HIST_ASSUME = ["real time and real processes; verdicts depend on time only where a second or more is at stake"]
HIST_NT = {
    "P06": "at least two sessions, in which something was skipped because of an earlier session and something was run",
    "P07": "at least two sessions, in which a task was run again, or kept its run count although an earlier session made it ready",
    "P09": "a session was killed or the log cut within a line, and a later session opened that log and ran something",
    "P11": "the last session reused at least one task of an earlier session, and at least one entry was outdated or came from the last session",
    "P24": "at least two tasks with a preamble and a postamble were run, one of which failed or could not be started or ran on a remote queue",
}
for p, n in HIST_CASES.items():
    PROPS[p] = {"engines": [Py("hist", n, rule=HIST_RULE + HIST_NT[p])], "assumptions": HIST_ASSUME}

LOGIO_RULE = ("a case is a generated log (entries of well-formed histories with extreme field values, appended in several calls of write_logfile), "
              "lines that are no entries, or a torn last line; read with load_logfile() in every mode or by a new session; non-trivial: ")
PROPS["P10"] = {"engines": [Py("logio", 2400, rule=LOGIO_RULE + "at least 5 entries, some not ASCII or with escapes, appended in at least 2 calls; or at least 3 entries among lines that are no entries"),
                            Py("hist", 400, rule=HIST_RULE + "at least two sessions whose logs were read in every mode")],
                "assumptions": HIST_ASSUME}
PROPS["P11"]["engines"].append(Py("logio", 1600, rule=LOGIO_RULE + "the last session refers back to entries of earlier ones, and something is outdated"))
PROPS["P07"]["engines"].append(Py("logio", 1200, rule=LOGIO_RULE + "keys in at least 2 different states"))

LOCKS_RULE = ("a case is a generated list of operations of three processes on one log (sessions opened by different paths, closed, killed or gone, tasks run, write_logfile, changes of directory, "
              "and such things at the same moment), judged by a model of who has the log and by an independent reading of the file; non-trivial: something was refused, and there was a race or a takeover from a dead process")
PROPS["P12"] = {"engines": [Py("locks", 1600, rule=LOCKS_RULE)], "assumptions": ["local file system with flock semantics"]}

LOCALIO_RULE = ("a case is a generated set of local and console tasks with arguments, fd_input, a list of things they do (write, read, close, report values, end in some way), and a kind of console; every task "
                "records what it found, and log.txt, the console and the log are compared with what follows from the list; non-trivial: at least three tasks that do something, end in a special way or cannot be started")
PROPS["P20"] = {"engines": [Py("localio", 1600, rule=LOCALIO_RULE)], "assumptions": HIST_ASSUME}

GRAPH_RULE = ("a case is a generated list of add_task calls (valid, repeated and invalid in eight ways), queries and execute() calls, compared with a model of what was accepted; "
              "non-trivial: something was refused, something was there already, and something was run")
PROPS["P23"] = {"engines": [Py("graph", 1600, rule=GRAPH_RULE)]}
