#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id: (title, statement, over, quantifier text, why tests cannot, files, mechanism, claimed: None or level note)
P = {}


def prop(i, title, statement, over, qtext, why, files, mech, note=None, na=None):
    assert len(title) <= 80, title
    P[i] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, na=na)


SIMNOTE = ("Generated histories of one real controller (ExecGraph::execute with its HTTP server, admin socket, local runners and log) under a virtual clock, "
           "judged step by step by a reference model. No absence proof; one tokio worker thread; model and harness are trusted. ")

prop("P01", "A task starts only after all of its dependencies succeeded",
     "A task is handed to a runner (local or remote), and recorded as ready in the log, only if every task it depends on has already succeeded, in this run, earlier in this session or in a previous session. "
     "A task downstream (at any distance) of a failed, lost or cancelled task is never run, also not by a later execute() call of the same session. "
     "The list returned by execute() contains every dependency before its dependents.",
     ["schedules", "histories", "inputs"], "for every task graph, every interleaving of completions, failures and losses, every sequence of execute() calls and sessions",
     "the tests run a handful of fixed graphs once, mostly with immediate successes; failures, losses and several execute() calls are hardly combined",
     ["src/sync.rs", "src/execgraph.rs"], "dependency counters and poisoning when a task finishes; subgraph selection at the start of execute()", SIMNOTE)
prop("P02", "No task is handed out twice",
     "Within one execute() call, and across the execute() calls of one session, every task is handed to at most one runner, even if it may run on several queues, several runners ask at the same moment, a runner gives up waiting, or requests are repeated. "
     "execute() lists every finished task exactly once.",
     ["schedules", "histories"], "for every assignment of queues, every arrival order of requests by local and remote runners, and every abandoned or repeated request",
     "the tests use one or two runners and never race queues against each other",
     ["src/sync.rs", "src/server.rs"], "the shared claim flag of a task that sits in several queues; transactions", SIMNOTE)
prop("P03", "execute() runs what it should, ends, and tells the truth",
     "execute() runs every task whose dependencies succeed (restricted to the target and what it depends on, if there is a target) that is not skipped because of the log, and nothing else. "
     "It returns as soon as all of these have finished and not before, provided the remaining tasks' queues are served. "
     "The number of failures and the list of finished tasks it returns are exactly what happened.",
     ["schedules", "histories", "inputs"], "for every graph, target, mixture of successes, failures and losses, and interleaving",
     "the tests check return values on a few fixed graphs; lost wake-ups and accounting slips show only under particular interleavings",
     ["src/sync.rs", "src/execgraph.rs", "src/localrunner.rs"], "n_ready_or_inflight accounting, ready queues, finished_order", SIMNOTE)
prop("P04", "The failure budget stops the run cleanly",
     "Once as many tasks as failures_allowed have failed within five seconds of their start, no further task is started, tasks that started less than five seconds before are cancelled and counted as failed, and tasks that have been running for longer are allowed to end and are reported with their real outcome. "
     "Failures after five seconds do not use up the budget, and a budget of zero means no limit. "
     "execute() returns when the last of the remaining tasks has ended.",
     ["schedules", "histories", "inputs"], "for every budget, graph, and timing of starts, failures and losses",
     "the tests have one or two fixed cases with immediate failures; the timing classes around five seconds and the races at exhaustion are not reached",
     ["src/sync.rs", "src/server.rs", "src/localrunner.rs", "src/fancy_cancellation_token.rs"], "fizzle counting, soft shutdown, CancelledAfterTime", SIMNOTE)
prop("P05", "Queue affinity, parallelism limit, work conservation and priority",
     "A task is handed only to a runner of a queue in its affinity mask; at most num_parallel tasks run at once on the local queue and at most one on the console queue, and none if num_parallel is zero. "
     "A runner that asks while a suitable task is ready gets one at once. "
     "Among the ready tasks of its queue it gets one of those with the longest chain of tasks leading to it.",
     ["schedules", "inputs", "configurations"], "for every assignment of affinity masks, parallelism, graph shape and arrival order",
     "the tests use queue 0 and one or two remote queues with one task each; priorities are only unit-tested as a graph function",
     ["src/sync.rs", "src/localrunner.rs", "src/graphtheory.rs", "src/server.rs"], "one priority channel per queue, fed per affinity bit; local loops", SIMNOTE)
prop("P08", "The log tells what happened",
     "For every task that was handed out the session's part of the log contains exactly one Ready, one Started and one Finished entry, in this order, with the key, run count, command, storage root, host, pid, slurm job, exit status and reported values of the real execution; tasks that were made ready but never handed out have only Ready, and skipped ones at most a back reference. "
     "This holds for failures, lost and cancelled runners and stopped runs, too.",
     ["histories", "schedules", "fault_sequences"], "for every history of executions, losses, cancellations, repeated requests and shutdowns",
     "the tests look at logs of a few plain runs",
     ["src/sync.rs", "src/logfile2.rs", "src/server.rs"], "log writes in the background service and in drain()", SIMNOTE)
prop("P13", "Requests cannot corrupt the run: authorization, transactions, bad input",
     "A request without the run's token, with a malformed body, for an unknown, finished or lost transaction, or from another slurm job than the task was given to is refused and changes nothing: every open transaction can still be completed by its owner. "
     "Repeated and reordered requests of a well-meaning runner are harmless. "
     "No request by a client can crash the controller, or make it lose or invent a task's outcome.",
     ["inputs", "histories", "fault_sequences"], "for every sequence of valid, repeated, stale, foreign, unauthorized and malformed requests interleaved with real work",
     "the tests send almost only what execgraph-remote sends",
     ["src/server.rs", "src/http_extensions"], "token check, transaction table, Postcard extractor",
     SIMNOTE + "Known finding F1 (a client that never completes its request keeps execute() from returning) is reported as such.")
prop("P14", "Silent runners are given up, live ones are not",
     "A task whose remote runner has not been heard from (handed out or pinged) for about 35 seconds is given up: it counts as failed and lost, its transaction is closed, its dependents do not run and the run goes on without it. "
     "A runner that pings at least every 30 seconds is never given up, however long its task takes.",
     ["schedules", "fault_sequences", "histories"], "for every pattern of pings, silences and completions around the limits",
     "real time would make such tests last minutes; the tests have one case with one runner",
     ["src/server.rs", "src/time/timewheel.rs", "src/constants.rs"], "time wheel of transactions, refreshed by /ping, reaped periodically", SIMNOTE)
prop("P16", "/status reports the truth and long polls wake up",
     "At rest /status reports for every affinity exactly the number of ready and of running tasks, the number of tasks in the run and of those not ready yet, the rate limit, the provisioner info and the mean run time of recent successful tasks. "
     "Its etag grows whenever tasks become ready, and never shrinks. "
     "A long poll with the current etag is answered when tasks become ready or its timeout has passed (never before its minimum time), one with an older etag at once, and none keeps execute() from returning.",
     ["schedules", "histories", "inputs"], "for every history of work and every combination of etag, minimum and timeout",
     "the tests poll once or twice in fixed situations",
     ["src/server.rs", "src/sync.rs", "src/async_flag.rs", "src/admin_server.rs"], "queue state snapshot counters and the async counter", SIMNOTE)
prop("P17", "Cancelled slurm jobs get no work",
     "Once a slurm job has been marked as cancelled and the controller has confirmed it, no runner of that job is given a task any more, also not in answer to a request it made before; such runners are told to go away. "
     "The confirmation lists exactly those of the named jobs that were not running a task, and jobs that are running a task are left alone. "
     "Runners of other jobs are not affected.",
     ["schedules", "histories"], "for every order of hand-outs, waiting requests and cancellations of several jobs",
     "the tests cancel one job in one situation",
     ["src/server.rs"], "cancelled job ids, pending starts", SIMNOTE)
prop("P18", "The launch rate limit is kept and does not starve work",
     "With a limit of r per second no more than r*(T+1)+1 tasks that were asked for and started within any T seconds are started, locally and remotely together, and no more than r*T+1 in the first T seconds after the limit was set; without a limit nothing is delayed. "
     "A limit set through the admin socket while running takes effect at once. "
     "A limited run still finishes: a waiting runner gets its task as soon as a permit is free.",
     ["schedules", "inputs", "histories"], "for every limit, change of limits and arrival pattern",
     "rates can be tested in real time only roughly; the tests check the pure arithmetic and one timing",
     ["src/time/gcra.rs", "src/sync.rs", "src/admin_server.rs"], "GCRA limiter consulted before every hand-out", SIMNOTE)
prop("P19", "Shutdown: soft lets work finish, hard ends it, both are complete",
     "After a soft shutdown no task is started, all that have been handed out run to their end with their real outcome, and execute() then returns. "
     "After a hard shutdown (admin request, SIGINT, exit of the provisioner) execute() returns promptly, the tasks that were running are logged and counted as failed, waiting requests are answered, and neither local task processes nor the provisioner survive.",
     ["crash_points", "schedules", "histories"], "for every point of a run at which it is stopped, every kind of stop, and every state of its runners",
     "the tests stop a run at one or two fixed points",
     ["src/sync.rs", "src/execgraph.rs", "src/admin_server.rs", "src/localrunner.rs", "src/fancy_cancellation_token.rs"], "soft_shutdown_trigger, hard cancellation token, drain()", SIMNOTE)

exec(open(os.path.join(V, "tools", "meta2.py")).read())


def main():
    sys.path.insert(0, V)
    from xg import props
    with open(V + "/properties.jsonl", "w") as f:
        for i in sorted(P):
            p = P[i]
            f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
    checks, na = [], []
    for i in sorted(P):
        p = P[i]
        if i in props.PROPS:
            eng = props.PROPS[i]["engines"]
            kinds = {"Sim": "model-based random histories under a virtual clock, with shrinking", "Rust": "generated inputs and histories against a reference model, with shrinking", "Py": "Hypothesis (generated histories against a reference model, with shrinking)"}
            tech = "; ".join(dict.fromkeys(kinds[type(e).__name__] for e in eng))
            checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": "property-based testing: " + tech, "level": "exploration", "level_note": p["note"].strip()})
        else:
            na.append({"property": i, "reason": p["na"] or "no check yet (work in progress)"})
    json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: everything is observed through the public interfaces."}, open(V + "/MANIFEST.json", "w"), indent=1)


main()
