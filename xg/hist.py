"""Histories of sessions over one log: P06 P07 P09 P11 P24.  A case is a list of sessions (tasks, dependencies, outcomes, settings, what is executed when,
how the session ends, where the log is cut afterwards); every session runs the real extension in a process of its own and is compared with
what the log said before it, read by a parser of our own."""
import ctypes, json, os, signal, time
from hypothesis import strategies as st
from . import pycommon as pc

KEYS = ["alpha", "b", "ü-key", "with space", 'q"uote\\', "new\nline", "x" * 90, "a.b-c=1", "b.0", "tab\tkey"]
OUT = ["ok"] * 10 + ["exit", "exit", "sig", "nostart", "crash", "int"]


@st.composite
def cases(draw, prop):
    n = draw(st.integers(1, 7))
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=n, max_size=n, unique=True))
    if draw(st.integers(0, 3)) == 0:
        keys[draw(st.integers(0, n - 1))] = ""
    base = [[d for d in range(i) if draw(st.integers(0, 2)) == 0] for i in range(n)]
    remote = prop == "P24" and draw(st.integers(0, 3)) == 0 or draw(st.integers(0, 14)) == 0
    affs = [draw(st.sampled_from([1, 1, 1, 3, 2] + ([4, 5, 4] if remote else []))) for _ in range(n)]
    sessions = []
    nroots = 1
    crashy = draw(st.integers(0, 3 if prop == "P09" else 9)) <= (2 if prop == "P09" else 1)
    for si in range(draw(st.integers(1 if prop == "P24" else 2, 4))):
        order = [i for i in range(n) if draw(st.integers(0, 7)) > 0] or [0]
        if draw(st.integers(0, 3)) == 0 and len(order) > 1:
            order = order[1:] + order[:1]
        deps = {}
        for p, i in enumerate(order):
            d = [x for x in base[i] if x in order[:p]]
            if p and draw(st.integers(0, 9)) == 0:
                d.append(draw(st.sampled_from(order[:p])))
            deps[str(i)] = d
        out = {}
        for i in order:
            o = draw(st.sampled_from(OUT))
            if o == "crash" and not crashy or o == "int" and draw(st.integers(0, 2)):
                o = "exit"
            r = {"o": o, "ms": draw(st.sampled_from([0, 0, 0, 3, 20]))}
            if o == "exit":
                r["code"] = draw(st.sampled_from([1, 2, 77, 127, 255]))
            elif o == "sig":
                r["sig"] = draw(st.sampled_from([9, 15, 11, 6]))
            elif o == "crash":
                r["ms"] = draw(st.sampled_from([0, 10, 40, 120, 250, 250, 1300] if prop == "P09" else [0, 10, 120, 250]))
            out[str(i)] = r
        execs = [[len(order), draw(st.one_of(st.none(), st.none(), st.sampled_from(order)))]]
        while draw(st.integers(0, 2)) == 0 and len(execs) < 3:
            p = draw(st.integers(1, len(order)))
            execs.append([p, draw(st.one_of(st.none(), st.sampled_from(order[:p])))])
        execs.sort(key=lambda x: x[0])
        if nroots < 4 and draw(st.integers(0, 3)) == 0:
            nroots += 1
        roots = [draw(st.sampled_from(["", "root", "/abs/r", "$KEY/x", "é"])) for _ in range(nroots)]
        cut = None
        if prop == "P09" and draw(st.integers(0, 1)) == 0 or draw(st.integers(0, 15)) == 0:
            cut = draw(st.one_of(st.integers(1, 400), st.integers(1, 4000)))
        sessions.append({
            "order": order, "deps": deps, "out": out, "execs": execs, "roots": roots, "cut": cut,
            "root_of": {str(i): draw(st.integers(0, nroots - 1)) for i in order},
            "capsule": [i for i in order if draw(st.integers(0, 2)) < (2 if prop == "P24" else 1)],
            "rerun": draw(st.integers(0, 3)) > 0, "fa": draw(st.sampled_from([0, 0, 0, 0, 1, 2])), "np": draw(st.integers(1, 4)),
        })
    return {"keys": keys, "affs": affs, "sessions": sessions}


def strategy(prop):
    return cases(prop)


def child(case, s, si, d, log, rec):
    """runs in the session's process"""
    def fn(emit):
        eg = pc.execgraph()
        pid = os.getpid()

        def put(l):
            fd = os.open(rec, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
            os.write(fd, (l + "\n").encode())
            os.close(fd)

        SIG = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_uint32, ctypes.c_uint32, ctypes.c_uint32, ctypes.c_uint64)
        pre = SIG(lambda c, a, b, x, n: put("PRE %d.%d" % (si, (c or 0) - 1)) or 0)
        post = SIG(lambda c, a, b, x, n: put("POST %d.%d %d %d" % (si, (c or 0) - 1, a, b)) or 0)
        api = ctypes.pythonapi
        api.PyCapsule_New.restype = ctypes.py_object
        api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        api.PyCapsule_SetContext.argtypes = [ctypes.py_object, ctypes.c_void_p]

        def cap(f, i):
            c = api.PyCapsule_New(ctypes.cast(f, ctypes.c_void_p), b"Execgraph::Capsule-v3", None)
            api.PyCapsule_SetContext(c, i + 1)
            return c

        called = []
        g = eg.ExecGraph(s["np"], log, storage_roots=s["roots"], failures_allowed=s["fa"], newkeyfn=lambda: called.append(1) or "key-%d" % si,
                         rerun_failures=s["rerun"])
        emit({"open": g.key(), "new": len(called), "roots": [str(r) for r in g.all_storage_roots()], "rc": {k: jrc(g.logfile_runcount(k)) for k in case["keys"]}})
        ids = {}
        done = 0
        for p, target in s["execs"]:
            while done < p:
                i = s["order"][done]
                o = s["out"][str(i)]
                cmd = [pc.PA, rec, "%d.%d" % (si, i), "B"]
                if o["ms"]:
                    cmd.append("s:%d" % o["ms"])
                if o["o"] == "crash":
                    cmd.append("K:%d" % pid)
                elif o["o"] == "int":
                    cmd += ["I:%d" % pid, "s:20"]
                cmd.append("E")
                if o["o"] == "exit":
                    cmd.append("x:%d" % o["code"])
                elif o["o"] == "sig":
                    cmd.append("k:%d" % o["sig"])
                elif o["o"] == "nostart":
                    cmd = [d + "/no such command", "x"]
                kw = {}
                if i in s["capsule"]:
                    kw = {"preamble": cap(pre, i), "postamble": cap(post, i)}
                ids[i] = g.add_task(cmd, case["keys"][i], [ids[x] for x in s["deps"][str(i)]], affinity=case["affs"][i], storage_root=s["root_of"][str(i)], **kw)
                done += 1
            kw = {}
            if any(case["affs"][i] & 4 for i in s["order"]):
                kw["remote_provisioner_cmd"] = d + "/prov"
            emit({"start": p})
            r = g.execute(None if target is None else ids[target], **kw)
            emit({"exec": [r[0], list(r[1])], "size": os.path.getsize(log), "rc": {k: jrc(g.logfile_runcount(k)) for k in case["keys"]}})
        del g
        emit({"closed": 1})
    return fn


def jrc(x):
    return [x[0], None if x[1] is None else str(x[1])]


def status_of(o):
    return {"ok": 0, "crash": 0, "int": 0, "exit": o.get("code"), "sig": -o.get("sig", 0), "nostart": -1}[o["o"]]


def run(prop, case, ctx):
    d = ctx.dir
    log, rec = d + "/wrk.log", d + "/rec"
    with open(d + "/prov", "w") as f:
        f.write("#!/bin/sh\nexec %s \"$1\" 2\n" % pc.REMOTE)
    os.chmod(d + "/prov", 0o755)
    keys = case["keys"]
    idx = {k: i for i, k in enumerate(keys)}
    started = {}                # (key, runcount) -> session
    mark = {"skip": 0, "ran": 0, "reran": 0, "torn": 0, "torn_ran": 0, "pp": 0, "pp_odd": 0, "readyonly": 0}
    workflow_key = None
    for si, s in enumerate(case["sessions"]):
        before = open(log, "rb").read() if os.path.exists(log) else b""
        entries, junk = pc.parse_log(before)
        kept = before
        if junk:
            kept = before[:len(before) - len(junk[-1])]
        if before and not junk and not before.endswith(b"\n"):
            kept = before + b"\n"
        L = pc.LogState(entries)
        torn = bool(junk)
        if os.path.exists(rec):
            os.rename(rec, d + "/rec.%d" % si)
        se = pc.Session(child(case, s, si, d, log, rec), d + "/out%d" % si)
        ms = se.finish()
        t_end = time.clock_gettime(time.CLOCK_MONOTONIC)
        for k in pc.children():
            try:
                os.kill(k, signal.SIGKILL)
                os.waitpid(k, 0)
            except OSError:
                pass
        data = open(log, "rb").read() if os.path.exists(log) else b""
        ctx.note("session %d: exit %s, log %d -> %d bytes, %d messages" % (si, se.code, len(before), len(data), len(ms)))
        exc = [m for m in ms if "exception" in m]
        crash = any(s["out"][str(i)]["o"] == "crash" for i in s["order"])
        if se.hung:
            return ctx.bad("*", "session %d did not come to an end: %s" % (si, tail(d + "/out%d.err" % si)))
        if exc:
            return ctx.bad("P09" if torn and "open" not in ms[0] else "*", "session %d failed: %s: %s %s" % (si, exc[0]["exception"], exc[0]["text"], tail(d + "/out%d.err" % si)))
        killed = se.code == -9
        if se.code != 0 and not (crash and killed):
            return ctx.bad("*", "session %d died with %s: %s" % (si, se.code, tail(d + "/out%d.err" % si)))
        if not ms or "open" not in ms[0]:
            return ctx.bad("*", "session %d: no answer" % si)

        # -------------------------------------------------- opening
        o = ms[0]
        if not data.startswith(kept):
            ctx.bad("P09", "session %d changed what was in the log before it: %d of %d bytes kept" % (si, len(os.path.commonprefix([data, kept])), len(kept)))
            return
        hdr = L.header["workflow_key"] if L.header else None
        if hdr is not None and (o["open"] != hdr or o["new"]):
            ctx.bad("P09", "the log's workflow key is %r, session %d uses %r (new key made: %s)" % (hdr, si, o["open"], o["new"]))
        if hdr is None and o["open"] != "key-%d" % si:
            ctx.bad("P09", "a new log got the workflow key %r" % o["open"])
        roots = [r.replace("$KEY", o["open"]) for r in s["roots"]]
        want = [os.path.join(os.path.realpath(d), r) for r in roots]
        if [os.path.normpath(x) for x in want] != [os.path.normpath(x) for x in o["roots"]]:
            ctx.bad("P07", "storage roots %r instead of %r" % (o["roots"], want))
        check_rc(ctx, o["rc"], L, keys, roots, os.path.realpath(d), "session %d, opened" % si)

        # -------------------------------------------------- the execute() calls
        new, njunk = pc.parse_log(data[len(kept):])
        if njunk and not killed:
            ctx.bad("P09", "session %d left unreadable lines: %r" % (si, njunk[:2]))
        if new and new[0][0] != "Header":
            ctx.bad("P09", "session %d began with %r instead of a header" % (si, new[0]))
        recs = records(rec)
        completed = {}          # key -> success, in this session
        mark["carry"], mark["begun"], mark["vague"] = (set(), set()), set(), False
        pos = len(kept)
        results = [m for m in ms if "exec" in m]
        S = pc.LogState(entries)
        for xi, (p, target) in enumerate(s["execs"]):
            m = results[xi] if xi < len(results) else None
            if m is None and not killed:
                ctx.bad("*", "session %d: no result of execute %d" % (si, xi))
                return
            end = m["size"] if m else len(data)
            part, _ = pc.parse_log(data[pos:end])
            pos = end
            one_exec(ctx, case, s, si, xi, p, target, m, part, S, L, completed, started, recs, mark, want_exact=not crash and m is not None)
            S = pc.LogState(pc.parse_log(data[:pos])[0])
            if m:
                check_rc(ctx, m["rc"], S, keys, roots, os.path.realpath(d), "session %d, after execute %d" % (si, xi))
            if m is None:
                break
        if not killed:
            rest, _ = pc.parse_log(data[pos:])
            b = [keys.index(e["key"]) for k, e in rest if k == "Backref"]
            if len(b) + (pos == len(kept)) != len(rest) or len(set(b)) != len(b):
                ctx.bad("P09", "session %d wrote after the last execute(): %r" % (si, rest[:3]))
            elif not (mark["carry"][0] <= set(b) <= mark["carry"][1]):
                ctx.bad("P11", "session %d: back references to %r instead of %r" % (si, [keys[i] for i in b], [keys[i] for i in mark["carry"][0]]))
        for i in s["capsule"]:
            c = [r for r in recs if len(r) > 1 and r[1] == "%d.%d" % (si, i)]
            if i not in mark["begun"] and not killed and (any(r[0] == "POST" for r in c) or c and not mark["vague"]):
                ctx.bad("P24", "session %d: calls for %r although it was not run: %r" % (si, keys[i], c))
        if killed:
            ctx.hit("killed")
            durable(ctx, case, s, si, recs, data[len(kept):], t_end)
        if torn and any(k == "Started" for k, _ in new):
            mark["torn_ran"] += 1
        # -------------------------------------------------- reading it
        reading(ctx, data, log, d, si)
        if s["cut"] is not None and data:
            n = max(0, len(data) - s["cut"])
            with open(log, "r+b") as f:
                f.truncate(n)
            cutdata = data[:n]
            e2, j2 = pc.parse_log(cutdata)
            left = pc.LogState(e2)
            # what the cut removed never happened, as far as the log can tell
            started_new = {}
            rc = {}
            for k, e in e2:
                if k == "Ready":
                    rc[e["key"]] = e["runcount"]
                elif k == "Started":
                    started_new[(e["key"], rc[e["key"]])] = si
            started.clear(); started.update(started_new)
            ctx.hit("log_cut_within_line" if j2 else "log_cut")
            reading(ctx, cutdata, log, d, si)
            if j2 and si + 1 < len(case["sessions"]):
                mark["torn"] += 1
        if killed and njunk:
            mark["torn"] += 1
        if killed:
            mark["torn_ran"] += 0
            mark.setdefault("killed", 0)
            mark["killed"] += 1
        elif mark.get("killed") and any(k == "Started" for k, _ in new):
            mark["after_kill"] = 1
        if ctx.found:
            return
    n = len(case["sessions"])
    ctx.nontrivial = {
        "P06": n >= 2 and mark["skip"] and mark["ran"],
        "P07": n >= 2 and (mark["reran"] or mark["readyonly"]),
        "P09": mark["torn_ran"] or mark.get("after_kill"),
        "P10": n >= 2,
        "P11": mark.get("p11"),
        "P24": mark["pp"] >= 2 and mark["pp_odd"],
    }[prop] and True or False


def tail(p):
    try:
        return open(p, errors="replace").read()[-600:]
    except OSError:
        return ""


def records(rec):
    out = []
    if os.path.exists(rec):
        for l in open(rec, errors="replace").read().splitlines():
            f = l.split(" ")
            out.append(f)
    return out


def check_rc(ctx, got, S, keys, roots, base, where):
    for k in keys:
        w = S.runcount(k, roots, base)
        g = got[k]
        if g[0] != w[0] or (g[1] is None) != (w[1] is None) or (g[1] is not None and os.path.normpath(g[1]) != os.path.normpath(w[1])):
            ctx.bad("P07", "%s: logfile_runcount(%r) is %r, the log says %r" % (where, k, g, w))


def one_exec(ctx, case, s, si, xi, p, target, m, part, S, L, completed, started, recs, mark, want_exact):
    keys, order = case["keys"], s["order"][:p]
    deps = {i: s["deps"][str(i)] for i in order}
    where = "session %d, execute %d" % (si, xi)
    # closure
    if target is None:
        C = set(order)
    else:
        C, todo = set(), [target]
        while todo:
            x = todo.pop()
            if x not in C:
                C.add(x)
                todo += deps[x]
    done_log = lambda i: L_succ(S, keys[i])
    reused = {i for i in C if keys[i] not in completed and done_log(i)}
    blocked, todo = set(), [i for i in C if completed.get(keys[i]) is False]
    down = lambda x: [i for i in C if x in deps[i]]
    while todo:
        x = todo.pop()
        if x not in blocked:
            blocked.add(x)
            todo += [y for y in down(x) if not done_log(y)]
    R = {i for i in C if keys[i] not in completed and i not in reused and i not in blocked}
    old_fail = set()
    if not s["rerun"]:
        old_fail = {i for i in R if S.failed(keys[i])}
        drop, todo = set(), list(old_fail)
        while todo:
            x = todo.pop()
            if x not in drop:
                drop.add(x)
                todo += [y for y in down(x) if y in R]
        R -= drop
    # what should happen
    exact = want_exact and not any(s["out"][str(i)]["o"] == "int" for i in R)
    ok, ran = {}, set()
    for i in order:
        if i in R:
            if all((ok.get(x) if x in R else True) for x in deps[i]):
                ran.add(i)
                ok[i] = s["out"][str(i)]["o"] in ("ok", "crash", "int")
            else:
                ok[i] = False
    nf = sum(1 for i in ran if not ok[i])
    if s["fa"] and nf >= s["fa"]:
        exact = False
    # what did happen
    ready, begun, fin, backs, fin_order = {}, {}, {}, [], []
    idx = {k: i for i, k in enumerate(keys)}
    for k, e in part:
        if k == "Header":
            continue
        i = idx.get(e["key"])
        if i is None:
            return ctx.bad("*", "%s: entry of an unknown task: %r" % (where, e))
        if k == "Backref":
            backs.append(i)
        elif k == "Ready":
            if i in ready:
                ctx.bad("P07", "%s: %r became ready twice" % (where, keys[i]))
            ready[i] = e
        elif k == "Started":
            if i in begun or i not in ready:
                ctx.bad("P07", "%s: Started of %r out of order" % (where, keys[i]))
            begun[i] = e
        elif k == "Finished":
            if i in fin or i not in begun:
                ctx.bad("P07", "%s: Finished of %r out of order" % (where, keys[i]))
            fin[i] = e
            fin_order.append(keys[i])
    ctx.note("%s(target=%s): run set %s, ready %s, started %s, finished %s, backrefs %s, result %s" % (where, target, sorted(R), sorted(ready), sorted(begun), {i: e["status"] for i, e in fin.items()}, sorted(backs), m and m["exec"]))
    bad_run = set(begun) - R
    for i in sorted(bad_run):
        why = "it was done in this session" if keys[i] in completed else "the log says it succeeded" if i in reused else "something it depends on failed" if i in blocked else "it, or something it depends on, failed before and rerun_failures is off" if i in C else "it is not needed for the target"
        ctx.bad("P06", "%s: %r was run although %s" % (where, keys[i], why))
    if len(set(backs)) != len(backs):
        ctx.bad("P11", "%s: back references twice: %r" % (where, backs))
    # an execute() that has nothing to run does not flush
    must, may = reused | old_fail | mark["carry"][0], reused | old_fail | blocked | mark["carry"][1]
    mark["carry"] = (set(), set())
    if m is not None and not R and not backs:
        mark["carry"] = (must, may)
    elif m is not None and not (must <= set(backs) <= may):
        ctx.bad("P11", "%s: back references to %r instead of %r" % (where, [keys[i] for i in backs], [keys[i] for i in must]))
    if exact:
        if set(begun) != ran:
            ctx.bad("P06", "%s: ran %r instead of %r" % (where, sorted(keys[i] for i in begun), sorted(keys[i] for i in ran)))
        if set(fin) != set(begun):
            ctx.bad("P06", "%s: of %r only %r finished" % (where, sorted(begun), sorted(fin)))
        if m["exec"][0] != nf or sorted(m["exec"][1]) != sorted(keys[i] for i in ran):
            ctx.bad("P06", "%s: execute() returned %r, %d of %r failed" % (where, m["exec"], nf, sorted(keys[i] for i in ran)))
        for i in fin:
            w = status_of(s["out"][str(i)])
            if i in ran and fin[i]["status"] != w and not (s["out"][str(i)]["o"] == "nostart" and fin[i]["status"] == 13):
                ctx.bad("P06", "%s: %r has status %d instead of %d" % (where, keys[i], fin[i]["status"], w))
    for i in begun:
        for x in deps[i]:
            good = (x in fin and fin[x]["status"] == 0) if x in R else True
            if not good:
                ctx.bad("P06", "%s: %r was run although its dependency %r did not succeed" % (where, keys[i], keys[x]))
    # run counts
    for i, e in ready.items():
        w = S.runcount(keys[i], ["x"] * 9, "/")[0]
        if e["runcount"] != w:
            ctx.bad("P07", "%s: %r is run with run count %d, it should be %d" % (where, keys[i], e["runcount"], w))
        if e.get("r", 0) != s["root_of"][str(i)]:
            ctx.bad("P07", "%s: %r is logged with storage root %s instead of %s" % (where, keys[i], e.get("r"), s["root_of"][str(i)]))
        if i in begun:
            pair = (keys[i], e["runcount"])
            if pair in started:
                ctx.bad("P07", "%s: key %r and run count %d were used in session %d before" % (where, pair[0], pair[1], started[pair]))
            started[pair] = si
            if keys[i] in S.last and S.last[keys[i]]["st"] == "ready":
                mark["readyonly"] += 1
            if e["runcount"] > 0:
                mark["reran"] += 1
                ctx.hit("ran_again")
    if si and reused:
        mark["skip"] += 1
        ctx.hit("skipped_by_log", len(reused))
    if begun:
        mark["ran"] += 1
        ctx.hit("ran", len(begun))
    if old_fail:
        ctx.hit("old_failures_left_alone", len(old_fail))
    if reused and part:
        mark["p11"] = 1
    # preamble and postamble
    for i in order:
        if i not in s["capsule"]:
            continue
        tag = "%d.%d" % (si, i)
        ev = [(n, r) for n, r in enumerate(recs) if len(r) > 1 and r[1] == tag]
        pre = [n for n, r in ev if r[0] == "PRE"]
        post = [(n, r) for n, r in ev if r[0] == "POST"]
        b = [n for n, r in ev if r[0] == "B"]
        e_ = [n for n, r in ev if r[0] == "E"]
        if i in begun and m is not None:
            if len(pre) != 1:
                ctx.bad("P24", "%s: the preamble of %r was called %d times" % (where, keys[i], len(pre)))
            elif b and pre[0] > b[0]:
                ctx.bad("P24", "%s: the preamble of %r was called after it had started" % (where, keys[i]))
            if len(post) != 1:
                ctx.bad("P24", "%s: the postamble of %r was called %d times" % (where, keys[i], len(post)))
            elif e_ and post[0][0] < e_[0] or b and post[0][0] < b[0]:
                ctx.bad("P24", "%s: the postamble of %r was called before it had ended" % (where, keys[i]))
            elif i in fin:
                w = [str(int(fin[i]["status"] == 0)), str(ready[i]["runcount"])]
                if post[0][1][2:4] != w:
                    ctx.bad("P24", "%s: the postamble of %r was given (success, run count) = %r instead of %r" % (where, keys[i], post[0][1][2:4], w))
            mark["pp"] += 1
            ctx.hit("capsule_task")
            if i in fin and fin[i]["status"] != 0 or case["affs"][i] & 4:
                mark["pp_odd"] += 1
        if len(pre) > 1 or len(post) > 1 or (e_ and post and post[0][0] < e_[0]):
            ctx.bad("P24", "%s: calls for %r: %r" % (where, keys[i], [r[0] for _, r in ev]))
    mark["begun"] |= set(begun)
    mark["vague"] |= not exact
    # for the next call
    for i in begun:
        if m is None or keys[i] in m["exec"][1]:
            completed[keys[i]] = i in fin and fin[i]["status"] == 0
    for i in reused | old_fail:
        completed[keys[i]] = S.succeeded(keys[i])


def L_succ(S, key):
    return S.succeeded(key)


def durable(ctx, case, s, si, recs, data, t_end):
    """a killed session: what happened more than a second before is in the log"""
    ent, _ = pc.parse_log(data)
    st_ = {e["key"] for k, e in ent if k == "Started"}
    fi_ = {e["key"] for k, e in ent if k == "Finished"}
    for r in recs:
        if r[0] in ("B", "E") and len(r) > 3 and r[1].startswith("%d." % si):
            i = int(r[1].split(".")[1])
            age = t_end - int(r[3]) / 1e6
            o = s["out"][str(i)]
            if r[0] == "B" and age > 1.25:
                ctx.hit("durable_start_judged")
                if case["keys"][i] not in st_:
                    ctx.bad("P09", "session %d was killed %.1f s after %r started, but the log does not say so" % (si, age, case["keys"][i]))
            if r[0] == "E" and age > 1.25 and o["o"] != "crash":
                ctx.hit("durable_end_judged")
                if case["keys"][i] not in fi_:
                    ctx.bad("P09", "session %d was killed %.1f s after %r ended, but the log does not say so" % (si, age, case["keys"][i]))


def reading(ctx, data, log, d, si):
    """load_logfile agrees with our own reading"""
    entries, junk = pc.parse_log(data)

    tag = "P09" if junk else "P11"
    eg, got = pc.execgraph(), {}
    try:
        for mode in ("all", "current,outdated", "current", "outdated"):
            got[mode] = eg.load_logfile(log, mode)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        return ctx.bad(tag, "load_logfile after session %d failed: %s: %s" % (si, type(e).__name__, e))
    judge_reading(ctx, entries, got, "after session %d" % si, all_tag="P09" if junk else "P10")


def judge_reading(ctx, entries, got, where, all_tag="P10"):
    def norm(l):
        return [next(iter(x.items())) for x in l]
    same = lambda a, b: len(a) == len(b) and all(x[0] == y[0] and x[1] == y[1] for x, y in zip(a, b))
    if not same(norm(got["all"]), entries):
        ctx.bad(all_tag, "load_logfile(all) %s: %d entries, the log has %d: %s" % (where, len(got["all"]), len(entries), diff(norm(got["all"]), entries)))
    old, cur, out = pc.current_outdated(entries)
    hd = [x for x in cur if x[0] == "Header"]
    want_c = hd + old + [x for x in cur if x[0] != "Header"]
    c, o = norm(got["current,outdated"][0]), norm(got["current,outdated"][1])
    if not same(c, want_c):
        ctx.bad("P11", "current entries %s: %s" % (where, diff(c, want_c)))
    if not same(o, out):
        ctx.bad("P11", "outdated entries %s: %s" % (where, diff(o, out)))
    if norm(got["current"]) != c or norm(got["outdated"]) != o:
        ctx.bad("P11", "the single modes differ from \"current,outdated\" %s" % where)
    if c and o:
        ctx.hit("current_and_outdated")


def short(x):
    k, e = x
    return "%s(%s)" % (k, ", ".join("%s=%r" % (a, e[a]) for a in ("key", "runcount", "status", "r") if a in e))


def diff(a, b):
    for i in range(max(len(a), len(b))):
        x, y = (a[i] if i < len(a) else None), (b[i] if i < len(b) else None)
        if x is None or y is None or x[0] != y[0] or x[1] != y[1]:
            return "entry %d is %s instead of %s (%d and %d entries)" % (i, x and short(x), y and short(y), len(a), len(b))
    return "?"
