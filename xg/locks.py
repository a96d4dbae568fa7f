"""Several processes and one log: P12.  A case is a list of operations of up to 3 worker processes: open sessions (by different paths of the log), close them, run tasks,
write_logfile(), die, leave their directory, and do such things at the same moment.  The model knows who has the log; the file is read independently."""
import json, mmap, os, random, signal, subprocess, time
from hypothesis import strategies as st
from . import pycommon as pc

PATHS = ["abs", "rel", "dots", "dirlink", "filelink", "rellink"]
NW = 3


def op(prop):
    w = st.integers(0, NW - 1)
    path = st.sampled_from(PATHS)
    h = st.sampled_from([NW, NW, NW, 0, 1, 2])       # NW: who has the log
    one = st.one_of(
        st.tuples(st.just("open"), w, path),
        st.tuples(st.just("open"), w, path),
        st.tuples(st.just("write"), w, path, st.integers(0, 3)),
        st.tuples(st.just("close"), h),
        st.tuples(st.just("close"), h),
        st.tuples(st.just("exec"), h, st.booleans()),
        st.tuples(st.just("die"), h, st.sampled_from(["kill", "exit", "term"]), st.booleans()),
        st.tuples(st.just("chdir"), w, st.integers(0, 2)),
        st.tuples(st.just("badwrite"), w, path),
        st.tuples(st.just("race"), st.lists(st.tuples(w, st.sampled_from(["open", "write", "open"]), path, st.integers(0, 3000)), min_size=2, max_size=NW, unique_by=lambda x: x[0]), st.booleans()),
        st.tuples(st.just("storm"), st.integers(1, 12), path, st.integers(0, 2**31 - 1)),
    )
    return one


def strategy(prop):
    return st.lists(op(prop), min_size=2, max_size=14)


def paths(d):
    return {"abs": d + "/log/wrk.log", "rel": "../log/wrk.log", "dots": d + "/log/../log/./wrk.log", "dirlink": d + "/ln/wrk.log",
            "filelink": d + "/other/link.log", "rellink": "../other/link.log"}


def entries_for(tag, n):
    t = {"secs_since_epoch": 1, "nanos_since_epoch": 0}
    out = [{"Header": {"version": 4, "time": t, "user": "u", "hostname": "h", "workflow_key": "wf", "cmdline": [], "workdir": "/", "pid": 1, "storage_roots": [tag]}}]
    for i in range(n):
        out.append({"Ready": {"time": t, "key": "%s.%d" % (tag, i), "runcount": i, "command": "x" * (3000 if i == 2 else 3), "r": 0}})
    return out


def worker(me, d, cmdr, slots, go):
    """the worker process: obeys commands; slots[i] is 1 while worker i knows that it has the log"""
    def main(emit):
        eg = pc.execgraph()
        os.chdir(d + "/cwd0")
        P = paths(d)
        g = [None]
        f = os.fdopen(cmdr, "r")

        def do_open(path, tag, keys):
            try:
                x = eg.ExecGraph(1, P[path], storage_roots=[tag], newkeyfn=lambda: "wf")
            except OSError as e:
                return {"refused": str(e)[:100]}
            slots[me] = 1
            both = any(slots[i] for i in range(NW) if i != me)
            g[0] = x
            return {"ok": tag, "both": both, "rc": {k: [r[0], None if r[1] is None else str(r[1])] for k in keys for r in [x.logfile_runcount(k)]}}

        def do_close():
            slots[me] = 0
            g[0] = None
            return {"closed": 1}

        def do_write(path, tag, n):
            try:
                eg.write_logfile(P[path], entries_for(tag, n))
                return {"ok": tag, "n": n}
            except OSError as e:
                return {"refused": str(e)[:100]}

        for line in f:
            c = json.loads(line)
            if "at" in c:
                while go[0] != c["at"]:
                    pass
                for _ in range(c["spin"]):
                    pass
            o = c["op"]
            if o == "open":
                emit(do_open(c["path"], c["tag"], c["keys"]))
            elif o == "close":
                emit(do_close())
            elif o == "write":
                emit(do_write(c["path"], c["tag"], c["n"]))
            elif o == "badwrite":
                try:
                    eg.write_logfile(P[c["path"]], entries_for(c["tag"], 1) + [{"Nope": {}}])
                    emit({"ok": 1})
                except OSError as e:
                    emit({"refused": str(e)[:100]})
                except Exception as e:
                    emit({"bad": type(e).__name__})
            elif o == "chdir":
                os.chdir(d + "/cwd%d" % c["to"])
                emit({})
            elif o == "exec":
                g[0].add_task(["true"] if c["ok"] else ["false"], c["key"])
                n, l = g[0].execute()
                emit({"n": n, "l": l})
            elif o == "hang":
                g[0].add_task([pc.PA, "z100000"], c["key"])
                emit({})
                g[0].execute()
            elif o == "exit":
                emit({})
                os._exit(0)
            elif o == "storm":
                rnd, out = random.Random(c["seed"]), []
                for i in range(c["n"]):
                    tag = "%s.%d" % (c["tag"], i)
                    if rnd.random() < 0.6:
                        r = do_open(c["path"], tag, c["keys"])
                        r["what"] = "open"
                        if "ok" in r:
                            for _ in range(rnd.choice([0, 0, 300])):
                                pass
                            do_close()
                    else:
                        r = do_write(c["path"], tag, rnd.randint(0, 3))
                        r["what"] = "write"
                    out.append(r)
                emit({"storm": out})
    return main


class W:
    def __init__(self, me, ctx, slots, go):
        r, w = os.pipe()
        os.set_inheritable(r, True)
        self.s = pc.Session(worker(me, ctx.dir, r, slots, go), ctx.dir + "/out%d" % me)
        os.close(r)
        self.w, self.has = w, None       # has: tag of the session it has open

    def send(self, **c):
        os.write(self.w, (json.dumps(c) + "\n").encode())

    def ask(self, **c):
        self.send(**c)
        return self.s.next()

    def gone(self):
        os.close(self.w)


def run(prop, case, ctx):
    d = ctx.dir
    for x in ("log", "other", "cwd0", "cwd1", "cwd2"):
        os.mkdir(d + "/" + x)
    for x in ("cwd1", "cwd2"):        # another workflow's lock file: none of ours
        open(d + "/" + x + "/.wrk.lock", "w").close()
    os.symlink("log", d + "/ln")
    os.symlink("../log/wrk.log", d + "/other/link.log")
    log = d + "/log/wrk.log"
    eg = pc.execgraph()
    open(log, "w").close()      # otherwise the links dangle
    slots, go = mmap.mmap(-1, NW), mmap.mmap(-1, 1)
    ws = [None] * NW
    holder = None                # worker index
    tags, keys = [0], []
    opened = {}                  # tag -> runcounts it saw
    written = {}                 # tag -> number of entries
    executed = set()
    killed = set()               # tags of sessions that did not close properly
    known = b""
    ev = {"refused": 0, "races": 0, "takeover": 0, "dead": 0}

    def newtag():
        tags[0] += 1
        return "s%d" % tags[0]

    def data():
        with open(log, "rb") as f:
            return f.read()

    def sane(m, what):
        if m is None or "exception" in m:
            ctx.bad("P12", "%s: the process %s" % (what, "does not answer or ended" if m is None else "raised %s: %s" % (m["exception"], m["text"])))
            return False
        return True

    def after(what):
        """the file has only grown; sessions that are in it saw what was there before"""
        nonlocal known
        now = data()
        if not now.startswith(known):
            ctx.bad("P12", "%s: the log lost what was in it (%d bytes, then %d)" % (what, len(known), len(now)))
        known = now

    def judge(what):
        """nobody has the log: it contains exactly what was written"""
        ents, junk = pc.parse_log(data())
        if junk and not killed:
            return ctx.bad("P12", "%s: the log has unreadable lines: %r" % (what, junk[:2]))
        seen = {}
        for i, (k, e) in enumerate(ents):
            if k == "Header":
                t = e["storage_roots"][0]
                if t in seen:
                    ctx.bad("P12", "%s: session %s is twice in the log" % (what, t))
                seen[t] = i
                if t not in opened and t not in written:
                    ctx.bad("P12", "%s: %s was refused, but it is in the log" % (what, t))
        for t, n in written.items():
            if t not in seen:
                ctx.bad("P12", "%s: what write_logfile wrote as %s is lost" % (what, t))
            else:
                got = [e["key"] for k, e in ents[seen[t] + 1:seen[t] + 1 + n]]
                if got != ["%s.%d" % (t, i) for i in range(n)]:
                    ctx.bad("P12", "%s: what write_logfile wrote as %s is mixed up: %r" % (what, t, got))
        for t, rc in opened.items():
            if t not in seen:
                if t not in killed:
                    ctx.bad("P12", "%s: session %s is not in the log" % (what, t))
                continue
            L = pc.LogState(ents[:seen[t]])
            for k, v in rc.items():
                want = L.runcount(k, [t], d + "/log")
                if v[0] != want[0]:
                    ctx.bad("P12", "%s: session %s saw run count %r of %r, the log before it says %r" % (what, t, v[0], k, want[0]))
        for k in executed:
            f = [e for kk, e in ents if kk == "Finished" and e["key"] == k]
            if len(f) != 1:
                ctx.bad("P12", "%s: task %r has finished, the log has %d ends of it" % (what, k, len(f)))
        got = [next(iter(x.items())) for x in eg.load_logfile(log, "all")]
        if [g[0] for g in got] != [e[0] for e in ents]:
            ctx.bad("P12", "%s: load_logfile() reads %d entries, the log has %d" % (what, len(got), len(ents)))

    def result(i, m, what, path, alone):
        """an open or write of worker i; alone: nobody else had or wanted the log"""
        nonlocal holder
        if not sane(m, what):
            return
        if "ok" in m:
            if alone is False:
                ctx.bad("P12", "%s succeeded by path %r although worker %d has the log" % (what, path, holder))
            if "n" in m:
                written[m["ok"]] = m["n"]
                keys.extend("%s.%d" % (m["ok"], j) for j in range(m["n"]))
            else:
                if m["both"]:
                    ctx.bad("P12", "%s succeeded while another process had the log" % what)
                opened[m["ok"]] = m["rc"]
                ws[i].has = m["ok"]
                holder = i
        else:
            ev["refused"] += 1
            if alone:
                ctx.bad("P12", "%s by path %r was refused although nobody has the log: %s" % (what, path, m["refused"]))

    def end(i, how):
        nonlocal holder
        w = ws[i]
        if how == "exit":
            w.send(op="exit")
            w.s.next()
        else:
            os.kill(w.s.pid, signal.SIGKILL if how == "kill" else signal.SIGTERM)
        w.s.pid_gone = True
        try:
            os.waitpid(w.s.pid, 0)
        except OSError:
            pass
        w.gone()
        os.close(w.s.r)
        ws[i] = None
        if w.has:
            killed.add(w.has)
            ev["dead"] += 1
        slots[i] = 0
        if holder == i:
            holder = None

    for c in case:
        if ctx.found:
            break
        o, i = c[0], c[1]
        ctx.note(" ".join(map(str, c)))
        if i == NW:
            if holder is None:
                continue
            i = holder
        if o in ("race", "storm"):
            for j in range(NW):
                if ws[j] is None:
                    ws[j] = W(j, ctx, slots, go)
        elif ws[i] is None:
            ws[i] = W(i, ctx, slots, go)
        before = data()
        if o == "open":
            if ws[i].has:
                continue
            if ev["dead"] and holder is None:
                ev["takeover"] += 1
            result(i, ws[i].ask(op="open", path=c[2], tag=newtag(), keys=keys), "open by worker %d" % i, c[2], holder is None)
        elif o == "write":
            result(i, ws[i].ask(op="write", path=c[2], tag=newtag(), n=c[3]), "write_logfile by worker %d" % i, c[2], holder is None)
        elif o == "badwrite":
            m = ws[i].ask(op="badwrite", path=c[2], tag=newtag())
            if sane(m, "write_logfile of something that is no entry") and "ok" in m:
                ctx.bad("P10", "write_logfile accepts something that is no entry")
        elif o == "close":
            if not ws[i].has:
                continue
            m = ws[i].ask(op="close")
            if not sane(m, "close"):
                break
            ws[i].has = None
            holder = None
        elif o == "exec":
            if not ws[i].has:
                continue
            k = "%s-%d" % (ws[i].has, len(keys))
            m = ws[i].ask(op="exec", ok=c[2], key=k)
            if not sane(m, "execute"):
                break
            if m["n"] != (0 if c[2] else 1) or m["l"] != [k]:
                ctx.bad("P03", "execute() returned %r" % m)
            keys.append(k)
            executed.add(k)
        elif o == "die":
            if c[3] and ws[i].has and c[2] != "exit":
                ws[i].ask(op="hang", key="hang-%d" % len(keys))
                keys.append("hang-%d" % len(keys))
                time.sleep(0.03)
                ctx.hit("killed_while_running")
                if c[2] == "term":
                    end(i, "kill")
                    continue
            end(i, c[2])
        elif o == "chdir":
            if not sane(ws[i].ask(op="chdir", to=c[2]), "chdir"):
                break
        elif o == "race":
            at = 1 + (go[0] % 100)
            part = [r for r in c[1] if not ws[r[0]].has]
            closing = holder is not None and c[2]
            alone = holder is None
            if closing:
                ws[holder].send(op="close", at=at, spin=1000)
            for r in part:
                ws[r[0]].send(op=r[1], path=r[2], tag=newtag(), n=2, keys=keys, at=at, spin=r[3])
            go[0] = at
            old = holder
            if closing:
                if not sane(ws[holder].s.next(), "close"):
                    break
                ws[holder].has = None
                holder = None
            rs = [(r, ws[r[0]].s.next()) for r in part]
            wins = 0
            for r, m in rs:
                wins += bool(m and "ok" in m)
                h = holder
                if m and "ok" in m and r[1] == "open" and h is not None and h != r[0] and h != old:
                    ctx.bad("P12", "two processes opened the log at the same moment")
                result(r[0], m, "%s by worker %d in a race" % (r[1], r[0]), r[2], None if closing or alone else False)
            if alone and part and not wins:
                ctx.bad("P12", "nobody had the log, %d wanted it, and all were refused" % len(part))
            if len(part) >= 2 or closing and part:
                ev["races"] += 1
        elif o == "storm":
            at = 1 + (go[0] % 100)
            free = holder is None
            part = [j for j in range(NW) if not ws[j].has]
            for j in part:
                ws[j].send(op="storm", n=c[1], path=PATHS[(PATHS.index(c[2]) + j) % len(PATHS)], tag=newtag(), seed=c[3] + j, keys=keys, at=at, spin=0)
            go[0] = at
            n = 0
            for j in part:
                m = ws[j].s.next()
                if not sane(m, "storm"):
                    break
                for r in m["storm"]:
                    if "ok" in r and not free:
                        ctx.bad("P12", "%s succeeded although worker %d has the log" % (r["what"], holder))
                    if "ok" in r and r["what"] == "open":
                        if r["both"]:
                            ctx.bad("P12", "a session was opened while another process had the log")
                        opened[r["ok"]] = r["rc"]
                    elif "ok" in r:
                        written[r["ok"]] = r["n"]
                        keys.extend("%s.%d" % (r["ok"], q) for q in range(r["n"]))
                    else:
                        n += 1
                    ctx.hit("storm_" + r["what"] + ("" if "ok" in r else "_refused"))
            ev["races"] += n > 0
            ev["refused"] += n
        # lock files of others are never touched
        for x in ("cwd1", "cwd2"):
            if not os.path.exists(d + "/" + x + "/.wrk.lock"):
                ctx.bad("P12", "%s removed the lock file in another directory" % o)
        if o in ("badwrite", "open", "write") and holder not in (None, i) and data() != before:
            ctx.bad("P12", "%s while worker %d has the log changed it" % (o, holder))
        after(o)
        if holder is None and not ctx.found:
            judge(o)
    # what is still open is closed; then the log can be opened at once
    for j in range(NW):
        if ws[j] is not None and not ctx.found:
            if ws[j].has:
                sane(ws[j].ask(op="close"), "close at the end")
                ws[j].has = None
                holder = None
    if not ctx.found:
        after("end")
        judge("end")
        w = next((j for j in range(NW) if ws[j] is not None), None)
        if w is not None:
            result(w, ws[w].ask(op="open", path="abs", tag=newtag(), keys=keys), "open at the end", "abs", True)
    for j in range(NW):
        if ws[j] is not None:
            end(j, "kill")
    for k, v in ev.items():
        ctx.hit(k, v)
    ctx.nontrivial = ev["refused"] > 0 and (ev["races"] > 0 or ev["takeover"] > 0)
