"""Building the graph: P23.  A case is a list of additions (valid, repeated, refused), queries and execute() calls; a model keeps what was accepted."""
import os
from hypothesis import strategies as st
from . import pycommon as pc

KEYS = ["", "a", "b", "c", "d", "e", "é", "k k", "a\n", "K" * 200]
ARG = st.one_of(st.sampled_from(["", "x", "a b", "é", "\udcff", "\n", "-"]), st.text(alphabet=st.characters(blacklist_categories=("Cs",), blacklist_characters="\0"), max_size=5))
BAD = ["empty", "dep", "self", "fd3", "later", "type_dep", "type_cmd", "negative"]


@st.composite
def cases(draw):
    ops = []
    for _ in range(draw(st.integers(2, 30))):
        k = draw(st.integers(0, 12))
        if k <= 8:
            ops.append({"op": "add", "key": draw(st.one_of(st.sampled_from(KEYS), st.integers(0, 60).map(lambda i: "n%d" % i), st.integers(0, 1000).map(lambda i: "n%d" % i))),
                        "ok": draw(st.sampled_from([True, True, True, True, False])), "args": draw(st.lists(ARG, max_size=3)),
                        "deps": draw(st.lists(st.integers(0, 40), max_size=4)), "display": draw(st.one_of(st.none(), st.sampled_from(["", "shown", "ü\n"]))),
                        "fd": draw(st.one_of(st.none(), st.none(), st.tuples(st.sampled_from([0, 4, 5, 100]), st.sampled_from(["", "x", "y" * 1000])))),
                        "affinity": draw(st.sampled_from([1, 1, 3, 2, 5])), "root": draw(st.integers(0, 1)), "kw": draw(st.booleans()),
                        "bad": draw(st.one_of(st.none(), st.none(), st.sampled_from(BAD)))})
        elif k == 9:
            ops.append({"op": "get", "i": draw(st.integers(0, 40))})
        elif k == 10:
            ops.append({"op": "bulk", "n": draw(st.sampled_from([1, 10, 60]))})
        else:
            ops.append({"op": "execute", "target": draw(st.one_of(st.none(), st.none(), st.integers(0, 40)))})
    return {"ops": ops, "par": draw(st.integers(1, 3)), "log": draw(st.booleans())}


def strategy(prop):
    return cases()


def resolve(case):
    """what to do, and the model: list of (call, expectation)"""
    tasks, index, done, out = [], {}, {}, []
    failed_run = [0]

    def state():
        return {"n": len(tasks), "keys": [t["key"] for t in tasks]}

    def add(o, call):
        existing = index.get(o["key"])
        refused = bool(o["bad"])
        if existing is not None:
            exp = {"index": existing, "or_refused": refused}
        elif refused:
            exp = {"refused": True}
        else:
            exp = {"index": len(tasks)}
            index[o["key"]] = len(tasks)
            tasks.append({"key": o["key"], "cmd": call["cmd"], "display": o["display"], "deps": call["deps"], "ok": o["ok"]})
        out.append((call, dict(exp, **state())))

    for o in case["ops"]:
        if o["op"] == "bulk":
            for i in range(o["n"]):
                q = {"op": "add", "key": "bulk%d" % len(tasks), "ok": True, "args": [], "deps": [], "display": None, "bad": None}
                add(q, {"op": "add", "cmd": ["true"], "key": q["key"], "deps": [len(tasks) - 1] if i else [], "display": None, "kw": False, "affinity": 1, "root": 0, "fd": None})
        elif o["op"] == "add":
            n = len(tasks)
            c = {"op": "add", "cmd": ["true" if o["ok"] else "false"] + o["args"], "key": o["key"], "deps": [d % n for d in o["deps"]] if n else [], "display": o["display"],
                 "kw": o["kw"], "affinity": o["affinity"], "root": o["root"], "fd": o["fd"]}
            b = o["bad"]
            if b == "empty":
                c["cmd"] = []
            elif b == "dep":
                c["deps"] = c["deps"] + [n + 1 + (o["deps"][0] if o["deps"] else 0)]
            elif b == "self":
                c["deps"] = [n] + c["deps"]
            elif b == "later":
                c["deps"] = c["deps"] + [2**32 - 1]
            elif b == "fd3":
                c["fd"] = [3, "x"]
            elif b == "type_dep":
                c["deps"] = ["0"]
            elif b == "type_cmd":
                c["cmd"] = ["true", 5]
            elif b == "negative":
                c["deps"] = [-1]
            add(o, c)
        elif o["op"] == "get":
            i = o["i"] % (len(tasks) + 3)
            t = tasks[i] if i < len(tasks) else None
            out.append(({"op": "get", "i": i}, dict(state(), get=t and [t["cmd"], t["key"], t["display"]])))
        elif tasks:
            target = None if o["target"] is None else o["target"] % len(tasks)
            want = set(range(len(tasks))) if target is None else set()
            todo = [] if target is None else [target]
            while todo:
                i = todo.pop()
                if i not in want:
                    want.add(i)
                    todo += tasks[i]["deps"]
            run = []
            for i in sorted(want):
                if i not in done and all(done.get(d) is True for d in tasks[i]["deps"]):
                    run.append(i)
                    done[i] = tasks[i]["ok"]
            out.append(({"op": "execute", "target": target}, dict(state(), run=[tasks[i]["key"] for i in run], failed=sum(1 for i in run if not tasks[i]["ok"]))))
    return out, tasks, index


def body(case, calls, d, emit):
    g = pc.execgraph().ExecGraph(case["par"], d + "/wrk.log", failures_allowed=0, storage_roots=["r", "s"])
    for c, _ in calls:
        r = {}
        try:
            if c["op"] == "add":
                fd = c["fd"] and (c["fd"][0], c["fd"][1].encode())
                if c["kw"] or c["display"] is not None or fd or c["affinity"] != 1 or c["root"]:
                    r["index"] = g.add_task(c["cmd"], c["key"], dependencies=c["deps"], display=c["display"], affinity=c["affinity"], fd_input=fd, storage_root=c["root"])
                else:
                    r["index"] = g.add_task(c["cmd"], c["key"], c["deps"])
            elif c["op"] == "get":
                r["get"] = g.get_task(c["i"])
            else:
                r["failed"], r["run"] = g.execute(c["target"]) if c["target"] is not None else g.execute()
        except Exception as e:
            r["exception"] = type(e).__name__
        r["n"], r["keys"] = g.ntasks(), g.task_keys()
        emit(r)
    emit({"all": [g.get_task(i) for i in range(g.ntasks())]})


def run(prop, case, ctx):
    calls, tasks, index = resolve(case)
    if not calls:
        return
    s = pc.Session(lambda emit: body(case, calls, ctx.dir, emit), ctx.dir + "/out")
    msgs = s.finish()
    if s.hung or len(msgs) != len(calls) + 1:
        return ctx.bad("P23", "the session %s after %d of %d calls: %r" % ("hangs" if s.hung else "ended (%s)" % s.code, len(msgs), len(calls), calls[min(len(msgs), len(calls) - 1)][0]))
    ev = {"refused": 0, "existing": 0, "executed": 0}
    order_ok = {}
    nth, before = 0, 0
    for (c, e), r in zip(calls, msgs):
        nth += 1
        what = "call %d (%s)" % (nth, str(c)[:150])
        if c["op"] == "add":
            if e.get("refused"):
                ev["refused"] += 1
                if "exception" not in r:
                    ctx.bad("P23", "%s is not refused: %r" % (what, r.get("index")))
            elif e.get("or_refused") and "exception" in r:
                ev["refused"] += 1
            elif r.get("index") != e["index"]:
                ctx.bad("P23", "%s returns %r instead of %d" % (what, r.get("index", r.get("exception")), e["index"]))
            ev["existing"] += e["n"] == before and not e.get("refused")
        elif c["op"] == "get":
            if e["get"] is None:
                if r.get("exception") != "IndexError":
                    ctx.bad("P23", "%s of a task that does not exist: %r" % (what, r.get("get", r.get("exception"))))
            elif r.get("get") != e["get"]:
                ctx.bad("P23", "%s returns %r instead of %r" % (what, r.get("get", r.get("exception")), e["get"]))
        else:
            ev["executed"] += bool(e["run"])
            if "exception" in r:
                ctx.bad("P23", "%s fails: %s" % (what, r["exception"]))
            elif sorted(r["run"]) != sorted(e["run"]) or r["failed"] != e["failed"]:
                ctx.bad("P23", "%s ran %r (%d failed) instead of %r (%d)" % (what, r["run"], r["failed"], e["run"], e["failed"]))
            else:
                for i, k in enumerate(r["run"]):
                    for dep in tasks[index[k]]["deps"]:
                        if tasks[dep]["key"] in r["run"][i:]:
                            ctx.bad("P23", "%s ran %r before its dependency %r" % (what, k, tasks[dep]["key"]))
        if r["n"] != e["n"] or r["keys"] != e["keys"]:
            ctx.bad("P23", "after %s there are %d tasks %r instead of %d: %r" % (what, r["n"], r["keys"][-3:], e["n"], e["keys"][-3:]))
        before = e["n"]
        if ctx.found:
            return
    want = [[t["cmd"], t["key"], t["display"]] for t in tasks]
    if msgs[-1].get("all") != want:
        ctx.bad("P23", "at the end get_task() differs from what was added: %r" % [x for x in zip(msgs[-1].get("all", []), want) if x[0] != x[1]][:2])
    for k, v in ev.items():
        ctx.hit(k, v)
    ctx.nontrivial = ev["refused"] > 0 and ev["existing"] > 0 and ev["executed"] > 0
