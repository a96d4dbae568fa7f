"""Generated logs through write_logfile() and load_logfile(), and read by a new session: P10 P11 P07.
A case is a list of appends (each a list of entries of well-formed histories), and lines that are no entries, to be put into the file."""
import json, os
from hypothesis import strategies as st
from . import pycommon as pc
from .hist import judge_reading, check_rc

KEYS = ["a", "b", "", "ü", "k\n2", 'q"\\', "x.1", "\u2028", "K" * 300, "\x00z"]
TEXT = st.one_of(st.sampled_from(["", "x", "true", "naïve", "a\nb", "\\", '"', "{}", "\x00", "\U0001f600", "\u2028\u2029", "\x7f\x80", "]}", "\r\n", "y" * 5000]),
                 st.text(max_size=12))
U32 = st.one_of(st.integers(0, 5), st.sampled_from([2**31 - 1, 2**31, 2**32 - 1]), st.integers(0, 2**32 - 1))
I32 = st.one_of(st.just(0), st.sampled_from([1, -1, -10, -15, 255, 2**31 - 1, -2**31]), st.integers(-2**31, 2**31 - 1))
TIME = st.fixed_dictionaries({"secs_since_epoch": st.one_of(st.integers(0, 2**34), st.sampled_from([0, 2**40])),
                              "nanos_since_epoch": st.one_of(st.integers(0, 999999999), st.sampled_from([0, 999999999]))})
VALUES = st.one_of(st.just([]), st.lists(st.dictionaries(TEXT, TEXT, max_size=3), max_size=3))
JUNK = st.one_of(st.sampled_from([b"", b" ", b"garbage", b"{}", b"null", b"[]", b'{"Ready":{}}', b'{"Ready":{"key":"a"}}', b'{"Nope":{"key":"a"}}', b'"Backref"', b"\xff\xfe",
                                  b'{"Backref":{"key":"a"}} x', b'{"Backref":{"key":1}}', b'{"Backref":{"key":"a"}', b'{"Finished":{"time":{"secs_since_epoch":1,"nanos_since_epoch":0},"key":"a","status":"0"}}',
                                  b"\x00", b'{"Header":{"version":4}}', b'{"Backref":{"key":"\xff"}}', b"1e999", b'{"Backref":{"key":"\\ud800"}}']),
                 st.binary(max_size=20).map(lambda b: b.replace(b"\n", b" "))).map(lambda b: b.hex())


@st.composite
def cases(draw, prop):
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=5, unique=True))
    state, seen = {k: None for k in keys}, set()
    ents = []
    nroots = draw(st.integers(1, 3))
    for si in range(draw(st.integers(2 if prop == "P11" else 1, 4))):
        if si or draw(st.integers(0, 9)):
            h = {"version": 4, "time": draw(TIME), "user": draw(TEXT), "hostname": draw(TEXT), "workflow_key": "wf", "cmdline": draw(st.lists(TEXT, max_size=2)),
                 "workdir": draw(TEXT), "pid": draw(U32), "storage_roots": draw(st.lists(st.sampled_from(["", "r", "/abs", "é/x"]), min_size=nroots, max_size=nroots))}
            if draw(st.integers(0, 9)) == 0 and prop != "P07":
                del h["storage_roots"]
            ents.append({"Header": h})
        used, backed = set(), set()
        earlier = {k for k in seen}
        for _ in range(draw(st.integers(0, 10))):
            mid = [k for k in keys if state[k] in ("ready", "started") and k in used]
            k = draw(st.sampled_from(mid if mid and draw(st.integers(0, 2)) else keys))
            if state[k] == "done" and k in earlier and k not in used and k not in backed and draw(st.integers(0, 1)):
                ents.append({"Backref": {"key": k}})
                backed.add(k)
                continue
            if k in backed:
                continue
            used.add(k)
            if state[k] in (None, "done") or draw(st.integers(0, 5)) == 0:
                e = {"time": draw(TIME), "key": k, "runcount": draw(U32) % (2**32 - 1), "command": draw(TEXT), "r": draw(st.integers(0, nroots - 1))}
                if draw(st.integers(0, 7)) == 0:
                    del e["r"]
                ents.append({"Ready": e})
                state[k] = "ready"
                seen.add(k)
            elif state[k] == "ready":
                e = {"time": draw(TIME), "key": k, "host": draw(TEXT), "pid": draw(U32), "slurm_jobid": draw(TEXT)}
                if draw(st.integers(0, 7)) == 0:
                    del e["slurm_jobid"]
                ents.append({"Started": e})
                state[k] = "started"
            else:
                e = {"time": draw(TIME), "key": k, "status": draw(I32), "values": draw(VALUES)}
                if draw(st.integers(0, 7)) == 0:
                    del e["values"]
                ents.append({"Finished": e})
                state[k] = "done"
        # a session that was interrupted leaves tasks as they are
    n = len(ents)
    cuts = sorted(draw(st.lists(st.integers(0, n), max_size=4)))
    junk = []
    if prop == "P10" and draw(st.integers(0, 1)):
        junk = [[draw(st.integers(0, n)), draw(JUNK)] for _ in range(draw(st.integers(1, 4)))]
    return {"keys": keys, "entries": ents, "cuts": cuts, "junk": junk, "torn": draw(st.one_of(st.none(), st.integers(1, 60))) if prop == "P10" else None}


def strategy(prop):
    return cases(prop)


def full(e):
    """with the defaults of fields that older versions did not write"""
    (k, v), = e.items()
    d = {"Header": {"storage_roots": []}, "Ready": {"r": 0}, "Started": {"slurm_jobid": ""}, "Finished": {"values": []}, "Backref": {}}[k]
    return (k, dict(d, **v))


def load(ctx, log, where):
    eg, got = pc.execgraph(), {}
    try:
        for mode in ("all", "current,outdated", "current", "outdated"):
            got[mode] = eg.load_logfile(log, mode)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        ctx.bad("P10", "load_logfile %s failed: %s: %s" % (where, type(e).__name__, e))
        return None
    return got


def run(prop, case, ctx):
    log = ctx.dir + "/wrk.log"
    eg = pc.execgraph()
    want = []
    ents = case["entries"]
    bounds = [0] + case["cuts"] + [len(ents)]
    before = b""
    for a, b in zip(bounds, bounds[1:]):
        part = ents[a:b]
        try:
            eg.write_logfile(log, part)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            return ctx.bad("P10", "write_logfile of entries %d to %d failed: %s: %s" % (a, b, type(e).__name__, e))
        data = open(log, "rb").read()
        if not data.startswith(before):
            ctx.bad("P10", "write_logfile changed what was in the log before entry %d" % a)
        before = data
        want += [full(e) for e in part]
    if os.path.exists(ctx.dir + "/.wrk.lock"):
        ctx.bad("P12", "the lock file is left behind")
    got = load(ctx, log, "after %d appends" % (len(bounds) - 1))
    if got is None:
        return
    raw, junk = pc.parse_log(before)
    if junk or len(raw) != len(want) or any(r[0] != w[0] or r[1] != w[1] for r, w in zip(raw, want)):
        ctx.bad("P10", "the file does not contain the entries that were written: %r" % (junk or [(r, w) for r, w in zip(raw, want) if r[1] != w[1]][:1]))
    judge_reading(ctx, want, got, "after writing %d entries" % len(want))
    if ctx.found:
        return
    lines = before.split(b"\n")[:-1]
    odd = any(not l.isascii() or b"\\" in l for l in lines)
    # a new session reads the run counts
    if prop == "P07":
        keys = case["keys"] + ["another"]
        roots = ["r%d" % i for i in range(5)]

        def child(emit):
            g = pc.execgraph().ExecGraph(1, log, storage_roots=roots, newkeyfn=lambda: "wf")
            emit({k: [x[0], None if x[1] is None else str(x[1])] for k in keys for x in [g.logfile_runcount(k)]})
            del g
        s = pc.Session(child, ctx.dir + "/out")
        m = s.finish()
        if len(m) != 1 or "exception" in m[0]:
            return ctx.bad("P07", "a new session on this log: %r (%s)" % (m[:1], s.code))
        check_rc(ctx, m[0], pc.LogState(want), keys, roots, ctx.dir, "new session")
        L = pc.LogState(want)
        st_ = {v["st"] + str(v.get("ok", "")) for v in L.last.values()}
        ctx.nontrivial = len(st_) >= 2
        for x in st_:
            ctx.hit("state_" + x)
        return
    # lines that are no entries
    if case["junk"]:
        out, real = [], []
        for i in range(len(lines) + 1):
            for p, j in case["junk"]:
                if p == i:
                    out.append(bytes.fromhex(j))
            if i < len(lines):
                out.append(lines[i])
                real.append(want[i])
        data = b"\n".join(out) + b"\n"
        with open(log, "wb") as f:
            f.write(data)
        got = load(ctx, log, "with unreadable lines")
        if got is None:
            return
        ctx.hit("with_unreadable_lines")
        judge_reading(ctx, real, got, "with %d lines that are no entries" % len(case["junk"]))
        # appending is refused, or loses nothing
        try:
            eg.write_logfile(log, [])
        except OSError:
            ctx.hit("append_refused")
        after = open(log, "rb").read()
        if not after.startswith(data):
            kept = after.split(b"\n")
            if [l for l in kept if l in lines] != lines:
                ctx.bad("P10", "write_logfile on a log with unreadable lines lost entries")
    elif case["torn"] and lines:
        n = min(case["torn"], len(lines[-1]))
        data = before[:len(before) - 1 - n]
        ent = [full(e) for e in case["entries"][:len(lines) - 1]]
        with open(log, "wb") as f:
            f.write(data)
        got = load(ctx, log, "with a torn last line")
        if got is None:
            return
        ctx.hit("torn")
        judge_reading(ctx, ent, got, "with a torn last line")
    last = max([i for i, e in enumerate(ents) if "Header" in e], default=0)
    back = any("Backref" in e for e in ents[last:])
    if prop == "P10":
        ctx.nontrivial = len(ents) >= 5 and len(set(bounds)) >= 3 and odd or bool(case["junk"]) and len(ents) >= 3
    else:
        ctx.nontrivial = back and last > 0 and bool(got["outdated"])
