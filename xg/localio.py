"""What local tasks get and what becomes of what they give: P20.  A case is a set of tasks with arguments, input, a list of things they do, and a way to end."""
import collections, functools, json, os, re, subprocess, sys, threading, time, tty, zlib
from hypothesis import strategies as st
from . import pycommon as pc

SIZES = st.one_of(st.integers(0, 40), st.sampled_from([1000, 1024, 1025, 4096, 8191, 8192, 8193, 65535, 65536, 65537, 200000]), st.sampled_from([0, 70000, 1000000]))
ARG = st.one_of(st.sampled_from([b"", b" ", b"-n", b"a b", b"'", b'"', b"\\", b"$HOME", b"*", b"`x`", b"\n", b"\t", b"\\\n", "ü€\U0001f600".encode(), b";rm", b"#c", b"--", b"=", b"k=v", b"\x7f\x01", b"%s"]),
                st.text(max_size=8).map(lambda s: s.encode("utf-8", "ignore").replace(b"\0", b"")), st.sampled_from([b"x" * 5000, b"\xff\xfe", b"\x80a", b"\xc3"]))
TEXTB = st.one_of(st.sampled_from([b"", b"\n", b"no newline", b"a\nb\n", b"\r\n", b"\x00", b"\xff\xfe\n", b"caf\xc3\xa9", b"\xc3", b"\x1b[31mred", b"[1/1] true\n", b"\xe2\x82", b"{}%s{:?}\n"]), st.binary(max_size=30))
WORD = st.text(alphabet=st.characters(blacklist_characters="\0\n\r\u2028\x0b\x0c\x1c\x1d\x1e\x85\u2029", blacklist_categories=("Cs",)), max_size=8)
KEYW = st.text(alphabet="abcXYZ019_.-é", min_size=1, max_size=6)


@st.composite
def value_line(draw):
    """-> (text, the pairs it stands for, or None if it is no line of values)"""
    kind = draw(st.integers(0, 7))
    if kind == 0:
        return draw(st.sampled_from([["", {}], ["nothing", {}], ["'open", None], ["\"open", None], ["a=1 'b", None], ["  x=1\ty=2  ", {"x": "1", "y": "2"}], ["a=1 a=2", {"a": "2"}], ["=v", {"": "v"}],
                                     ["k=", {"k": ""}], ["k==", {"k": "="}], ["k=a=b", {"k": "a=b"}], ["word k=1 word", {"k": "1"}], ["k='a b'", {"k": "a b"}], ["'k k'=1", {"k k": "1"}], ["k=a\\ b", {"k": "a b"}]]))
    pairs = draw(st.lists(st.tuples(KEYW, WORD, st.integers(0, 2)), min_size=1, max_size=4))
    d, out = {}, []
    for k, v, q in pairs:
        d[k] = v
        if q == 0:
            out.append("%s='%s'" % (k, v.replace("'", "'\\''")))
        elif q == 1:
            out.append('%s="%s"' % (k, re.sub(r'([\\"$`])', r"\\\1", v)))
        else:
            out.append("%s=%s" % (k, re.sub(r"([^A-Za-z0-9_])", r"\\\1", v)))
    return [" ".join(out), d]


@st.composite
def task(draw, i):
    t = {"kind": draw(st.sampled_from(["pa"] * 12 + ["nocmd", "notexec", "nul", "toolong"])), "args": [a.hex() for a in draw(st.lists(ARG, max_size=4))],
         "queue": draw(st.sampled_from([0, 0, 0, 0, 0, 1])), "fd": None, "ops": [], "values": [],
         "display": draw(st.one_of(st.none(), st.none(), st.sampled_from(["shown", "", "ünï {} %s", "a\tb"])))}
    t["fd_kind"] = draw(st.integers(0, 2))
    if t["fd_kind"]:
        t["fd"] = [draw(st.sampled_from([4, 4, 5, 6, 7, 10, 11, 17, 63, 200, 0])), draw(SIZES), draw(st.integers(0, 2))]
    for _ in range(draw(st.integers(0, 8))):
        k = draw(st.sampled_from("ooeeOXOvvvrrricsqqG"))
        if k in "oe":
            t["ops"].append("%s:%d:%d" % (k, draw(SIZES), draw(st.integers(0, 2))))
        elif k in "OX":
            t["ops"].append("%s:%s" % (k, draw(TEXTB).hex()))
        elif k == "v":
            n = draw(st.integers(0, 9))
            if n == 0:
                c = draw(st.sampled_from([1, 100, 20000]))
                t["ops"].append("vN:%d" % c)
            else:
                text, d = draw(value_line())
                t["ops"].append("v:%s" % (text.encode() + b"\n").hex())
                t["values"].append([len(t["ops"]) - 1, d])
        elif k == "r" and t["fd"]:
            t["ops"].append("r:%d" % t["fd"][0] if draw(st.integers(0, 2)) else "r:%d:%d" % (t["fd"][0], draw(st.sampled_from([1, 100, 70000]))))
        elif k == "i":
            t["ops"].append("i")
        elif k == "c":
            t["ops"].append("c:%d" % draw(st.sampled_from([0, 1, 2, 3] + ([t["fd"][0]] if t["fd"] else []))))
        elif k == "s":
            t["ops"].append("s:%d" % draw(st.sampled_from([0, 1, 5, 20])))
        elif k == "q":
            t["ops"].append("q:%d" % draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 17])))
        elif k == "G":
            t["ops"].append("G:300")
    t["end"] = draw(st.one_of(st.none(), st.none(), st.none(), st.sampled_from([0, 1, 2, 255, 127, 137]), st.sampled_from(["k9", "k15", "k11", "k6", "k1", "k2", "k13", "k10"])))
    return t


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 2, 3, 5, 8]))
    c = {"par": draw(st.integers(1, 4)), "console": draw(st.sampled_from(["file"] * 8 + ["pipe", "pipe", "pty"])), "tasks": [draw(task(i)) for i in range(n)],
         "chain": draw(st.booleans()), "stdin": draw(st.sampled_from([0, 5, 70000]))}
    return c


def strategy(prop):
    return cases()


@functools.lru_cache(None)
def pattern(n, s):
    return subprocess.run([pc.PA, os.devnull, "x", "o:%d:%d" % (n, s)], stdout=subprocess.PIPE, check=True).stdout


def content(n, seed):
    return pattern(n, seed + 40)


def lossy(b):
    return b.decode("utf-8", "replace").encode()


def expect(t, stdin):
    """what the task should have found, and said"""
    r = {"out": b"", "err": b"", "values": [], "recs": [], "status": 0}
    fds = {0: b"" if t["queue"] == 0 else stdin[0], 1: None, 2: None, 3: None}
    if t["fd"]:
        fds[t["fd"][0]] = content(t["fd"][1], t["fd"][2])
    at = {}
    lines = {i: d for i, d in t["values"]}
    for i, o in enumerate(t["ops"]):
        k, p = o[0], o.split(":")[1:]
        if k in "oe":
            if (1 if k == "o" else 2) in fds:
                r["out" if k == "o" else "err"] += pattern(int(p[0]), int(p[1]))
        elif k in "OX":
            if (1 if k == "O" else 2) in fds:
                r["out" if k == "O" else "err"] += bytes.fromhex(p[0])
        elif k == "v" and 3 in fds:
            if o[1] == "N":
                r["values"] += [{"k%d" % j: "%d" % (j * 7)} for j in range(int(p[0]))]
            elif lines[i] is not None:
                r["values"].append(lines[i])
        elif k in "ri":
            fd = 0 if k == "i" else int(p[0])
            if fd in fds:
                b = fds[fd][at.get(fd, 0):]
                if len(p) > 1:
                    b = b[:int(p[1])]
                at[fd] = at.get(fd, 0) + len(b)
                if fd == 0 and t["queue"] == 1 and not (t["fd"] and t["fd"][0] == 0):
                    stdin[0] = stdin[0][len(b):]        # console tasks share it
                    fds[0], at[0] = stdin[0], 0
                r["recs"].append(("R", "%d %d %x 0" % (fd, len(b), zlib.crc32(b))))
            else:
                r["recs"].append(("R", "%d 0 0 9" % fd))
        elif k == "c":
            fds.pop(int(p[0]), None)
        elif k == "q":
            r["recs"].append(("Q", "%s %d" % (p[0], int(p[0]) in fds)))
    if isinstance(t["end"], int):
        r["status"] = t["end"]
    elif t["end"]:
        r["status"] = -int(t["end"][1:])
    return r


def cmdline(t, i, d, rec):
    args = [bytes.fromhex(a) for a in t["args"]]
    if t["kind"] == "pa":
        c = [pc.PA.encode(), rec.encode(), b"t%d" % i, b"A"] + [o.encode() for o in t["ops"]]
        if isinstance(t["end"], int):
            c.append(b"x:%d" % t["end"])
        elif t["end"]:
            c.append(b"k:" + t["end"][1:].encode())
        return c + [b"--"] + args
    if t["kind"] == "nocmd":
        return [d.encode() + b"/not there"] + args
    if t["kind"] == "notexec":
        return [rec.encode()] + args
    if t["kind"] == "nul":
        return [pc.PA.encode(), rec.encode(), b"t%d" % i, b"a\0b"] + args
    return [pc.PA.encode(), rec.encode(), b"t%d" % i, b"x" * 200000] + args


def show(t, c):
    if t["display"] is not None:
        return t["display"].encode()
    return lossy(b" ".join(c).replace(b"\\\n", b" ").replace(b"\t", b"\\t"))


def body(case, d, emit):
    """the session"""
    rec = d + "/rec"
    g = pc.execgraph().ExecGraph(case["par"], d + "/wrk.log", failures_allowed=0, storage_roots=["r"])
    last = None
    for i, t in enumerate(case["tasks"]):
        kw = {}
        if t["fd"]:
            kw["fd_input"] = (t["fd"][0], content(t["fd"][1], t["fd"][2]))
        if t["display"] is not None:
            kw["display"] = t["display"]
        last = g.add_task([os.fsdecode(x) for x in cmdline(t, i, d, rec)], "t%d" % i, affinity=1 << t["queue"], **kw)
    emit(g.execute())


def main():
    """the session, in a process of its own that sees a terminal (stdout): localio.py CASE DIR"""
    case, d = json.load(open(sys.argv[1])), sys.argv[2]
    pc.PA = sys.argv[3]
    try:
        body(case, d, lambda x: json.dump(x, open(d + "/result", "w")))
    except BaseException as e:
        json.dump({"exception": type(e).__name__, "text": str(e)[:500]}, open(d + "/result", "w"))
    os._exit(0)


def drain(fd, out):
    try:
        while True:
            b = os.read(fd, 65536)
            if not b:
                break
            out.append(b)
    except OSError:
        pass


def run(prop, case, ctx):
    d, rec = ctx.dir, ctx.dir + "/rec"
    open(rec, "w").close()
    stdin = content(case["stdin"], 1)
    with open(d + "/stdin", "wb") as f:
        f.write(stdin)
    got = []
    if case["console"] == "pty":
        json.dump(case, open(d + "/case", "w"))
        m, s = os.openpty()
        tty.setraw(s)
        code = "import sys; sys.path.insert(0, %r); sys.dont_write_bytecode = True; from xg import localio; localio.main()" % os.path.dirname(pc.HERE)
        p = subprocess.Popen([sys.executable, "-c", code, d + "/case", d, pc.PA], stdin=open(d + "/stdin"), stdout=s, stderr=open(d + "/err", "wb"))
        os.close(s)
        th = threading.Thread(target=drain, args=(m, got), daemon=True)
        th.start()
        try:
            p.wait(pc.HANG_S)
            msgs = [json.load(open(d + "/result"))] if os.path.exists(d + "/result") else []
            hung = False
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            msgs, hung = [], True
        th.join(2)
        os.close(m)
        code = p.returncode
    else:
        out = d + "/out"
        if case["console"] == "pipe":
            os.mkfifo(out)
            fd = os.open(out, os.O_RDWR)

            def reader():
                with open(out, "rb", 0) as f:
                    drain(f.fileno(), got)
            th = threading.Thread(target=reader, daemon=True)
            th.start()
        s = pc.Session(lambda emit: body(case, d, emit), out, err=d + "/err", stdin=d + "/stdin")
        if case["console"] == "pipe":
            time.sleep(0.02)
            os.close(fd)
        msgs = s.finish()
        hung, code = s.hung, s.code
        if case["console"] == "pipe":
            th.join(5)
        else:
            got = [open(out, "rb").read()]
    if hung:
        return ctx.bad("P20", "execute() does not return")
    if len(msgs) != 1 or isinstance(msgs[0], dict):
        return ctx.bad("P20", "the session failed: %r (%s)" % (msgs[:1], code))
    n, order = msgs[0]
    tasks = case["tasks"]
    if sorted(order) != sorted("t%d" % i for i in range(len(tasks))):
        return ctx.bad("P20", "execute() lists %r" % order)
    console, logtxt = b"".join(got), open(d + "/log.txt", "rb").read()
    recs = {}
    for l in open(rec):
        f = l.rstrip("\n").split(" ", 4)
        recs.setdefault(f[1], []).append((f[0], f[4] if len(f) > 4 else ""))
    ents, junk = pc.parse_log(open(d + "/wrk.log", "rb").read())
    nf, pos, rest = 0, 0, [stdin]
    odd, direct, direct_err = 0, b"", b""
    for nth, k in enumerate(order):
        i = int(k[1:])
        t = tasks[i]
        c = cmdline(t, i, d, rec)
        x = expect(t, rest)
        if t["kind"] != "pa":
            x = {"out": b"", "err": None, "values": [], "recs": None, "status": -1}
        nf += x["status"] != 0
        st_ = [e for kk, e in ents if kk == "Started" and e["key"] == k]
        fi = [e for kk, e in ents if kk == "Finished" and e["key"] == k]
        if len(st_) != 1 or len(fi) != 1:
            return ctx.bad("P08", "task %s has %d Started and %d Finished entries" % (k, len(st_), len(fi)))
        if fi[0]["status"] != x["status"]:
            ctx.bad("P20", "task %s (%s): the status in the log is %d instead of %d" % (k, t["kind"], fi[0]["status"], x["status"]))
        if fi[0]["values"] != x["values"]:
            ctx.bad("P20", "task %s: the values in the log are %s instead of %s" % (k, str(fi[0]["values"])[:200], str(x["values"])[:200]))
        if x["recs"] is None:
            if recs.get(k):
                ctx.bad("P20", "task %s was run, but it could not be" % k)
        else:
            r = recs.get(k, [])
            a = [v for kk, v in r if kk == "A"]
            want = "".join(q + ";" for q in t["args"])
            if a != [want]:
                ctx.bad("P20", "task %s was run with the arguments %r instead of %r" % (k, a, want))
            r = [q for q in r if q[0] in ("R", "Q")]
            if r != x["recs"]:
                ctx.bad("P20", "task %s found %r instead of %r" % (k, r, x["recs"]))
        # log.txt
        disp = show(t, c)
        if x["status"] == 0:
            head = b"[%d/%d] %s\n" % (nth + 1, len(tasks), disp)
            ok = logtxt.startswith(head, pos)
            pos += len(head)
        else:
            m_ = re.compile(rb"\x1b\[1;31m[A-Z]+:\x1b\[0m [^ ]*" + re.escape(k.encode()) + rb"[^ ]*: ").match(logtxt, pos)
            ok = bool(m_) and logtxt.startswith(disp + b"\n", m_.end())
            pos = m_.end() + len(disp) + 1 if m_ else pos
        if not ok:
            ctx.bad("P20", "log.txt does not go on with the line of task %s (number %d): %r" % (k, nth + 1, logtxt[pos - 50 if pos > 50 else 0:pos + 100]))
            break
        if t["queue"] == 1 and t["kind"] == "pa":
            direct += x["out"]
            direct_err += x["err"]
        elif x["err"] is None:
            if not logtxt.startswith(b"Unable to start", pos):
                ctx.bad("P20", "log.txt does not say that task %s could not be started: %r" % (k, logtxt[pos:pos + 100]))
            # the text up to the next header: two lines at least
            q = re.compile(rb"\n?(\[%d/%d\] |\x1b\[1;31m)" % (nth + 2, len(tasks))).search(logtxt, pos)
            pos = len(logtxt) if q is None else q.start(1)
        else:
            want = lossy(x["out"]) + lossy(x["err"])
            if not logtxt.startswith(want, pos):
                g = logtxt[pos:pos + len(want)]
                j = next((j for j in range(len(want)) if g[j:j + 1] != want[j:j + 1]), 0)
                ctx.bad("P20", "the output of task %s in log.txt is wrong at byte %d of %d: %r instead of %r" % (k, j, len(want), g[j:j + 40], want[j:j + 40]))
                break
            pos += len(want)
        odd += bool(t["ops"]) + (t["kind"] != "pa") + (t["end"] is not None)
    if n != nf:
        ctx.bad("P20", "execute() counts %d failures, there are %d" % (n, nf))
    if not ctx.found and pos != len(logtxt):
        ctx.bad("P20", "log.txt goes on after the last task: %r" % logtxt[pos:pos + 100])
    # what console tasks write is on the console, too, somewhere in between
    if not ctx.found and (collections.Counter(console) != collections.Counter(logtxt + direct) or not direct and console != logtxt):
        ctx.bad("P20", "the console (%s) shows %d bytes, log.txt has %d and console tasks wrote %d" % (case["console"], len(console), len(logtxt), len(direct)))
    if not ctx.found and not collections.Counter(direct_err) <= collections.Counter(open(d + "/err", "rb").read()):
        ctx.bad("P20", "the errors of console tasks are not on the console")
    for t in tasks:
        ctx.hit("task_" + t["kind"])
        if t["fd"]:
            ctx.hit("with_fd_input")
    ctx.hit("console_" + case["console"])
    ctx.nontrivial = odd >= 3

