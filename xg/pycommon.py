"""What the Python engines share: cases in scratch directories, sessions in forked processes, reading logs independently of the code under test."""
import ctypes, importlib.machinery, importlib.util, json, os, select, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = "/repo/target/debug/libexecgraph.so"
REMOTE = "/repo/target/debug/execgraph-remote"
HANG_S = 30
PA = None
BASE = None
_mod = None


class Violation(Exception):
    def __init__(self, tag, msg, signature=None):
        super().__init__(msg)
        self.tag, self.msg, self.signature = tag, msg, signature


class Stats:
    def __init__(self):
        self.cases, self.nontrivial, self.classes, self.samples, self.foreign, self.foreign_msgs = 0, set(), {}, [], {}, []


class Ctx:
    n = 0

    def __init__(self, prop, base, stats):
        Ctx.n += 1
        self.prop, self.stats, self.found, self.history, self.nontrivial = prop, stats, [], [], False
        self.dir = os.path.join(base, "c%d" % Ctx.n)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def hit(self, name, n=1):
        self.stats.classes[name] = self.stats.classes.get(name, 0) + n

    def note(self, s):
        self.history.append(s)

    def bad(self, tag, msg, signature=None):
        self.note("!! %s: %s" % (tag, msg))
        self.found.append(Violation(tag, msg, signature))

    def cleanup(self):
        for _ in range(200):
            kids = children()
            if not kids:
                break
            for k in kids:
                try:
                    os.kill(k, signal.SIGKILL)
                except OSError:
                    pass
            for k in kids:
                try:
                    os.waitpid(k, 0)
                except OSError:
                    pass
        shutil.rmtree(self.dir, ignore_errors=True)


def children():
    with open("/proc/self/task/%d/children" % os.getpid()) as f:
        return [int(x) for x in f.read().split()]


def setup(d):
    """compile the agent, load the extension"""
    global PA, BASE
    BASE = d
    PA = d + "/pa"
    if not os.path.exists(PA):
        subprocess.run(["gcc", "-O1", "-o", PA + ".tmp%d" % os.getpid(), HERE + "/pa.c"], check=True)
        os.rename(PA + ".tmp%d" % os.getpid(), PA)
    os.environ.pop("RUST_LOG", None)
    for k in list(os.environ):
        if k.startswith("SLURM") or k.startswith("EXECGRAPH"):
            del os.environ[k]


def execgraph():
    """the extension under test (only in processes that may load it: it has global state)"""
    global _mod
    if _mod is None:
        loader = importlib.machinery.ExtensionFileLoader("execgraph", LIB)
        spec = importlib.util.spec_from_file_location("execgraph", LIB, loader=loader)
        _mod = importlib.util.module_from_spec(spec)
        loader.exec_module(_mod)
    return _mod


class Session:
    """a forked process that runs fn(emit) with its output redirected; emit(x) hands a JSON value to the parent at once"""

    def __init__(self, fn, out, err=None, stdin=None):
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 3
            try:
                os.close(r)
                os.setpgid(0, 0)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                fo = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
                fe = os.open(err or out + ".err", os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
                fi = os.open(stdin or os.devnull, os.O_RDONLY)
                os.dup2(fi, 0); os.dup2(fo, 1); os.dup2(fe, 2)
                for f in (fo, fe, fi):
                    if f > 2:
                        os.close(f)

                def emit(x):
                    b = (json.dumps(x) + "\n").encode()
                    while b:
                        b = b[os.write(w, b):]
                try:
                    fn(emit)
                    code = 0
                except BaseException as e:
                    emit({"exception": type(e).__name__, "text": str(e)[:500]})
                    code = 4
                    if type(e).__name__ not in ("PanicException", "RuntimeError", "OSError", "IOError", "IndexError", "ValueError"):
                        import traceback
                        traceback.print_exc()
                        sys.stderr.flush()
            finally:
                os._exit(code)
        os.close(w)
        os.set_blocking(r, False)
        self.r, self.buf, self.msgs, self.code, self.hung = r, b"", [], None, False

    def _read(self):
        try:
            while True:
                b = os.read(self.r, 1 << 16)
                if not b:
                    return False
                self.buf += b
        except BlockingIOError:
            return True
        finally:
            *lines, self.buf = self.buf.split(b"\n")
            self.msgs += [json.loads(l) for l in lines]

    def next(self, timeout=HANG_S):
        """the next message, or None if the process ended (or hung: self.hung)"""
        t = time.time() + timeout
        while not self.msgs:
            select.select([self.r], [], [], max(0, t - time.time()))
            if not self._read() and not self.msgs:
                return None
            if time.time() > t and not self.msgs:
                self.hung = True
                return None
        return self.msgs.pop(0)

    def finish(self, timeout=HANG_S):
        """all remaining messages; ends when the process has ended.  code: exit code, or -signal"""
        out = []
        end = time.time() + timeout
        while True:
            m = self.next(max(0.01, end - time.time()))
            if m is None:
                break
            out.append(m)
        if self.hung:
            self.kill()
        _, st = os.waitpid(self.pid, 0)
        self.code = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.close(self.r)
        return out

    def kill(self):
        for f in (os.kill, os.killpg):
            try:
                f(self.pid, signal.SIGKILL)
            except OSError:
                pass


# ------------------------------------------------------------------------------------------------ the log, read independently

def parse_log(data):
    """-> (entries, junk): entries is [(kind, dict)], junk the lines that are no entries (the unfinished last one included)"""
    entries, junk = [], []
    for line in data.split(b"\n"):
        if not line:
            continue
        try:
            v = json.loads(line.decode("utf-8"))
            (k, e), = v.items()
            assert k in ("Header", "Ready", "Started", "Finished", "Backref") and isinstance(e, dict)
            entries.append((k, e))
        except Exception:
            junk.append(line)
    return entries, junk


class LogState:
    """what a log says about every key"""

    def __init__(self, entries):
        self.last, self.header = {}, None
        for k, e in entries:
            if k == "Header":
                self.header = e
            elif k == "Ready":
                self.last[e["key"]] = {"st": "ready", "rc": e["runcount"], "root": e.get("r", 0)}
            elif k == "Started":
                self.last[e["key"]] = dict(self.last[e["key"]], st="started")
            elif k == "Finished":
                self.last[e["key"]] = dict(self.last[e["key"]], st="finished", ok=e["status"] == 0)

    def succeeded(self, key):
        l = self.last.get(key)
        return bool(key) and l is not None and l["st"] == "finished" and l["ok"]

    def failed(self, key):
        l = self.last.get(key)
        return bool(key) and l is not None and l["st"] == "finished" and not l["ok"]

    def runcount(self, key, roots, base):
        """what logfile_runcount() has to say, given this session's roots"""
        l = self.last.get(key)
        if l is None:
            return [0, None]
        if l["st"] == "ready":
            return [l["rc"], None]
        if self.succeeded(key):
            return [l["rc"], os.path.join(base, roots[l["root"]], "%s.%d" % (key, l["rc"]))]
        return [l["rc"] + 1, None]


def current_outdated(entries):
    """the specification of load_logfile("current,outdated")"""
    last = max((i for i, (k, _) in enumerate(entries) if k == "Header"), default=None)
    if last is None:
        last = 0
    cur, reused = [], set()
    for k, e in entries[last:]:
        if k == "Backref":
            reused.add(e["key"])
        else:
            cur.append((k, e))
    start = {}                      # the last execution of the reused tasks begins at its last Ready
    for i, (k, e) in enumerate(entries[:last]):
        if k == "Ready" and e["key"] in reused:
            start[e["key"]] = i
    old, rest = [], []
    for i, (k, e) in enumerate(entries[:last]):
        if k in ("Ready", "Started", "Finished") and e["key"] in start and i >= start[e["key"]]:
            old.append((k, e))
        else:
            rest.append((k, e))
    # the header goes where?  see norm_current()
    keys = {e["key"] for k, e in old + cur if k != "Header"}
    outdated = [(k, e) for k, e in rest if k == "Header" or e["key"] not in keys]
    return old, cur, outdated
