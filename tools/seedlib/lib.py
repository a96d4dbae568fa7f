"""Helpers of the demonstrations (every demonstration has its own copy).  Run with cwd = the repository, after its build."""
import http.client, importlib.machinery, importlib.util, json, os, shutil, signal, socket, subprocess, sys, tempfile, time
REPO = os.getcwd()
EXT = os.path.join(REPO, "target/debug/libexecgraph.so")
REMOTE = os.path.join(REPO, "target/debug/execgraph-remote")
TMP = None


def ext():
    loader = importlib.machinery.ExtensionFileLoader("execgraph", EXT)
    m = importlib.util.module_from_spec(importlib.util.spec_from_file_location("execgraph", EXT, loader=loader))
    loader.exec_module(m)
    return m


def session(fn, quiet=True):
    """run fn(execgraph module) in a process (and process group) of its own -> Popen-like handle"""
    class S: pass
    s = S()
    r, w = os.pipe()
    s.pid = os.fork()
    if s.pid == 0:
        code = 1
        try:
            os.setpgid(0, 0)
            os.close(r)
            out = os.open(os.path.join(TMP, "out.%d" % os.getpid()), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
            os.dup2(out, 1); os.dup2(out, 2)
            res = fn(ext())
            os.write(w, json.dumps(res).encode())
            code = 0
        except BaseException as e:
            try:
                os.write(w, json.dumps({"exception": "%s: %s" % (type(e).__name__, e)}).encode())
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(w)
    s.r = r

    def wait(timeout=60):
        """the value fn returned, or None if it crashed or did not end in time"""
        import select
        end, b = time.time() + timeout, b""
        while True:
            t = end - time.time()
            if t <= 0 or not select.select([s.r], [], [], t)[0]:
                os.kill(s.pid, signal.SIGKILL)
                os.waitpid(s.pid, 0)
                return None
            x = os.read(s.r, 65536)
            if not x:
                break
            b += x
        os.waitpid(s.pid, 0)
        return json.loads(b) if b else None
    s.wait = wait
    s.out = lambda: open(os.path.join(TMP, "out.%d" % s.pid), errors="replace").read()
    return s


def provisioner(name="prov"):
    """a provisioner that only publishes the address and the token, and stays"""
    p = os.path.join(TMP, name)
    with open(p, "w") as f:
        f.write('#!/bin/sh\necho "$1 $EXECGRAPH_AUTHORIZATION_TOKEN" > %s.tmp\nmv %s.tmp %s.addr\nexec sleep 1000\n' % (p, p, p))
    os.chmod(p, 0o755)
    return p


def script(name, text):
    p = os.path.join(TMP, name)
    with open(p, "w") as f:
        f.write(text)
    os.chmod(p, 0o755)
    return p


def wait_for(f, timeout=20, what="something"):
    end = time.time() + timeout
    while time.time() < end:
        v = f()
        if v:
            return v
        time.sleep(0.02)
    fail("timed out waiting for " + what)


class Http:
    """a hand-made runner; one connection per request"""

    def __init__(self, prov, jobid="j_1"):
        line = wait_for(lambda: os.path.exists(prov + ".addr") and open(prov + ".addr").read(), what="the provisioner")
        url, self.token = line.split()
        self.host = url.split("//")[1].replace("0.0.0.0", "127.0.0.1")
        self.jobid = jobid

    def req(self, method, path, obj=None, token=None, jobid=None, timeout=60, raw=None, headers=None):
        c = http.client.HTTPConnection(self.host, timeout=timeout)
        h = {"Authorization": "Bearer " + (self.token if token is None else token), "X-EXECGRAPH-SLURM-JOB-ID": self.jobid if jobid is None else jobid,
             "Content-Type": "application/json"}
        h.update(headers or {})
        c.request(method, path, body=raw if raw is not None else json.dumps(obj) if obj is not None else None, headers=h)
        r = c.getresponse()
        b = r.read()
        c.close()
        return r.status, b

    def start(self, queue=2, msg="", **k):
        """-> transaction id, or None"""
        st, b = self.req("GET", "/start", {"runnertypeid": queue, "disconnect_error_message": msg}, **k)
        return varint(b) if st == 200 else None

    def begun(self, t, pid=1, host="h", **k):
        return self.req("POST", "/begun", {"transaction_id": t, "host": host, "pid": pid}, **k)[0]

    def ping(self, t, **k):
        return self.req("POST", "/ping", {"transaction_id": t}, **k)[0]

    def end(self, t, status=0, again=None, stdout="", stderr="", values=(), **k):
        """-> (http status, next transaction id or None)"""
        st, b = self.req("POST", "/end", {"transaction_id": t, "status": status, "stdout": stdout, "stderr": stderr, "values": list(values),
                                         "start_request": None if again is None else {"runnertypeid": again, "disconnect_error_message": ""}}, **k)
        return st, (varint(b[1:]) if st == 200 and b[:1] == b"\1" else None)

    def status(self, **q):
        st, b = self.req("GET", "/status", q or None)
        return json.loads(b)


def admin(pid, method, path, obj=None):
    """the admin socket of that controller"""
    s = "/run/user/%d/wrk-%d.sock" % (os.getuid(), pid)
    wait_for(lambda: os.path.exists(s), what="the admin socket")

    class C(http.client.HTTPConnection):
        def connect(self):
            self.sock = socket.socket(socket.AF_UNIX)
            self.sock.connect(s)
    c = C("localhost", timeout=20)
    c.request(method, path, body=json.dumps(obj) if obj is not None else None, headers={"Content-Type": "application/json"})
    r = c.getresponse()
    return r.status, json.loads(r.read() or b"null")


def varint(b):
    v = 0
    for i, x in enumerate(b):
        v |= (x & 127) << (7 * i)
        if x < 128:
            return v


def entries(log):
    return [next(iter(json.loads(l).items())) for l in open(log).read().splitlines()]


def of(log, key, kind=None):
    return [(k, e) for k, e in entries(log) if e.get("key") == key and (kind is None or k == kind)]


def fail(msg):
    print("BROKEN:", msg)
    sys.stdout.flush()
    clean()
    os._exit(1)


def check(cond, msg):
    if not cond:
        fail(msg)


def clean():
    for d in os.listdir("/proc"):
        if d.isdigit() and int(d) != os.getpid():
            try:
                if os.getsid(int(d)) == os.getpid():
                    os.kill(int(d), signal.SIGKILL)
            except OSError:
                pass
    shutil.rmtree(TMP, ignore_errors=True)


def main(fn):
    global TMP
    if os.getsid(0) != os.getpid():
        # a session of our own, so that everything can be found again
        sys.exit(subprocess.call([sys.executable] + sys.argv, start_new_session=True))
    TMP = tempfile.mkdtemp(prefix="demo-")
    try:
        os.makedirs("/run/user/%d" % os.getuid(), mode=0o700, exist_ok=True)
    except OSError:
        pass
    try:
        fn()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        fail("%s: %s" % (type(e).__name__, e))
    print("ok")
    sys.stdout.flush()
    clean()
    os._exit(0)
