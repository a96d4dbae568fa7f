"""Builds what a check needs from /repo, runs its engines in parallel shards, and turns their reports into the
evidence file, KNOWN-FINDING lines and the verdict."""
import fcntl, hashlib, json, os, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = REPO + "/target/rust-tests"
XG = TARGET + "/debug/xgcheck"
PYEXE = "/opt/veriftools/pyvenv/bin/python"
SHARDS = 8


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------------ build

def content_hash():
    h = hashlib.sha256()
    files = [REPO + "/Cargo.toml", REPO + "/Cargo.lock", REPO + "/build.rs"]
    for base, dirs, names in os.walk(REPO + "/src"):
        dirs.sort()
        files += [os.path.join(base, n) for n in sorted(names)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def run_build(name, cmd, cwd):
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write(p.stdout.decode("utf-8", "replace")[-6000:])
        raise CheckError("%s does not build" % name)


def build(kinds):
    """kinds: subset of {"xg", "ext"}.  cargo goes by file times: when the sources are not the ones the last build here
    was made from, they are touched first, whatever their times are."""
    os.makedirs(REPO + "/target", exist_ok=True)
    with open(REPO + "/target/.xg.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = content_hash()
        for k in sorted(kinds):
            stamp = REPO + "/target/.xg-stamp-" + k
            have = open(stamp).read() if os.path.exists(stamp) else ""
            if have != want:
                for f in (REPO + "/src/lib.rs", REPO + "/src/bin/execgraph-remote.rs"):
                    if os.path.exists(f):
                        os.utime(f)
                if os.path.exists(stamp):
                    os.unlink(stamp)
            if k == "xg":
                run_build("the harness", 'RUSTFLAGS="-C link-arg=-lpython3.12" cargo build --offline --locked --target-dir %s' % TARGET, VERIF + "/harness")
            else:
                run_build("the extension", "cargo build --lib --bins --locked --offline", REPO)
            open(stamp, "w").write(want)
    if content_hash() != want:
        raise CheckError("the sources changed during the build")


# ------------------------------------------------------------------------------------------------ shards

def kill_session(pid):
    """everything in the session of a shard (they call setsid)"""
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                if os.getsid(int(d)) == pid:
                    os.kill(int(d), signal.SIGKILL)
            except OSError:
                pass


def run_shards(cmds, limit, scratch):
    """cmds: [(argv, out file)].  Returns the parsed reports; a shard that dies or runs out of time is an error."""
    procs = []
    for i, (argv, out) in enumerate(cmds):
        err = open(os.path.join(scratch, "err%d" % i), "wb")
        null = open(os.devnull, "r+b")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", RUST_BACKTRACE="0")
        procs.append((subprocess.Popen(argv, stdin=null, stdout=null, stderr=err, start_new_session=True, env=env), out, err.name))
    t0 = time.time()
    reps, bad = [], []
    for p, out, err in procs:
        try:
            p.wait(max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            bad.append("shard %s did not end within %d s" % (p.args[1:4], limit))
        kill_session(p.pid)
        p.wait()
        if os.path.exists(out):
            reps.append(json.load(open(out)))
        elif not bad:
            tail = open(err, "rb").read()[-1500:].decode("utf-8", "replace")
            bad.append("shard %s ended with %s and no report: %s" % (" ".join(p.args[1:4]), p.returncode, tail))
    return reps, bad


def merge(reps):
    m = {"cases": 0, "nontrivial": set(), "classes": {}, "samples": [], "failures": [], "unconfirmed": [], "foreign": {}}
    for r in reps:
        m["cases"] += r["cases"]
        m["nontrivial"] |= set(r["nontrivial"])
        for k, v in r.get("classes", {}).items():
            m["classes"][k] = m["classes"].get(k, 0) + v
        for k, v in r.get("foreign", {}).items():
            m["foreign"][k] = m["foreign"].get(k, 0) + v
        m["samples"] += r.get("samples", [])[:1]
        if r.get("failure"):
            m["failures"].append(r["failure"])
        m["unconfirmed"] += r.get("unconfirmed", [])
    return m


# ------------------------------------------------------------------------------------------------ main

def known_findings(prop):
    f = VERIF + "/known_findings.json"
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == prop]


def main(argv):
    from xg import props
    if not argv:
        print("usage: check.py PROP [--tier quick|thorough] [--replay FILE]")
        return 2
    prop = argv[0]
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    spec = props.PROPS[prop]
    t0 = time.time()
    scratch = "/dev/shm/xg-%s-%d" % (prop, os.getpid())
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        build({k for e in spec["engines"] for k in e.needs})
        os.makedirs("/run/user/%d" % os.getuid(), mode=0o700, exist_ok=True)
        if "--replay" in argv:
            f = argv[argv.index("--replay") + 1]
            rep = json.load(open(f))
            for e in spec["engines"]:
                if e.name == rep["engine"]:
                    return e.replay(prop, f, scratch)
            raise CheckError("no engine %r" % rep["engine"])
        merged, bad, rules = [], [], []
        for e in spec["engines"]:
            m, b = e.run(prop, tier, seed, scratch)
            m["engine"] = e.name
            merged.append(m)
            bad += b
            rules.append("%s: %s" % (e.name, e.rule(prop)))
            if m["failures"]:
                break
        return verdict(prop, tier, seed, spec, merged, bad, rules, t0)
    except CheckError as e:
        log("ERROR:", e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def verdict(prop, tier, seed, spec, merged, bad, rules, t0):
    known = known_findings(prop)
    shown, fails = {}, []
    for m in merged:
        for f in m["failures"]:
            k = next((k for k in known if k["signature"] and k["signature"] == f.get("signature")), None)
            if k:
                shown[k["id"]] = k
            else:
                fails.append((m["engine"], f))
        for k in known:
            if k.get("class") and m["classes"].get(k["class"], 0) > 0:
                shown[k["id"]] = k
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(m["cases"] for m in merged),
            "distinct_nontrivial": sum(len(m["nontrivial"]) for m in merged),
            "rule": " || ".join(rules),
            "samples": [s for m in merged for s in m["samples"][:3]][:6],
            "classes": {m["engine"]: dict(sorted(m["classes"].items())) for m in merged},
            "unconfirmed": [u for m in merged for u in m["unconfirmed"]][:10],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1, default=str)
    for k in shown.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if fails:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        # the smallest counterexample comes first
        fails.sort(key=lambda x: len(json.dumps(x[1])))
        for i, (eng, f) in enumerate(fails[:3]):
            path = VERIF + "/replays/%s-%d.json" % (prop, i)
            f["engine"] = eng
            f["prop"] = prop
            json.dump(f, open(path, "w"), indent=1, default=str)
            print("%s: %s" % (prop, f["msg"]))
            for line in f.get("history", [])[:60]:
                print("    " + str(line)[:300])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        return 1
    if bad:
        for b in bad:
            log("ERROR:", b)
        return 2
    print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    sys.stdout.flush()
    return 0


# ------------------------------------------------------------------------------------------------ engines

class Engine:
    def __init__(self, name, quick, thorough=None, rule="", shards=SHARDS):
        self.name, self.quick, self.thorough, self._rule, self.shards = name, quick, thorough or quick * 20, rule, shards

    def rule(self, prop):
        return self._rule

    def cases(self, tier):
        return max(1, (self.quick if tier == "quick" else self.thorough) // self.shards)

    def argv(self, prop, seed, cases, d, out):
        raise NotImplementedError

    def prepare(self, d):
        pass

    def run(self, prop, tier, seed, scratch):
        cmds = []
        for i in range(self.shards):
            d = os.path.join(scratch, "%s%d" % (self.name, i))
            os.makedirs(d)
            self.prepare(d)
            out = os.path.join(scratch, "%s%d.json" % (self.name, i))
            cmds.append((self.argv(prop, seed * 1000 + i, self.cases(tier), d, out), out))
        reps, bad = run_shards(cmds, 780 if tier == "quick" else 6 * 3600, scratch)
        return merge(reps), bad

    def replay(self, prop, path, scratch):
        d = os.path.join(scratch, "replay")
        os.makedirs(d)
        self.prepare(d)
        p = subprocess.Popen(self.replay_argv(prop, path, d), stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            p.wait(300)
        finally:
            kill_session(p.pid)
        if p.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0 if p.returncode == 0 else 2


class Sim(Engine):
    """the controller under a virtual clock, against the reference model (harness/src/sim*.rs)"""
    needs = ("xg",)

    def prepare(self, d):
        src = VERIF + "/harness/src/agent.c"
        a = os.path.join(os.path.dirname(d), "agent")
        if not os.path.exists(a):
            p = subprocess.run(["gcc", "-O1", "-o", a, src], stderr=subprocess.PIPE)
            if p.returncode:
                raise CheckError("agent.c: " + p.stderr.decode())
        shutil.copy(a, d + "/agent")

    def argv(self, prop, seed, cases, d, out):
        return [XG, "sim", "--prop", prop, "--seed", str(seed), "--cases", str(cases), "--dir", d, "--out", out]

    def replay_argv(self, prop, path, d):
        return [XG, "sim", "--prop", prop, "--replay", path, "--dir", d]


class Rust(Engine):
    """another mode of the harness binary"""
    def __init__(self, mode, *a, needs=("xg",), **k):
        super().__init__(mode, *a, **k)
        self.needs = needs

    def argv(self, prop, seed, cases, d, out):
        return [XG, self.name, "--prop", prop, "--seed", str(seed), "--cases", str(cases), "--dir", d, "--out", out]

    def replay_argv(self, prop, path, d):
        return [XG, self.name, "--prop", prop, "--replay", path, "--dir", d]


class Py(Engine):
    """xg/<module>.py, driven by Hypothesis against the Python extension"""
    needs = ("ext",)

    def argv(self, prop, seed, cases, d, out):
        return [PYEXE, VERIF + "/xg/pymain.py", self.name, "--prop", prop, "--seed", str(seed), "--cases", str(cases), "--dir", d, "--out", out]

    def replay_argv(self, prop, path, d):
        return [PYEXE, VERIF + "/xg/pymain.py", self.name, "--prop", prop, "--replay", path, "--dir", d]
