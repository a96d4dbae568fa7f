"""Runs one Python engine: pymain.py MODULE --prop P --seed N --cases N --dir D --out F | --replay F
A module has strategy(prop) -> Hypothesis strategy of JSON-able cases, run(prop, case, ctx)."""
import ctypes, hashlib, importlib, json, os, resource, sys, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from xg import pycommon as pc
import hypothesis
from hypothesis import HealthCheck, Phase, Verbosity, given, settings

SHRINK_S = 60
CONFIRM = 5


def attempt(mod, prop, case, d, stats):
    """-> None, or the violation of this property"""
    ctx = pc.Ctx(prop, d, stats)
    try:
        mod.run(prop, case, ctx)
    except pc.Violation as v:
        ctx.found.append(v)
    finally:
        ctx.cleanup()
    for v in ctx.found:
        if v.tag != prop and v.tag != "*":
            stats.foreign[v.tag] = stats.foreign.get(v.tag, 0) + 1
            if len(stats.foreign_msgs) < 5:
                stats.foreign_msgs.append("%s: %s" % (v.tag, v.msg))
    mine = [v for v in ctx.found if v.tag in (prop, "*")]
    if mine:
        return {"msg": mine[0].msg, "signature": mine[0].signature, "case": case, "history": ctx.history[-200:]}
    if ctx.nontrivial:
        stats.nontrivial.add(hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16])
        if len(stats.samples) < 2:
            stats.samples.append({"case": case, "history": ctx.history[:60]})
    return None


def main():
    a = sys.argv
    name = a[1]
    opt = {a[i][2:]: a[i + 1] for i in range(2, len(a) - 1) if a[i].startswith("--")}
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    prop = opt["prop"]
    d = os.path.abspath(opt["dir"])
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)      # orphans of the cases become our children, so that cleanup() finds them
    for fd in os.listdir("/proc/self/fd"):      # nothing that we were given gets through to tasks
        if int(fd) > 2:
            try:
                os.set_inheritable(int(fd), False)
            except OSError:
                pass
    pc.setup(d)
    noise = os.open(d + "/noise", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    for fd, stream in ((1, "stdout"), (2, "stderr")):      # the extension is chatty about unreadable lines
        keep = os.dup(fd)
        os.set_inheritable(keep, False)
        os.dup2(noise, fd)
        setattr(sys, stream, os.fdopen(keep, "w", buffering=1))
    pc.execgraph()          # sessions are forked from here
    mod = importlib.import_module("xg." + name)
    if "replay" in opt:
        case = json.load(open(opt["replay"]))["case"]
        for _ in range(CONFIRM):
            f = attempt(mod, prop, case, d, pc.Stats())
            if f:
                print("%s: %s" % (prop, f["msg"]))
                for l in f["history"]:
                    print("    " + l[:300])
                return 1
        return 0

    stats, tries = pc.Stats(), {"unconfirmed": []}
    failure = None
    todo, round_ = int(opt["cases"]), 0
    while todo > 0 and failure is None and len(tries["unconfirmed"]) < 10:
        last, t_fail, ran = {}, [None], [0]

        def test(case):
            if t_fail[0] is not None and time.time() - t_fail[0] > SHRINK_S:
                return                              # stop shrinking: everything passes from now on
            ran[0] += 1
            f = attempt(mod, prop, case, d, stats)
            if f:
                if t_fail[0] is None:
                    t_fail[0] = time.time()
                last["f"] = f
                raise AssertionError(f["msg"])

        t = given(mod.strategy(prop))(test)
        t = settings(max_examples=todo, database=None, deadline=None, suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                     phases=(Phase.generate, Phase.shrink), verbosity=Verbosity.quiet)(t)
        t = hypothesis.seed(int(opt["seed"]) * 100 + round_)(t)
        try:
            t()
        except BaseException as e:
            if "f" not in last:
                raise
        stats.cases += ran[0]
        todo -= ran[0] if "f" not in last else max(1, min(ran[0], todo))
        round_ += 1
        if "f" in last:
            n = sum(1 for _ in range(CONFIRM) if attempt(mod, prop, last["f"]["case"], d, pc.Stats()))
            if n >= 2:
                failure = dict(last["f"], reproduced="%d of %d" % (n, CONFIRM))
            else:
                tries["unconfirmed"].append(dict(last["f"], reproduced="%d of %d" % (n, CONFIRM)))
        else:
            break
    rep = {"cases": stats.cases, "nontrivial": sorted(stats.nontrivial), "classes": stats.classes, "samples": stats.samples, "foreign": stats.foreign,
           "foreign_msgs": stats.foreign_msgs, "failure": failure, "unconfirmed": tries["unconfirmed"]}
    with open(opt["out"] + ".tmp", "w") as f:
        json.dump(rep, f, default=str)
    os.rename(opt["out"] + ".tmp", opt["out"])
    return 0


if __name__ == "__main__":
    sys.exit(main())
