"""C15: a seeded run is exactly repeatable."""
import copy
import json
import os
import pickle
import subprocess
import sys

from .. import engine, fleet, script, seams
from ..engine import Violation

RUNS = {"quick": 2000, "thorough": 60000}
RULE = ("One scenario (3-16 commands: flight, burns, attitude, observations, filtering), with the standard generator seeded, is executed several times: in a pristine "
        "process; in a process where other scenarios ran first, draws were consumed and the host clock is offset, runs at another rate and jumps at every "
        "reading; in a worker thread; and (a third of the runs) in a fresh interpreter with another hash seed, working directory, time zone and optimisation level. "
        "All histories must be identical bit for bit; with another seed every observation must differ.")
STUB = ["host clock (time and datetime modules) in the disturbed executions"]
CPU_LIMIT = 40.0
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def setup():
    seams.load()


def gen(rng, tier):
    p = script.gen_script(rng, rng.randint(3, 12))
    n = len(p["craft"])
    if n > 1:
        if rng.random() < 0.5:
            p["ops"].insert(0, dict(op="acquire", i=0, j=1))
        for _ in range(rng.randint(1, 5)):
            at = rng.randint(0, len(p["ops"]))
            p["ops"].insert(at, dict(op=rng.choice(("observe", "observe", "process")), i=0, j=1, cam=rng.choice("wn")))
    for o in p["ops"]:
        o.pop("k", None)
        o.pop("u", None)
    p["seed"] = rng.choice((0, 1, rng.randrange(2 ** 31), rng.randrange(2 ** 31)))
    p["other"] = p["seed"] + rng.randint(1, 1000)
    p["before"] = script.gen_script(rng, rng.randint(1, 8)) if rng.random() < 0.7 else None
    p["clock"] = [rng.choice((0.0, 1e9, -1e8, rng.uniform(-1e9, 1e9))), rng.choice((1.0, 0.0, -1.0, 1000.0)), rng.choice((0.0, 1.0, -3600.0, 86400.0))]
    p["draws"] = rng.randint(0, 5)
    p["thread"] = rng.random() < 0.3
    p["late"] = rng.random() < 0.3
    p["fresh"] = rng.random() < 0.33
    p["env"] = dict(PYTHONHASHSEED=str(rng.choice((0, 1, rng.randrange(1, 4294967295)))), TZ=rng.choice(("UTC", "Asia/Tokyo", "America/New_York", "XXX+5")),
                    LC_ALL=rng.choice(("C", "C.UTF-8", "POSIX")))
    p["opt"] = rng.choice(("", "", "-O", "-OO"))
    return p


def seed(n):
    S = seams.load()
    if S.rand is not None:
        S.rand.use_real(n)
    else:
        import random
        random.seed(n)


def history(plan, n):
    """the scenario, with the generator seeded just before (or just after) it is set up"""
    if plan["late"]:
        s = script.Script(plan, engine.Ctx())
        seed(n)
    else:
        seed(n)
        s = script.Script(plan, engine.Ctx())
    return s.history(), s.last


def disturbed(plan, n):
    import random
    import threading
    if plan["before"]:
        seed(n + 77)
        script.Script(plan["before"], engine.Ctx()).history()
    seed(12345)
    for _ in range(plan["draws"]):
        random.gauss(0, 1)
        random.random()
    with seams.HostClock(*plan["clock"]):
        if not plan["thread"]:
            return history(plan, n)
        out = []
        t = threading.Thread(target=lambda: out.append(history(plan, n)))
        t.start()
        t.join()
        return out[0]


def forked(fn):
    tag, val = engine.forked(fn)
    if tag != "ok":
        raise engine.HarnessError("%s" % (val,))
    return val


def fresh(plan, n):
    env = dict(os.environ)
    env.update(plan["env"])
    env.update(PYTHONPATH=HERE, VERIF_REPO=os.environ.get("VERIF_REPO", "/repo"))
    cmd = [sys.executable, "-B"] + ([plan["opt"]] if plan["opt"] else []) + ["-m", "dst.worlds.c15"]
    p = subprocess.run(cmd, input=json.dumps([plan, n]).encode(), env=env, cwd="/", capture_output=True, timeout=200)
    if p.returncode:
        raise engine.HarnessError("fresh interpreter: %s" % p.stderr.decode()[-1500:])
    return pickle.loads(bytes.fromhex(p.stdout.decode().strip().splitlines()[-1]))


def compare(want, got, plan, how, ctx):
    if got == want:
        ctx.count("identical histories")
        return
    for no, (a, b) in enumerate(zip(want, got)):
        if a != b:
            raise Violation("not repeatable", "%s: command %d (%s) gave another result with the same seed" % (how, no, plan["ops"][no]["op"]), no)
    raise Violation("not repeatable", "%s: the history is different" % how)


def run(plan, ctx):
    plan = copy.deepcopy(plan)
    want, last = forked(lambda: history(plan, plan["seed"]))
    for o in plan["ops"]:
        ctx.schedule(o["op"], o["i"], o.get("j"))
    ctx.schedule(plan["clock"], bool(plan["before"]), plan["thread"], plan["fresh"])
    ctx.event(want)
    done = [h for h in want if h[0] not in ("skipped", "raised")]
    ctx.count("effective", len(done))
    compare(want, forked(lambda: disturbed(plan, plan["seed"]))[0], plan, "after other activity, on a skewed host clock", ctx)
    if plan["before"]:
        ctx.fault("other scenarios ran first")
    if plan["draws"]:
        ctx.fault("generator used before seeding", plan["draws"])
    if plan["clock"] != [0.0, 1.0, 0.0]:
        ctx.fault("host clock skewed or jumping")
    if plan["thread"]:
        ctx.fault("run in another thread")
    if plan["fresh"]:
        compare(want, fresh(plan, plan["seed"])[0], plan, "in a fresh interpreter", ctx)
        ctx.fault("run in a fresh interpreter")
    other, _ = forked(lambda: history(plan, plan["other"]))
    for no, o in enumerate(plan["ops"]):
        if o["op"] == "observe" and want[no][0] == "observe":
            ctx.count("observations compared between seeds")
            if other[no][1] == want[no][1]:
                raise Violation("seed ignored", "command %d: an observation carries the same noise under seeds %d and %d" % (no, plan["seed"], plan["other"]), no)
            ctx.count("nontrivial")
    if last:
        first = [c["t"] for c in plan["craft"]]
        ctx.sim(3 * sum(abs(a - b) for a, b in zip(first, last)) * 86400)
    ctx.state(tuple(o["op"] for o in plan["ops"][:3]), plan["thread"], plan["fresh"], plan["late"])


def shrink(plan):
    for f, v in (("before", None), ("fresh", False), ("thread", False), ("late", False), ("draws", 0), ("clock", [0.0, 1.0, 0.0]), ("opt", "")):
        if plan[f] != v:
            p = copy.deepcopy(plan)
            p[f] = v
            yield p
    yield from fleet.shrink(plan)


def main():
    plan, n = json.load(sys.stdin)
    seams.load(rand=False)
    print(pickle.dumps(history(plan, n)).hex())


if __name__ == "__main__":
    main()
