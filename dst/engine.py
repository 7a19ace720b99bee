"""Seeded search over simulated runs: one seed = one plan = one exactly repeatable execution.

A world module provides
    gen(rng, tier) -> plan          JSON-able; everything the run will do and every fault it will meet
    run(plan, ctx)                  executes it against the real code, raising Violation
and may provide
    RUNS = {"quick": n, "thorough": n}
    shrink(plan) -> iterator of simpler plans (besides dropping elements of plan["ops"])
Each run executes in its own forked process, so no run can see what another left behind.
"""
import hashlib
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
_Random = random.Random


class Violation(Exception):
    def __init__(self, klass, msg, step=None):
        super().__init__(msg)
        self.klass, self.msg, self.step = klass, msg, step


class HarnessError(Exception):
    pass


class Ctx:
    """what a run records"""

    def __init__(self):
        self.faults = {}
        self.probes = {}
        self.counts = {}
        self.sim_s = 0.0
        self.log = hashlib.sha256()
        self.sig = hashlib.sha256()
        self.states = set()
        self.findings = []
        self.keep_log = False
        self.lines = []

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def event(self, *what):
        """one entry of the run's event log"""
        line = repr(what)
        self.log.update(line.encode())
        if self.keep_log:
            self.lines.append(line)

    def schedule(self, *what):
        """one scheduling decision (what identifies the interleaving)"""
        self.sig.update(repr(what).encode())

    def state(self, *what):
        """one abstract state reached"""
        self.states.add(hashlib.blake2b(repr(what).encode(), digest_size=6).digest())

    def sim(self, seconds):
        self.sim_s += abs(seconds)

    def result(self):
        return dict(faults=self.faults, probes=self.probes, counts=self.counts, sim_s=self.sim_s,
                    log=self.log.hexdigest(), sig=self.sig.hexdigest()[:16], states=self.states,
                    findings=self.findings, lines=self.lines)


def rng_for(seed, prop, index):
    h = hashlib.sha256(("%s:%s:%d" % (seed, prop, index)).encode()).digest()
    return _Random(int.from_bytes(h[:16], "big"))


def in_repo_tb(tb):
    """did the exception come out of the code under test?"""
    from . import seams
    hit = False
    while tb is not None:
        hit = seams.in_repo(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    return hit


# ---------------------------------------------------------------- one run
CPU_LIMIT = 20.0


def execute(world, plan, keep_log=False):
    """run a plan in this process; returns (result dict, violation or None)"""
    ctx = Ctx()
    ctx.keep_log = keep_log
    viol = None

    def on_timer(sig, frame):
        raise TimeoutError("cpu limit")

    signal.signal(signal.SIGVTALRM, on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(world, "CPU_LIMIT", CPU_LIMIT))
    try:
        world.run(plan, ctx)
    except Violation as v:
        viol = dict(klass=v.klass, msg=v.msg, step=v.step)
    except TimeoutError:
        viol = dict(klass="hang", msg="a command did not complete within the cpu limit", step=None)
    except RecursionError as e:
        viol = dict(klass="exception:RecursionError", msg=str(e), step=None)
    except Exception as e:  # noqa: BLE001
        if in_repo_tb(e.__traceback__):
            viol = dict(klass="exception:%s" % type(e).__name__,
                        msg="%s\n%s" % (e, "".join(traceback.format_tb(e.__traceback__)[-3:])), step=None)
        else:
            raise HarnessError("".join(traceback.format_exception(type(e), e, e.__traceback__)))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return ctx.result(), viol


def forked(fn):
    """run fn() in a forked child and return its (pickled) value; ('died', status) if the child died"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa: BLE001
                out = ("error", "".join(traceback.format_exception(type(e), e, e.__traceback__)))
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:  # noqa: BLE001
            code = 9
        os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + 300
    while True:
        rd, _, _ = select.select([r], [], [], max(0.0, deadline - time.monotonic()))
        if not rd:
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if not data:
        return ("died", status)
    try:
        return pickle.loads(data)
    except Exception:  # noqa: BLE001
        return ("died", status)


def run_forked(world, plan, keep_log=False):
    tag, val = forked(lambda: execute(world, plan, keep_log))
    if tag == "ok":
        return val
    if tag == "died":
        # the code under test took the process down (stack overflow, memory): a command that never returned
        return Ctx().result(), dict(klass="died", msg="the process running the scenario died (status %s)" % val, step=None)
    raise HarnessError(val)


# ---------------------------------------------------------------- minimisation
def minimise(world, plan, viol, budget):
    """drop operations, then simplify what is left, while the same class of violation persists"""
    end = time.monotonic() + budget
    tries = [0]

    def fails(p):
        if time.monotonic() > end:
            return None
        tries[0] += 1
        try:
            _, v = run_forked(world, p)
        except HarnessError:
            return None
        return v if v and v["klass"] == viol["klass"] else None

    best, bv = plan, viol
    for key in getattr(world, "LISTS", ("ops",)):
        ops = list(best.get(key, ()))
        n = 2
        while len(ops) >= 1 and time.monotonic() < end:
            size = max(1, len(ops) // n)
            cut = False
            for i in range(0, len(ops), size):
                cand = ops[:i] + ops[i + size:]
                p = dict(best)
                p[key] = cand
                v = fails(p)
                if v:
                    ops, best, bv, cut = cand, p, v, True
                    n = max(2, n - 1)
                    break
            if not cut:
                if size == 1:
                    break
                n = min(len(ops), n * 2)
    if hasattr(world, "shrink"):
        progress = True
        while progress and time.monotonic() < end:
            progress = False
            for p in world.shrink(best):
                v = fails(p)
                if v:
                    best, bv, progress = p, v, True
                    break
                if time.monotonic() > end:
                    break
    return best, bv, tries[0]


# ---------------------------------------------------------------- search
def worker(world, prop, seed, tier, w, nw, total, fd, minfail_path, deadline):
    """runs indices w, w+nw, ...; writes one pickled record per run to fd"""
    def put(rec):
        data = pickle.dumps(rec)
        os.write(fd, struct.pack("<I", len(data)))
        off = 0
        while off < len(data):
            off += os.write(fd, data[off:off + 65536])

    i = w
    while i < total:
        if time.monotonic() > deadline:
            put(("truncated", i))
            break
        try:
            if os.path.getsize(minfail_path):
                with open(minfail_path) as f:
                    if min(map(int, f.read().split())) < i:
                        break
        except ValueError:
            pass
        try:
            t0 = time.monotonic()
            plan = world.gen(rng_for(seed, prop, i), tier)
            res, viol = run_forked(world, plan)
            if viol and viol["klass"] == "hang":
                # confirm with a longer limit so that a slow machine is never reported as a hang
                old = getattr(world, "CPU_LIMIT", CPU_LIMIT)
                world.CPU_LIMIT = old * 4
                res, viol = run_forked(world, plan)
                world.CPU_LIMIT = old
            again = None
            if i % 50 == 7 and not viol:
                r2, v2 = run_forked(world, plan)
                again = (r2["log"] == res["log"] and v2 is None)
            put(("run", i, res, viol, again, time.monotonic() - t0, len(plan.get("ops", ())),
                 plan if i < 3 else None))
            if viol:
                with open(minfail_path, "a") as f:
                    f.write("%d\n" % i)
                break
        except HarnessError as e:
            put(("harness", i, str(e)))
            break
        except Exception as e:  # noqa: BLE001
            put(("harness", i, "".join(traceback.format_exception(type(e), e, e.__traceback__))))
            break
        i += nw
    put(("done", w))


def search(world, prop, seed, tier, total, nw, wall):
    """returns (records, truncated, harness errors)"""
    import tempfile
    tmp = tempfile.NamedTemporaryFile(prefix="dst_", delete=False)
    tmp.close()
    deadline = time.monotonic() + wall
    fds, pids = {}, []
    for w in range(nw):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                worker(world, prop, seed, tier, w, nw, total, wr, tmp.name, deadline)
            finally:
                os._exit(0)
        os.close(wr)
        fds[r] = b""
        pids.append(pid)
    recs, trunc, harness, done = [], False, [], 0
    while fds:
        rd, _, _ = select.select(list(fds), [], [], 5)
        for fd in rd:
            b = os.read(fd, 1 << 20)
            if not b:
                os.close(fd)
                del fds[fd]
                continue
            buf = fds[fd] + b
            while len(buf) >= 4:
                n = struct.unpack("<I", buf[:4])[0]
                if len(buf) < 4 + n:
                    break
                rec = pickle.loads(buf[4:4 + n])
                buf = buf[4 + n:]
                if rec[0] == "run":
                    recs.append(rec)
                elif rec[0] == "truncated":
                    trunc = True
                elif rec[0] == "harness":
                    harness.append(rec)
                else:
                    done += 1
            fds[fd] = buf
    for p in pids:
        os.waitpid(p, 0)
    os.unlink(tmp.name)
    if done != nw:
        harness.append(("harness", -1, "a worker process died"))
    return recs, trunc, harness


def add(into, d):
    for k, v in d.items():
        into[k] = into.get(k, 0) + v


def jsonable(x):
    return json.loads(json.dumps(x, default=str))


def replay_file(prop, plan, viol, seed, index, note):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, seed=seed, run=index, violation=viol, note=note, plan=plan)
    data = json.dumps(body, indent=1, sort_keys=True)
    name = "%s-%s.json" % (prop, hashlib.sha256(data.encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(data + "\n")
    return path


def fresh_replay(path):
    """replay the file in a fresh interpreter; the class of the violation it gives, or None"""
    try:
        p = subprocess.run([sys.executable, "-B", "-m", "dst.check", "--replay", path, "--quiet"], cwd=ROOT,
                           capture_output=True, text=True, timeout=240)
    except subprocess.TimeoutExpired:
        return "timeout"
    for line in p.stdout.splitlines():
        if line.startswith("REPLAYED class="):
            return line.split("=", 1)[1]
    return None
