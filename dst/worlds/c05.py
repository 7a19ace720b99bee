"""C05: concurrent caller threads see no interference and no torn states."""
import copy
import random
import zlib

from .. import engine, script
from .. import gen as G
from .. import seams
from ..engine import Violation

RUNS = {"quick": 3200, "thorough": 60000}
RULE = ("Two to four real threads, one running at a time under a baton; at every source line (in half the runs, every bytecode instruction outside the arithmetic) executed inside the library the simulator decides "
        "whether to preempt and whom to resume. Driver threads each run their own scenario; in most runs reader threads keep reading the state of a spacecraft "
        "another thread is flying. Histories are compared bit for bit with solo runs, reads with the states the spacecraft passes through, in order.")
STUB = ["thread scheduling (the interpreter's own preemption is replaced by the simulator's)", "locks created by the library, if any",
        "random draws inside observations are dictated by the simulator, per thread"]
LISTS = ("switches", "ops")
CPU_LIMIT = 60.0
DAY = 86400.0


def setup():
    seams.own_locks()
    seams.load()
    # import everything now: an import under preemption would wait for the import lock, outside the simulator
    import importlib
    import pkgutil
    import openspace
    for m in pkgutil.walk_packages(openspace.__path__, "openspace."):
        importlib.import_module(m.name)


def gen(rng, tier):
    m = rng.choice((1, 2, 2, 2, 3))
    readers = rng.choice((0, 1, 1, 2)) if m > 1 else rng.choice((1, 2))
    t0 = G.epoch(rng)
    scen = [script.gen_script(rng, rng.randint(1, 5), n=rng.choice((1, 1, 2)), light=True, t0=t0 + rng.choice((0.0, rng.uniform(-1, 1)))) for _ in range(m)]
    if m > 1 and rng.random() < 0.4:
        # near-twins: the same commands at the same epochs, so that threads meet in the same places
        a, b = rng.sample(range(m), 2)
        scen[b] = copy.deepcopy(scen[a])
        for c in scen[b]["craft"]:
            c["r"] = [x * (1 + 1e-4) for x in c["r"]]
    if readers:
        # a flight with several integration steps for the readers to watch
        scen[0]["craft"][0].update(t=t0)
        w = []
        for _ in range(rng.randint(1, 3)):
            k = rng.random()
            w.append(dict(op="step", i=0) if k < 0.3 else dict(op="burn", i=0, ric=G.ric(rng, lo=1e-3)) if k < 0.45 else
                     dict(op="goto", i=0, dt=rng.choice((-1, 1, 1)) * rng.choice((30.0, 400.0, 700.0, 1000.0))))
        scen[0]["ops"] = w
    styles, mod = ("rare", "hot", "hot", "dense", "bursts", "focus", "focus", "meet"), 25
    if rng.random() < 0.35:
        # every thread at the same kind of short command
        group = rng.choice(script.GROUPS)
        readers = 0
        scen = [script.gen_clinic(rng, group, t0 + rng.choice((0.0, rng.uniform(-1, 1)))) for _ in range(rng.choice((2, 2, 3)))]
        styles, mod = ("hot", "bursts", "focus", "focus", "meet", "meet", "meet", "meet"), rng.choice((4, 8, 16))
    return dict(scen=scen, readers=readers, reads=rng.randint(2, 12), sched=rng.randrange(1 << 40),
                style=rng.choice(styles), mod=mod, fine=rng.random() < 0.5, switches=None, ops=[])


class Chooser:
    """seeded preemption; where a line is rare (outside the arithmetic) it is preempted more often"""

    def __init__(self, plan):
        self.explicit = None
        if plan["switches"] is not None:
            self.explicit = {int(e): n for e, n in plan["switches"]}
        self.rng = random.Random(plan["sched"])
        self.style = plan["style"]
        self.until = 0
        self.baton = None
        self.parked = {}
        self.mod = plan.get("mod", 25) if self.style == "meet" else max(12, plan.get("mod", 25))
        self.salt, self.focus = plan["sched"], {}

    def meet(self, me, run):
        """a thread that reaches one of a few lines waits there until another arrives at the same line, or the others are done"""
        free = [x for x in run if x != me and x not in self.parked]
        if me not in run:
            self.parked.pop(me, None)
            return self.rng.choice(free or run)
        self.parked.pop(me, None)
        w, at = self.baton.where, self.baton.at
        if w == "yield":
            return self.rng.choice(free) if free and self.rng.random() < 0.2 else None
        hit = self.focus.get(at)
        if hit is None:
            mod = self.mod * (20 if w.startswith("math") else 1)
            hit = self.focus[at] = zlib.crc32(("%s %s %d" % (at[0], at[1], self.salt)).encode()) % mod == 0
        if not hit or self.baton.event == "opcode" and self.rng.random() < 0.7:
            return None
        here = [x for x, l in self.parked.items() if l == at and x in run]
        if here:
            nxt = self.rng.choice(here)
            if self.rng.random() < 0.5:
                self.parked[me] = at
            self.parked.pop(nxt)
            return nxt
        if free and self.rng.random() < 0.5:
            self.parked[me] = at
            return self.rng.choice(free)
        return None

    def __call__(self, e, me, run):
        if self.explicit is not None:
            return self.explicit.get(e)
        if self.style == "meet":
            return self.meet(me, run)
        r = self.rng.random()
        w = self.baton.where
        hot = 0.15 if w.startswith(("propagators", "bodies/artificial", "bodies/terrestrial", "estimation", "hardware")) else 0.0003 if w.startswith("math") else 0.004
        if self.style == "focus" and w != "yield":
            # every visit to a few source lines
            at = self.baton.at
            hot = self.focus.get(at)
            if hot is None:
                hot = self.focus[at] = 0.5 if zlib.crc32(("%s %s %d" % (at[0], at[1], self.salt)).encode()) % self.mod == 0 else 0.0005
        p = {"focus": hot, "rare": 0.0004, "hot": hot, "dense": 0.02, "bursts": 0.3 if e < self.until else 0.0005}[self.style]
        if me not in run:
            return self.rng.choice(run)
        if self.baton.where == "yield":
            p = 0.6
        if self.baton.event == "opcode" and self.style != "bursts":
            p *= 0.4
        if r >= p:
            return None
        if self.style == "bursts" and e >= self.until:
            self.until = e + self.rng.randint(2, 40)
        return self.rng.choice([x for x in run if x != me] or [me])


def solo(p):
    tag, val = engine.forked(lambda: script.Script(p, engine.Ctx()).history())
    if tag != "ok":
        raise engine.HarnessError("solo run: %s" % (val,))
    return val


def passed(p):
    """the states spacecraft 0 passes through: before and after each command and each integration step"""
    def body():
        f = script.Script(p, engine.Ctx())
        S, c = f.S, f.craft[0]
        out = [seams.state_tuple(c.current_state())]
        for op in p["ops"]:
            if f.ready(op):
                continue
            if op["op"] == "goto":
                dt = (f.info["to"] - c.current_epoch().value) * DAY
                n = -int(-abs(dt / 300.0) // 1)
                g = S.Spacecraft(c.current_state())
                for _ in range(n):
                    g.propagator.step_size = dt / n
                    g.step()
                    out.append(seams.state_tuple(g.current_state()))
            f.do(op)
            out.append(seams.state_tuple(c.current_state()))
        return out

    tag, val = engine.forked(body)
    if tag != "ok":
        raise engine.HarnessError("solo run: %s" % (val,))
    return val


def close(a, b):
    return (abs(a[0] - b[0]) <= 3e-11 and all(abs(x - y) <= 1e-6 for x, y in zip(a[1:4], b[1:4]))
            and all(abs(x - y) <= 1e-9 for x, y in zip(a[4:], b[4:])))


def simulate(plan, ctx):
    scen = plan["scen"]
    alone = [solo(p) for p in scen]
    route = passed(scen[0]) if plan["readers"] else []
    first = script.Script(scen[0], ctx)
    hist = [[] for _ in scen]
    fleets = [first] + [None] * (len(scen) - 1)
    reads = [[] for _ in range(plan["readers"])]
    ch = Chooser(plan)
    b = seams.Baton(ch, fine=plan.get("fine", False))
    ch.baton = b

    def driver(k):
        def body():
            if fleets[k] is None:
                fleets[k] = script.Script(scen[k], ctx)
            for op in scen[k]["ops"]:
                hist[k].append(fleets[k].do(op))
                b.yield_(k)
        return body

    def reader(k):
        def body():
            me = len(scen) + k
            target = first.craft[0]
            for _ in range(plan["reads"]):
                reads[k].append(seams.state_tuple(target.current_state()))
                b.yield_(me)
        return body

    b.run([driver(k) for k in range(len(scen))] + [reader(k) for k in range(plan["readers"])])
    return b, alone, route, hist, reads


def explicit(plan):
    """the same plan with its preemptions written out"""
    ctx = engine.Ctx()
    b, *_ = simulate(plan, ctx)
    p = copy.deepcopy(plan)
    p["switches"] = [list(s) for s in b.switches]
    return p


def run(plan, ctx):
    b, alone, route, hist, reads = simulate(plan, ctx)
    ctx.schedule(*b.switches)
    ctx.event("switches", b.switches)
    for k, h in enumerate(hist):
        ctx.event("history", k, h)
    n = len(b.switches)
    ctx.fault("preemption at a source line", n)
    ctx.count("effective", sum(map(len, hist)) + sum(map(len, reads)))
    ctx.count("scheduling points", b.events)
    for w in b.sites:
        ctx.state(w)
    for k, e in enumerate(b.errors):
        if isinstance(e, seams.Deadlock):
            raise Violation("deadlock", "thread %d: %s" % (k, e), k)
        if e is not None:
            if isinstance(e, Exception) and engine.in_repo_tb(e.__traceback__):
                raise Violation("exception:%s" % type(e).__name__, "thread %d failed under preemption: %r" % (k, e), k)
            raise e
    for k, h in enumerate(hist):
        for i, (got, want) in enumerate(zip(h, alone[k])):
            if got != want:
                raise Violation("interference", "thread %d, command %d (%s) gave a different result than alone" % (k, i, scen_op(plan, k, i)), i)
        if len(h) != len(alone[k]):
            raise Violation("interference", "thread %d stopped early" % k, len(h))
    for k, rs in enumerate(reads):
        at = 0
        for i, s in enumerate(rs):
            j = at
            while j < len(route) and not close(s, route[j]):
                j += 1
            if j == len(route):
                back = any(close(s, x) for x in route[:at])
                raise Violation("out of order read" if back else "torn read",
                                "reader %d, read %d: epoch %r position %r velocity %r is not a state the spacecraft passes through%s" % (
                                    k, i, s[0], s[1:4], s[4:], " after the one read before" if back else ""), i)
            if j > at:
                ctx.probe("reader saw the spacecraft move")
            if 0 < j < len(route) - 1:
                ctx.probe("read in mid-flight")
            at = j
    ctx.count("nontrivial", n)


def scen_op(plan, k, i):
    return plan["scen"][k]["ops"][i]["op"]


def shrink(plan):
    for k in range(len(plan["scen"])):
        if len(plan["scen"][k]["ops"]) > 1 and k:
            p = copy.deepcopy(plan)
            p["scen"][k]["ops"].pop()
            yield p
    if plan["reads"] > 1 and plan["readers"]:
        p = copy.deepcopy(plan)
        p["reads"] -= 1
        yield p
