"""C03: trajectories do not depend on how time is sliced."""
from math import ceil

from .. import fleet
from .. import gen as G
from .. import ref, seams
from ..engine import Violation

RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("One spacecraft (any orbit family, two-body or perturbed, any epoch) is taken to the same final epoch twice: in one command, and along a random "
        "schedule of 1-25 waypoints with irregular, repeated, zero-length, stalled, overshooting and backward ticks, plain steps, interrupted moves and "
        "restarts; then it is brought back to its starting epoch. A third spacecraft in the same process follows finer slices.")
STUB = []
LISTS = ("ops",)
DAY = 86400.0
SAFE = 2.5            # allowed multiple of the integration error of the reference flight in the same steps


def setup():
    seams.load()


def gen(rng, tier):
    kind = rng.choice(("geo", "geo", "geo", "high", "high", "meo", "leo", "gto", "heo", "retro", "equatorial"))
    r, v = G.orbit(rng, kind)
    craft = dict(t=G.epoch(rng), r=r, v=v, pert=rng.random() < 0.65, cfg={})
    T = G.sgn(rng) * G.log(rng, 60, 14400 if kind in ("leo", "gto", "heo") else 60000)
    if kind in ("geo", "high") and rng.random() < 0.12:       # days to weeks
        T = G.sgn(rng) * G.log(rng, 60000, (2.5 if craft["pert"] else 14) * DAY)
    if rng.random() < 0.1:
        T = 300.0 * round(T / 300)
    ops, at = [], 0.0
    for _ in range(rng.randint(1, 25 if abs(T) < 60000 else 5)):
        k = rng.random()
        if k < 0.10 and ops:
            ops.append(dict(ops[-1]))
        elif k < 0.20:
            ops.append(dict(op="step", h=rng.choice((300.0, 60.0, 10.0, -60.0, rng.uniform(-300, 300)))))
        elif k < 0.24:
            ops.append(dict(op="crash"))
        elif k < 0.28:
            ops.append(dict(op="abort", at=rng.uniform(-0.3, 1.3) * T, frac=rng.random(), exc=rng.choice(sorted(seams.INJECTED))))
        elif k < 0.40:
            ops.append(dict(op="to", at=at + G.tick(rng, big=0.0)))
        elif k < 0.5:
            ops.append(dict(op="to", at=rng.choice((0.0, T, 1.2 * T, -0.2 * T, T + 1e-3, T - 1e-3))))
        else:
            ops.append(dict(op="to", at=rng.uniform(-0.1, 1.1) * T))
        at = ops[-1].get("at", at)
    if rng.random() < 0.4:                      # a steady march
        n = rng.randint(2, 40)
        ops = [dict(op="to", at=T * (i + 1) / n) for i in range(n)]
    return dict(craft=[craft], T=T, ops=ops, fine=rng.choice((2, 3, 5)))


class Path:
    """a spacecraft, and beside it a reference two-body flight in the same steps whose distance from the exact orbit says
    how accurate the integration is"""

    def __init__(self, c):
        self.S = seams.load()
        self.c = fleet.build(self.S, c)
        self.r0 = self.r = tuple(c["r"])
        self.v0 = self.v = tuple(c["v"])
        self.e0, self.l0 = energy(self.r, self.v), ref.cross(self.r, self.v)
        self.s = 0.0                                        # seconds flown
        self.er = self.ev = self.ee = self.el = 0.0         # largest errors met
        self.vp = ref.norm(self.v)
        self.g = 0.0
        self.steps = 0

    def now(self):
        return self.c.current_epoch().value

    def flown(self, h, n):
        for _ in range(n):
            _, self.r, self.v = ref.rk4_step(0.0, self.r, self.v, h, False)
            self.s += h
            r, v = ref.kepler(self.r0, self.v0, self.s)
            self.er = max(self.er, ref.norm(ref.sub(r, self.r)))
            self.ev = max(self.ev, ref.norm(ref.sub(v, self.v)))
            self.ee = max(self.ee, abs(energy(self.r, self.v) - self.e0))
            self.el = max(self.el, ref.norm(ref.sub(ref.cross(self.r, self.v), self.l0)))
            self.vp = max(self.vp, ref.norm(v))
            self.g = max(self.g, ref.MU / ref.dot(r, r))
        self.steps += n

    def to(self, t):
        dt = (t - self.now()) * DAY
        n = ceil(abs(dt) / 300.0)
        self.c.step_to_epoch(self.S.Epoch(t))
        if n:
            self.flown(dt / n, n)

    def state(self):
        s = self.c.current_state()
        return s.epoch.value, seams.xyz(s.position), seams.xyz(s.velocity)

    def bound(self):
        """errors of position and velocity, km and km/s"""
        lag = 1.3e-6 * (2 + self.steps)                     # each step rounds the clock twice
        return SAFE * self.er + lag * self.vp + 1e-7, SAFE * self.ev + lag * self.g + 1e-12


def energy(r, v):
    return ref.dot(v, v) / 2 - ref.MU / ref.norm(r)


def differ(a, b, what, klass, step, ctx):
    (ta, ra, va), (tb, rb, vb) = a.state(), b if isinstance(b, tuple) else b.state()
    lag = (ta - tb) * DAY
    lr, lv = a.bound()
    n = a.steps
    if not isinstance(b, tuple):
        x, y = b.bound()
        lr, lv, n = lr + x, lv + y, n + b.steps
    if not abs(lag) <= 1.3e-6 * (4 + n):
        raise Violation("epoch", "%s: the two schedules end %r s apart" % (what, lag), step)
    acc = ref.mul(rb, -ref.MU / ref.norm(rb) ** 3)
    dr = ref.norm(ref.sub(ra, ref.add(rb, ref.mul(vb, lag))))
    dv = ref.norm(ref.sub(va, ref.add(vb, ref.mul(acc, lag))))
    if not dr <= lr:
        raise Violation(klass, "%s: positions differ by %.3e km, integration accuracy allows %.3e" % (what, dr, lr), step)
    if not dv <= lv:
        raise Violation(klass, "%s: velocities differ by %.3e km/s, integration accuracy allows %.3e" % (what, dv, lv), step)
    ctx.count("comparisons")
    if lr < 1e-2:
        ctx.probe("compared to better than 10 m")
    return max(dr / lr, dv / lv)


def conserved(p, e0, l0, step):
    _, r, v = p.state()
    e = energy(r, v)
    l = ref.cross(r, v)
    tol = 2 * p.ee + 1e-15 * (10 + p.steps) * p.vp ** 2
    if not abs(e - e0) <= tol:
        raise Violation("energy", "orbital energy changed by %.3e in two-body flight (allowed %.3e)" % (e - e0, tol), step)
    tol = 2 * p.el + 1e-15 * (10 + p.steps) * ref.norm(r) * p.vp
    d = ref.norm(ref.sub(l, l0))
    if not d <= tol:
        raise Violation("momentum", "angular momentum changed by %.3e in two-body flight (allowed %.3e)" % (d, tol), step)


def run(plan, ctx):
    c = plan["craft"][0]
    S = seams.load()
    t0 = c["t"]
    T = plan["T"]
    end = t0 + T / DAY
    a, b, f = Path(c), Path(c), Path(c)
    start = b.state()
    e0 = ref.dot(start[2], start[2]) / 2 - ref.MU / ref.norm(start[1])
    l0 = ref.cross(start[1], start[2])
    a.to(end)
    prev = None
    for no, op in enumerate(plan["ops"]):
        k = op["op"]
        ctx.schedule(k, round(op.get("at", op.get("h", 0.0)), 3))
        was = b.now()
        if k == "to":
            b.to(t0 + op["at"] / DAY)
            if prev == op:
                ctx.fault("duplicate command")
        elif k == "step":
            b.c.propagator.step_size = op["h"]
            b.c.step()
            b.flown(op["h"], 1)
        elif k == "crash":
            s = b.c.current_state()
            b.c = S.Spacecraft(s)
            ctx.fault("crash and restart")
        else:
            t = t0 + op["at"] / DAY
            dt = (t - b.now()) * DAY
            dry = S.Spacecraft(b.c.current_state())
            total = seams.count_sites(lambda: dry.step_to_epoch(S.Epoch(t)))
            if total and seams.with_fault(lambda: b.c.step_to_epoch(S.Epoch(t)), min(total - 1, int(op["frac"] * total)), op["exc"]):
                ctx.fault("abort:" + op["exc"])
            n = ceil(abs(dt) / 300.0)
            if n:
                b.flown(dt / n, round((b.now() - was) * DAY / (dt / n)))
        prev = op
        d = (b.now() - was) * DAY
        ctx.sim(d)
        ctx.count("effective")
        if d < -1e-4:
            ctx.fault("clock moved backwards")
        if k == "to" and abs(d) < 1e-4:
            ctx.fault("zero or sub-resolution tick")
        if (b.now() - end) * T > 0:
            ctx.fault("overshot the final epoch")
        if not c["pert"]:
            conserved(b, e0, l0, no)
        ctx.event(no, k, b.state())
    b.to(end)
    q = [differ(b, a, "schedule of %d moves against one command" % len(plan["ops"]), "sliced", len(plan["ops"]), ctx)]
    n = plan["fine"] * ceil(abs(T) / 300)
    if n <= 600:
        for i in range(n):
            f.to(t0 + T * (i + 1) / n / DAY)
        q.append(differ(f, a, "%d slices against one command" % n, "sliced", len(plan["ops"]), ctx))
    a.to(t0)
    q.append(differ(a, start, "out and back in one command each", "return", len(plan["ops"]), ctx))
    b.to(t0)
    q.append(differ(b, start, "schedule and back", "return", len(plan["ops"]), ctx))
    if not c["pert"]:
        conserved(a, e0, l0, len(plan["ops"]))
    ctx.sim(4 * T)
    ctx.count("nontrivial")
    ctx.event("end", a.state(), b.state())
    ctx.state("pert" if c["pert"] else "two-body", T > 0, [o["op"] for o in plan["ops"]][:6])
    w = max(q)
    ctx.probe("closest approach to the bound: %s" % ("over 50%" if w > 0.5 else "10-50%" if w > 0.1 else "under 10%"))


def shrink(plan):
    import copy
    if not plan["craft"][0]["pert"]:
        p = copy.deepcopy(plan)
        p["craft"][0]["pert"] = True
        yield p
    for v in (300.0, 600.0, 3600.0, float(round(plan["T"]))):
        if abs(v) < abs(plan["T"]) or (v == round(plan["T"]) and v != plan["T"]):
            p = copy.deepcopy(plan)
            p["T"] = v
            yield p
    for n, o in enumerate(plan["ops"]):
        if "at" in o and o["at"] != round(o["at"]):
            p = copy.deepcopy(plan)
            p["ops"][n]["at"] = float(round(o["at"]))
            yield p
