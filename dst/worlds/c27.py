"""C27: a target handed over as a relative state is the target."""
from math import cos, pi, sin, sqrt

from .. import fleet, flight
from .. import gen as G
from .. import ref, seams
from ..seams import six, xyz

RUNS = {"quick": 5000, "thorough": 150000}
RULE = ("Two or three spacecraft (formations and unrelated orbits, some in opposite directions or far out of plane) fly random histories of clock "
        "movements, burns, attitude commands, interruptions and restarts; relative states are captured by conversion, by position query or from a new "
        "acquisition at any moment and delivered late, repeated, out of order or not at all to a consumer that may have restarted; every delivered one "
        "is turned back into an inertial state, compared with where the target was, and half of them are flown on beside the truth or carried on "
        "by the relative propagator.")
STUB = ["the link between the capturing spacecraft and the consumer is simulated"]
SCOPE = ("capture", "deliver")
DAY = 86400.0
STEEP = 1.48          # about 85 degrees out of plane: beyond, the in-track angle loses its meaning


def setup():
    seams.load()


def gen(rng, tier):
    n = rng.choice((2, 2, 3))
    near = rng.random() < 0.4
    craft = G.fleet(rng, n, cluster=rng.choice((0.0, 0.8, 0.8)), pert=0.0 if near else 0.5, skew=rng.choice((0.0, 0.4)))
    if near:
        # formations about circular orbits, where the relative propagator is meant to be used
        a = G.log(rng, 6800, 45000)
        r, v = ref.kepler_state(a, 0.0, rng.uniform(0, pi), rng.uniform(0, 2 * pi), 0.0, rng.uniform(0, 2 * pi))
        craft[0].update(r=list(r), v=list(v))
        w = sqrt(ref.MU / a ** 3)
        for c in craft[1:]:
            d = G.log(rng, 0.01, 10)
            rel = [rng.gauss(0, d) * rng.choice((0, 1, 1)) for _ in range(3)]
            if not any(rel):
                rel[1] = d
            vel = [rng.gauss(0, d * w) * rng.choice((0, 1, 1)) for _ in range(3)]
            if rng.random() < 0.7:
                vel[1] = -2 * w * rel[0] + (rng.gauss(0, 0.05 * d * w) if rng.random() < 0.4 else 0.0)
            r2, v2 = ref.from_hcw(r, v, rel, vel)
            c.update(r=list(r2), v=list(v2), t=craft[0]["t"])
    elif rng.random() < 0.25:
        # the target's orbit in the observer's plane but far round it, or tipped out of it
        b = craft[0]
        el = rng.uniform(0, 2 * pi), rng.choice((0.0, rng.uniform(-1.4, 1.4)))
        R, I, C = ref.ric_axes(b["r"], b["v"])
        m = ref.norm(b["r"]) * rng.uniform(0.9, 1.3)
        u = ref.add(ref.add(ref.mul(R, cos(el[1]) * cos(el[0])), ref.mul(I, cos(el[1]) * sin(el[0]))), ref.mul(C, sin(el[1])))
        v = ref.mul(ref.unit(ref.cross(ref.add(C, ref.mul(G.direction(rng), rng.choice((0.0, 0.3)))), u)), sqrt(ref.MU / m) * rng.choice((1, 1, -1)))
        if ref.bound(ref.mul(u, m), v):
            craft[1].update(r=list(ref.mul(u, m)), v=list(v))
    w = dict(step=3, goto=5, goto_of=2, setstep=0.5, burn=0 if near else 2, fburn=0 if near else 0.7, lvlh=0.5, sun=0.5, track=1.5, query=0.5)
    ops = []
    for o in fleet.make_ops(rng, n, rng.randint(2, 12), w, lambda r: G.tick(r, big=0.01), abort=rng.choice((0, 0.08)), crash=rng.choice((0, 0.05)), burn_hi=0.3):
        ops.append(o)
        if rng.random() < 0.5:
            i, j = rng.sample(range(n), 2)
            ops.append(dict(op="capture", i=i, j=j, how=rng.choice(("convert", "convert", "acquire", "query"))))
        if rng.random() < 0.45:
            ops.append(deliver(rng))
    i, j = (0, 1) if near else rng.sample(range(n), 2)
    ops.append(dict(op="capture", i=i, j=j, how=rng.choice(("convert", "acquire"))))
    ops.extend(deliver(rng) for _ in range(rng.randint(2, 5)))
    return dict(craft=craft, ops=ops, near=near)


def deliver(rng):
    o = dict(op="deliver", i=0, pick=rng.choice((0.0, 0.999999, rng.random())), keep=rng.random() < 0.2, lose=rng.random() < 0.08, bare=rng.random() < 0.4)
    k = rng.random()
    if k < 0.35:
        o["fly"] = [round(G.sgn(rng) * G.log(rng, 1, 3000), 3) for _ in range(rng.randint(1, 3))]
    elif k < 0.7:
        o["hill"] = [round(rng.uniform(0.02, 0.5), 4) for _ in range(rng.randint(1, 3))]       # of an orbit
    return o


class Relay(fleet.Fleet):
    def __init__(self, plan, ctx):
        super().__init__(plan, ctx, SCOPE)
        self.link = []

    def ready(self, op):
        k = op["op"]
        if k not in ("capture", "deliver"):
            return super().ready(op)
        self.info = dict(kind=k, i=op["i"])
        if k == "deliver":
            return None if self.link else "nothing to deliver"
        if max(op["i"], op["j"]) >= len(self.craft):
            return "no such craft"
        t = self.craft[op["i"]].current_epoch().value
        if self.cost(op["j"], t, [op["j"]]) > self.MAX_STEPS:
            return "too long"
        a, b = self.craft[op["i"]], self.craft[op["j"]]
        if op["how"] != "acquire" and b.current_epoch().value != t:
            b.step_to_epoch(a.current_epoch())
        R, I, C = ref.ric_axes(xyz(a.position()), xyz(a.velocity()))
        p = xyz(b.position())
        if op["how"] == "acquire":
            return None
        return "out of plane" if abs(ref.dot(C, p)) > sin(STEEP) * ref.norm(p) else None

    def call(self, op):
        k = op["op"]
        if k == "capture":
            return self.capture(op)
        if k == "deliver":
            return self.consume(op)
        return super().call(op)

    def committed(self, op):
        if op["op"] == "capture" and op["how"] == "acquire":
            op = dict(op, op="acquire")
        super().committed(op)

    def capture(self, op):
        S, a, b = self.S, self.craft[op["i"]], self.craft[op["j"]]
        rv = None
        if op["how"] == "acquire":
            a.acquire(b)
            x = six(a.filter.x00)
            rel, rv = x[:3], x[3:]
        elif op["how"] == "query":
            rel = xyz(a.hill_position(b))
        else:
            h = S.StateConvert.gcrf.to_hcw(a.current_state(), b.current_state())
            rel, rv = xyz(h.position), xyz(h.velocity)
            if h.epoch.value != a.current_epoch().value:
                self.fail("epoch", "the relative state is stamped %r, the observer's clock says %r" % (h.epoch.value, a.current_epoch().value))
        if a.current_epoch().value != b.current_epoch().value:
            self.ctx.count("clocks a few microseconds apart: not captured")
            return None
        o, t = a.current_state(), b.current_state()
        R, I, C = ref.ric_axes(xyz(o.position), xyz(o.velocity))
        if abs(ref.dot(C, xyz(t.position))) > sin(STEEP) * ref.norm(xyz(t.position)):
            return None
        self.link.append(dict(rel=rel, rv=rv, origin=o, t=t.epoch.value, r=xyz(t.position), v=xyz(t.velocity), pert=self.pert[op["j"]],
                              opert=self.pert[op["i"]], ro=xyz(o.position), vo=xyz(o.velocity)))
        self.ctx.count("captured by " + op["how"])
        return None

    def consume(self, op):
        S, ctx = self.S, self.ctx
        at = int(op["pick"] * len(self.link))
        e = self.link[at]
        if at:
            ctx.fault("report overtook another")
        if op["lose"]:
            self.link.pop(at)
            ctx.fault("report lost")
            return None
        if op["keep"]:
            ctx.fault("report duplicated")
        else:
            self.link.pop(at)
        origin = e["origin"]
        if op["bare"]:
            ctx.fault("transmitted as bare numbers")
            origin = S.gcrf(e["t"], e["ro"], e["vo"])
        if all(c.current_epoch().value != e["t"] for c in self.craft):
            ctx.fault("report delayed")
        rv = e["rv"]
        if rv is None:
            rv = ref.to_hcw(e["ro"], e["vo"], e["r"], e["v"])[1]
        back = S.StateConvert.hcw.to_gcrf(S.HCW(S.Epoch(e["t"]), S.vec(e["rel"]), S.vec(rv)), origin)
        ctx.count("nontrivial")
        m, mo, vm = ref.norm(e["r"]), ref.norm(e["ro"]), max(ref.norm(e["v"]), ref.norm(e["vo"]))
        C = ref.ric_axes(e["ro"], e["vo"])[2]
        s = ref.dot(C, e["r"]) / m
        steep = 1 / max(sqrt(max(0.0, 1 - s * s)), 1e-3)
        big = max(m, mo)
        ctx.state(int(steep * 3), int(10 * ref.angle(e["ro"], e["r"])), e["pert"])
        if back.epoch.value != e["t"]:
            self.fail("epoch", "the state is stamped %r, the relative state was captured at %r" % (back.epoch.value, e["t"]))
        er, ev = ref.norm(ref.sub(xyz(back.position), e["r"])), ref.norm(ref.sub(xyz(back.velocity), e["v"]))
        if not er <= 3e-14 * big * steep * steep + 1e-11:
            self.fail("position", "the relative state turned back is %.3e km from where the target was" % er)
        if not ev <= 3e-14 * vm * steep * steep * max(1.0, m / mo, mo / m) + 1e-14:
            self.fail("velocity", "the relative state turned back has a velocity %.3e km/s from the target's" % ev)
        if op.get("fly"):
            self.fly_on(op, e, back)
        elif op.get("hill") and self.plan["near"] and not e["opert"] and not e["pert"]:
            self.carry(op, e)
        return None

    def fly_on(self, op, e, back):
        """a spacecraft rebuilt from it flies on as the target does"""
        S = self.S
        back.use_perturbations = e["pert"]
        twin = S.gcrf(e["t"], e["r"], e["v"])
        twin.use_perturbations = e["pert"]
        a, b = S.Spacecraft(back), S.Spacecraft(twin)
        if ref.norm(e["r"]) < ref.RE + 120:
            return
        total = 0.0
        for dt in op["fly"]:
            to = b.current_epoch().value + dt / DAY
            a.step_to_epoch(S.Epoch(to))
            b.step_to_epoch(S.Epoch(to))
            total += abs(dt)
        self.ctx.sim(total)
        er, ev = ref.norm(ref.sub(xyz(a.position()), xyz(b.position()))), ref.norm(ref.sub(xyz(a.velocity()), xyz(b.velocity())))
        k = (1 + total / 300) ** 2
        self.ctx.count("flown on")
        if not (er <= 3e-9 * k and ev <= 3e-12 * k):
            self.fail("flight", "a spacecraft rebuilt from the relative state is %.3e km, %.3e km/s from the target after %.0f s" % (er, ev, total))

    def carry(self, op, e):
        """the relative propagator takes the relative state along the orbit"""
        S, rv = self.S, e["rv"]
        if rv is None:
            return
        a = ref.sma(e["ro"], e["vo"])
        ecc = ref.norm(ref.sub(ref.mul(ref.cross(e["vo"], ref.cross(e["ro"], e["vo"])), 1 / ref.MU), ref.unit(e["ro"])))
        if ecc > 1e-3 or abs(ref.sma(e["r"], e["v"]) / a - 1) > 0.01:
            return
        n = sqrt(ref.MU / a ** 3)
        h = S.Hill(S.HCW(S.Epoch(e["t"]), S.vec(e["rel"]), S.vec(rv)), a)
        t = 0.0
        d = max(ref.norm(e["rel"]), ref.norm(rv) / n)
        for f in op["hill"]:
            dt = f * 2 * pi / n
            h.step_by_seconds(dt)
            t += dt
        rel, relv = ref.to_hcw(*ref.kepler(e["ro"], e["vo"], t), *ref.kepler(e["r"], e["v"], t))
        x = six(h.state.vector)
        er = ref.norm(ref.sub(x[:3], rel))
        ev = ref.norm(ref.sub(x[3:], relv)) / n
        ph = 1 + n * t
        lim = CARRY * (d * d / a + ecc * d) * ph * ph + 1e-7
        self.ctx.sim(t)
        self.ctx.count("carried along")
        if not max(er, ev) <= lim:
            self.fail("relative prediction", "the relative state carried %.0f s (%.2f orbits) is %.3e km, %.3e km/s from the true one; separation %.2f km" % (
                t, t * n / 2 / pi, er, ev * n, d))


CARRY = 60.0


def run(plan, ctx):
    f = Relay(plan, ctx)
    f.run(plan["ops"])


shrink = fleet.shrink
