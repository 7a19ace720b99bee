"""C16: observations reconstruct where the target was, however late they arrive."""
from math import atan2, pi

from .. import fleet
from .. import gen as G
from .. import ref, seams

RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("1-3 ground sites anywhere (poles, equator, date line, below sea level) and 1-3 spacecraft; ground and space observations are taken at random "
        "moments, held on a simulated link (delayed, duplicated, reordered, lost, or transmitted as bare angles and range) while everything else moves on, "
        "and converted back at delivery; the angles are compared with independent geometry, the reconstruction with where the target was.")
STUB = ["random draws inside space observations are dictated by the simulator", "the link between site and consumer is simulated"]
LISTS = ("ops",)
shrink = fleet.shrink
DAY = 86400.0


def setup():
    seams.load()


def site(rng):
    k = rng.random()
    lat = pi / 2 * (1 if rng.random() < 0.5 else -1) if k < 0.08 else 0.0 if k < 0.16 else \
        G.sgn(rng) * (pi / 2 - G.log(rng, 1e-12, 1e-2)) if k < 0.24 else rng.uniform(-pi / 2, pi / 2)
    lon = rng.choice((0.0, pi, -pi, pi / 2, rng.uniform(-pi, pi), rng.uniform(0, 2 * pi), rng.uniform(0, 2 * pi)))
    return [lat, lon, rng.choice((0.0, rng.uniform(-0.4, 9)))]


def gen(rng, tier):
    n = rng.choice((1, 2, 2, 3))
    craft = G.fleet(rng, n, cluster=0.6)
    sites = [site(rng) for _ in range(rng.choice((1, 1, 2, 3)))]
    w = dict(ground=10, sob=5 if n > 1 else 0, deliver=12, lose=1, step=3, goto=4, goto_of=1, burn=1, fburn=0.4, lvlh=0.4, sun=0.4, track=1.5, acquire=0.3)
    ops = []
    for o in fleet.make_ops(rng, n, rng.randint(4, 26), w, lambda r: G.tick(r, big=0.02), abort=rng.choice((0, 0.06)), crash=rng.choice((0, 0.04)), sites=len(sites)):
        if o["op"] == "sob":
            if n < 2:
                continue
            o["j"] = rng.choice([x for x in range(n) if x != o["i"]])
            o.update(cam=rng.choice("wn"), k=[round(rng.gauss(0, 1.5) * rng.choice((0, 1, 1)), 6) for _ in range(2)], u=rng.random())
        elif o["op"] == "ground":
            o["made"] = rng.choice(("lla", "lla", "itrf"))
        elif o["op"] in ("deliver", "lose"):
            o.update(pick=rng.choice((0.0, rng.random(), 0.999999)), keep=rng.random() < 0.2, bare=rng.random() < 0.4)
        ops.append(o)
    ops.append(dict(op="deliver", i=0, pick=0.0, keep=False, bare=False))
    return dict(craft=craft, ops=ops, sites=sites)


def spoil(*fields):
    for o, name in fields:
        try:
            setattr(o, name, getattr(o, name) + 100.25)
        except AttributeError:
            pass                # cannot be changed: nothing to go wrong


def key(ob):
    s = ob.observer_state
    base = (s.epoch.value, seams.xyz(s.position), seams.xyz(s.velocity), seams.xyz(ob.observed_direction), ob.range, ob.range_error, ob.angular_error)
    return base + ((ob.azimuth, ob.elevation) if hasattr(ob, "azimuth") else (ob.right_ascension, ob.declination))


class Link(fleet.Fleet):
    OWN = ("sob", "deliver", "lose", "ground")

    def __init__(self, plan, ctx):
        super().__init__(plan, ctx, self.OWN)
        self.queue = []
        # the same sites, built from Earth-fixed coordinates
        self.alt = [self.S.GroundSite.from_itrf_position(self.S.vec(ref.lla_to_itrf(*s))) for s in plan["sites"]]

    def ready(self, op):
        k, n = op["op"], len(self.craft)
        if k in self.OWN:
            self.info = dict(kind=k, i=op["i"])
            if op["i"] >= n or op.get("j", 0) >= n or op.get("j") == op["i"]:
                return "no such craft"
            if k == "ground" and not self.sites:
                return "no site"
            if k in ("deliver", "lose") and not self.queue:
                return "nothing in flight"
            return None
        return super().ready(op)

    def call(self, op):
        k, S = op["op"], self.S
        if k == "sob":
            S.rand.set(op["k"], op["u"])
            c, t = self.craft[op["i"]], self.craft[op["j"]]
            return c.observe_nfov(t) if op["cam"] == "n" else c.observe_wfov(t)
        if k == "ground":
            s = op["s"] % len(self.sites)
            return (self.alt if op["made"] == "itrf" else self.sites)[s].angles_and_range(self.craft[op["i"]])
        if k in ("deliver", "lose"):
            return None
        return super().call(op)

    # ------------------------------------------------------------ oracle
    def ground_angles(self, op, ob, pre):
        p = pre[op["i"]]
        lat, lon, alt = self.plan["sites"][op["s"] % len(self.sites)]
        site = ref.lla_to_itrf(lat, lon, alt)
        d = ref.sub(ref.gcrf_to_itrf(p.r, p.t), site)
        e, n, u = ref.enz_axes(lat, lon)
        q = (ref.dot(e, d), ref.dot(n, d), ref.dot(u, d))
        rng = ref.norm(d)
        el = atan2(q[2], (q[0] ** 2 + q[1] ** 2) ** 0.5)
        polar = op["made"] == "itrf" and abs(abs(lat) - pi / 2) < 1e-4   # east is not defined by position alone over a pole
        if not abs(ob.range - rng) <= 1e-10 * ref.norm(p.r) + 1e-9:
            self.fail("range", "ground range %r, geometry gives %r" % (ob.range, rng))
        if not abs(ob.elevation - el) <= 1e-9:
            self.fail("elevation", "elevation %r, geometry gives %r" % (ob.elevation, el))
        if not polar:
            az = atan2(q[0], q[1])
            horiz = (q[0] ** 2 + q[1] ** 2) ** 0.5 / rng
            err = abs((ob.azimuth - az + pi) % (2 * pi) - pi)
            if not err * horiz <= 1e-9:
                self.fail("azimuth", "azimuth %r, geometry gives %r (elevation %r)" % (ob.azimuth, az % (2 * pi), el))
        if ob.epoch().value != p.t:
            self.fail("epoch", "observation epoch %r, target is at %r" % (ob.epoch().value, p.t))
        if el < 0:
            self.ctx.probe("target below the horizon")
        if abs(lat) > 1.5:
            self.ctx.probe("site near a pole")

    def convert(self, e, bare):
        ob, kind = e["ob"], e["kind"]
        if key(ob) != e["key"]:
            self.fail("observation changed", "an observation in flight changed between taking and delivery")
        late = (self.craft[e["i"]].current_epoch().value - e["t"]) * DAY if e["i"] < len(self.craft) else 0.0
        if abs(late) > 1e-4:
            self.ctx.fault("observation delayed")
        S = self.S
        r = ref.norm(e["r"])
        if kind == "ground":
            obs = [("", ob)]
            if bare:
                st = S.ITRF(S.Epoch(ob.observer_state.epoch.value), S.vec(seams.xyz(ob.observer_state.position)), S.vec((0.0, 0.0, 0.0)))
                obs.append(("rebuilt from angles: ", S.GroundObservation.from_angles_and_range(st, ob.azimuth, ob.elevation, ob.range, ob.range_error, ob.angular_error)))
                # the receiver goes on to use its own objects for the next report
                spoil((st.epoch, "value"), (st.position, "x"))
                self.ctx.fault("transmitted as bare angles and range")
            for name, o in obs:
                got = seams.xyz(o.gcrf_position())
                err = ref.norm(ref.sub(got, e["r"]))
                # the library's linearised nutation is not exactly orthogonal: up to 1e-8 of the distance
                if not err <= 3e-8 * r:
                    self.fail("inertial position", "%sground observation reconstructs %.3e km from where the target was (%.0f s later)" % (name, err, late))
                want = ref.itrf_to_ijk(ref.gcrf_to_itrf(e["r"], e["t"]), e["t"])
                err = ref.norm(ref.sub(seams.xyz(o.ijk_position()), want))
                if not err <= 1e-9 * r:
                    self.fail("ijk position", "%sground observation gives an IJK position %.3e km from where the target was" % (name, err))
                if o.epoch().value != e["t"]:
                    self.fail("epoch", "the epoch of an observation changed")
        else:
            seen = ref.add(seams.xyz(ob.observer_state.position), seams.xyz(ob.observed_direction))
            err = ref.norm(ref.sub(seen, e["r"]))
            ks = [abs(k) for k in e["k"]]
            rng = ref.norm(ref.sub(e["r"], e["ro"]))
            lim = (max(ks) * ob.range_error) + (rng + max(ks) * ob.range_error) * max(ks) * ob.angular_error
            if not err <= lim * 1.001 + 1e-9 * r:
                self.fail("inertial position", "space observation reconstructs %.3e km from where the target was, its noise allows %.3e" % (err, lim))
            want = ref.itrf_to_ijk(ref.gcrf_to_itrf(seen, e["t"]), e["t"])
            obs = [("", ob)]
            if bare:
                st, d = S.gcrf(e["t"], seams.xyz(ob.observer_state.position), seams.xyz(ob.observer_state.velocity)), S.vec(seams.xyz(ob.observed_direction))
                obs.append(("rebuilt ", S.SpaceObservation(st, d, ob.range_error, ob.angular_error)))
                spoil((st.epoch, "value"), (st.position, "x"), (d, "y"))
                self.ctx.fault("transmitted as bare numbers")
            for name, o in obs:
                err = ref.norm(ref.sub(seams.xyz(o.ijk_position()), want))
                if not err <= 1e-9 * r:
                    self.fail("ijk position", "%sspace observation gives an IJK position %.3e km off" % (name, err))
                if o.epoch().value != e["t"]:
                    self.fail("epoch", "the epoch of an observation changed")
        if key(ob) != e["key"]:
            self.fail("observation changed", "converting an observation changed it")
        self.ctx.count("nontrivial")
        self.ctx.count("reconstructions checked")
        self.ctx.event("converted", e["no"], seams.xyz(ob.ijk_position()))


def after(f, op, info, pre, post, out):
    k, i = op["op"], op["i"]
    if k in ("ground", "sob"):
        for x in range(len(pre)):
            if not pre[x].same(post[x]):
                f.fail("observing changed something", "observing changed spacecraft %d" % x)
        if k == "ground":
            f.ground_angles(op, out, pre)
            f.queue.append(dict(ob=out, kind="ground", key=key(out), r=pre[i].r, t=pre[i].t, i=i, no=f.step_no))
        else:
            f.queue.append(dict(ob=out, kind="space", key=key(out), r=pre[op["j"]].r, ro=pre[i].r, t=pre[i].t, i=i, k=op["k"], no=f.step_no))
    elif k in ("deliver", "lose"):
        at = int(op["pick"] * len(f.queue))
        e = f.queue[at]
        if at:
            f.ctx.fault("observation overtook another")
        if k == "lose":
            f.queue.pop(at)
            f.ctx.fault("observation lost")
            return
        if op["keep"]:
            f.ctx.fault("observation duplicated")
        else:
            f.queue.pop(at)
        f.convert(e, op["bare"])


def run(plan, ctx):
    f = Link(plan, ctx)
    f.run(plan["ops"], after=after)
    while f.queue:                       # what is still in flight arrives at the end
        f.convert(f.queue.pop(0), True)
