"""C24: orbit determination recovers the target's orbit from whatever reports got through."""
from math import acos, atan2, cos, pi, sin, sqrt

from .. import coast, fleet
from .. import gen as G
from .. import ref, seams
from . import c16

RUNS = {"quick": 6000, "thorough": 200000}
RULE = ("A target on any bound orbit (not equatorial) coasts in many small commands, with burns, restarts, interrupted and repeated commands; one to three ground sites and "
        "an observing spacecraft report it at random moments; reports are delayed, lost, duplicated, reordered or transmitted as bare angles and range, and the "
        "consumer restarts from what it saved.  Every pair it holds of one free flight, 0.3 to 170 degrees apart, is put in time order and given to the "
        "orbit determination; the elements must be the target's, give its state at the first report, and predict where every other report saw it.")
STUB = ["the link between observers and consumer is simulated", "observation noise is dictated (zero) by the simulator"]
DAY = 86400.0


def setup():
    seams.load()


KINDS = ("leo", "polar", "sso", "retro", "meo", "geo", "gto", "heo", "high", "gto", "heo")


def gen(rng, tier):
    t = G.epoch(rng)
    el = list(G.elements(rng, rng.choice(KINDS)))
    if rng.random() < 0.15:
        el[5] = rng.choice((0.0, pi / 2, pi, -pi / 2, el[5]))          # the anomalies where formulas like to divide by zero
    r, v = ref.kepler_state(*el)
    craft = [dict(t=t, r=list(r), v=list(v), pert=False, cfg={})]
    T = 2 * pi * sqrt(ref.sma(r, v) ** 3 / ref.MU)
    if rng.random() < 0.5:
        r2, v2 = G.orbit(rng) if rng.random() < 0.5 else G.offset(rng, r, v)
        craft.append(dict(t=t, r=list(r2), v=list(v2), pert=False, cfg=G.config(rng, 0.3)))
    sites = [c16.site(rng) for _ in range(rng.choice((1, 2, 3)))]
    ops = []
    longest = rng.choice((0.02, 0.15, 0.4))
    for _ in range(rng.randint(5, 16)):
        k = rng.random()
        if k < 0.45:
            ops.append(dict(op="report", by=rng.choice(["space"] * (len(craft) - 1) + list(range(len(sites)))), made=rng.choice(("lla", "itrf"))))
            ops.append(dict(op="coast", dt=T * G.log(rng, 0.003, longest), how=coast.gen(rng)))
        elif k < 0.85:
            ops.append(dict(op="deliver", pick=rng.choice((0.0, rng.random(), 0.999999)), keep=rng.random() < 0.15, bare=rng.random() < 0.4, lose=rng.random() < 0.1))
        elif k < 0.92:
            ops.append(dict(op="burn", ric=G.ric(rng, 1e-4, 0.3)))
        else:
            ops.append(dict(op="restart"))
    ops += [dict(op="report", by=rng.randrange(len(sites)), made="lla"), dict(op="drain")]
    return dict(craft=craft, sites=sites, ops=ops)


def to_ijk(x, t):
    return ref.itrf_to_ijk(ref.gcrf_to_itrf(x, t), t)


class Net(fleet.Fleet):
    def __init__(self, plan, ctx):
        super().__init__(plan, ctx)
        S = self.S
        self.alt = [S.GroundSite.from_itrf_position(S.vec(ref.lla_to_itrf(*s))) for s in plan["sites"]]
        self.link, self.inbox, self.flight, self.pairs, self.adverse = [], [], 0, 0, False

    def report(self, op):
        S, c = self.S, self.craft[0]
        if op["by"] == "space":
            if len(self.craft) < 2:
                return
            o = self.craft[1]
            t = c.current_epoch().value
            if abs(o.current_epoch().value - t) * DAY / 300 > 900:
                return
            o.step_to_epoch(c.current_epoch())
            if o.current_epoch().value != t:
                # reports are stamped with the observer's clock: the target's is set to the same instant by moving it there
                c.step_to_epoch(o.current_epoch())
                if c.current_epoch().value != o.current_epoch().value:
                    self.ctx.count("clocks a few microseconds apart: not reported")
                    return
            S.rand.set([0.0, 0.0], 0.0)
            ob = o.observe_wfov(c)
        else:
            s = op["by"] % len(self.sites)
            ob = (self.alt if op["made"] == "itrf" else self.sites)[s].angles_and_range(c)
        self.link.append(dict(ob=ob, t=c.current_epoch().value, r=seams.xyz(c.position()), v=seams.xyz(c.velocity()), flight=self.flight, ground=op["by"] != "space"))
        self.ctx.count("reports")
        self.ctx.schedule("report", op["by"])

    def rebuilt(self, e):
        """the report as sent over a wire that carries numbers only"""
        S, ob = self.S, e["ob"]
        s = ob.observer_state
        if e["ground"]:
            st = S.ITRF(S.Epoch(s.epoch.value), S.vec(seams.xyz(s.position)), S.vec((0.0, 0.0, 0.0)))
            new = S.GroundObservation.from_angles_and_range(st, ob.azimuth, ob.elevation, ob.range, ob.range_error, ob.angular_error)
        else:
            new = S.SpaceObservation(S.gcrf(s.epoch.value, seams.xyz(s.position), seams.xyz(s.velocity)), S.vec(seams.xyz(ob.observed_direction)), ob.range_error, ob.angular_error)
        return dict(e, ob=new)

    def noisy(self, e, d):
        """the report with its range off by d km"""
        S, ob = self.S, e["ob"]
        if e["ground"]:
            return S.GroundObservation.from_angles_and_range(ob.observer_state, ob.azimuth, ob.elevation, ob.range + d, ob.range_error, ob.angular_error)
        g = ob.observed_direction
        return S.SpaceObservation(ob.observer_state, g.scaled(1 + d / g.magnitude()), ob.range_error, ob.angular_error)

    def adversary(self, a, b):
        """range noise chosen, to the last bit, to put the first report a quarter turn from perigee: still an orbit through both reports"""
        from openspace.estimation.iod import Gauss
        hi = min(0.01 * ref.norm(a["r"]), 0.01 * ref.norm(a["v"]) * (b["t"] - a["t"]) * DAY)         # small enough that the orbit stays bound
        lo, n = -hi, 0

        def side(d):
            ob = self.noisy(a, d)
            c = Gauss.coes_from_positions(ob, b["ob"])
            r = seams.xyz(ob.ijk_position())
            st = c.to_ijk()
            p, q = seams.xyz(st.position), seams.xyz(st.velocity)
            if not ref.norm(ref.sub(p, r)) <= 1e-6 * ref.norm(r):
                self.fail("quarter turn", "with range noise of %r km on the first report the elements put the target %.3e km from where it was reported" % (d, ref.norm(ref.sub(p, r))))
            h = ref.norm(ref.cross(p, q))
            return h * h / ref.MU / ref.norm(r) - 1
        x, y = side(lo), side(hi)
        if (x > 0) == (y > 0):
            return
        self.ctx.fault("range noise chosen against the method")
        while n < 80:
            m = (lo + hi) / 2
            if m in (lo, hi):
                break
            z = side(m)
            if (z > 0) == (x > 0):
                lo = m
            else:
                hi = m
            n += 1
        self.ctx.count("quarter turns reached")

    def deliver(self, op):
        if not self.link:
            return
        at = int(op["pick"] * len(self.link))
        e = self.link[at]
        if at:
            self.ctx.fault("report overtook another")
        if op["lose"]:
            self.link.pop(at)
            self.ctx.fault("report lost")
            return
        if op["keep"]:
            self.ctx.fault("report duplicated")
        else:
            self.link.pop(at)
        if op["bare"]:
            self.ctx.fault("transmitted as bare numbers")
            e = self.rebuilt(e)
        if e["t"] != self.craft[0].current_epoch().value:
            self.ctx.fault("report delayed")
        self.ctx.schedule("deliver", at)
        if any(x["t"] == e["t"] for x in self.inbox):
            return                                   # a duplicate says nothing new
        if self.inbox and e["t"] < max(x["t"] for x in self.inbox):
            self.ctx.fault("report out of time order")
        for x in self.inbox:
            if x["flight"] == e["flight"]:
                self.determine(*sorted((x, e), key=lambda q: q["t"]))
        self.inbox.append(e)

    def determine(self, a, b):
        from openspace.estimation.iod import Gauss
        h = ref.cross(a["r"], a["v"])
        ang = atan2(ref.dot(ref.cross(a["r"], b["r"]), ref.unit(h)), ref.dot(a["r"], b["r"])) % (2 * pi)
        dt = (b["t"] - a["t"]) * DAY
        P = 2 * pi * sqrt(ref.sma(a["r"], a["v"]) ** 3 / ref.MU)
        r, v = to_ijk(a["r"], a["t"]), to_ijk(a["v"], a["t"])
        hi = ref.unit(ref.cross(r, v))
        if not 0.005 < ang < 2.967 or dt > 0.9 * P or dt < 20 or sqrt(hi[0] ** 2 + hi[1] ** 2) < 1e-4:
            return
        if self.pairs > 40:
            return
        self.pairs += 1
        c = Gauss.coes_from_positions(a["ob"], b["ob"])
        self.ctx.count("nontrivial")
        self.ctx.count("effective")
        self.ctx.count("orbits determined")
        e = ref.norm(ref.sub(ref.mul(ref.cross(v, ref.cross(r, v)), 1 / ref.MU), ref.unit(r)))
        self.ctx.state(int(ang * 6), int(e * 10), int(acos(hi[2]) * 6), a["ground"], b["ground"])
        where = "pair %.1f deg and %.0f s apart, e=%.3f" % (ang * 180 / pi, dt, e)
        if c.epoch.value != a["t"]:
            self.fail("epoch", "%s: the elements are stamped %r, the first report %r" % (where, c.epoch.value, a["t"]))
        # what the data can support: clock resolution and position rounding over the arc, the slow turning of the frame
        # (1e-11 rad/s) and the 1e-8 of the linearised nutation, magnified near half a revolution
        rm, vm = ref.norm(r), ref.norm(v)
        far = max(rm, ref.norm(b["r"]))
        mag = 1 / sin(ang) if ang > 1.6 else 1.0
        ev = vm * (2e-6 * mag + 1e-4 / dt) + 1.2e-10 * far * mag + 4e-9 * far / dt
        st = c.to_ijk()
        p, q = seams.xyz(st.position), seams.xyz(st.velocity)
        if not ref.norm(ref.sub(p, r)) <= 1e-7 * rm:
            self.fail("position", "%s: the elements put the target %.3e km from where the first report saw it" % (where, ref.norm(ref.sub(p, r))))
        if not ref.norm(ref.sub(q, v)) <= ev:
            self.fail("velocity", "%s: the elements give a velocity %.3e km/s from the target's (supported: %.1e)" % (where, ref.norm(ref.sub(q, v)), ev))
        sma = ref.sma(r, v)
        da = 2 * sma * sma * vm / ref.MU * ev + 1e-9 * sma
        if not abs(c.semimajor_axis - sma) <= 2 * da:
            self.fail("semi-major axis", "%s: semi-major axis %r, the target's is %r" % (where, c.semimajor_axis, sma))
        if not abs(c.inclination - acos(max(-1.0, min(1.0, hi[2])))) <= 2e-7 + 3 * ev / vm:
            self.fail("inclination", "%s: inclination %r, the target's is %r" % (where, c.inclination, acos(hi[2])))
        if not abs(c.eccentricity - e) <= 8 * ev / vm * max(1.0, rm * vm * vm / ref.MU) + 1e-7:
            self.fail("eccentricity", "%s: eccentricity %r, the target's is %r" % (where, c.eccentricity, e))
        # the set survives being turned into a state and back (circular orbits carry half the digits in e)
        from openspace.coordinates.states import IJK
        back = self.S.ClassicalElements.from_ijk(IJK(self.S.Epoch(a["t"]), self.S.vec(p), self.S.vec(q))).to_ijk()
        er, ev2 = ref.norm(ref.sub(seams.xyz(back.position), p)), ref.norm(ref.sub(seams.xyz(back.velocity), q))
        lim = min(3e-7, 3e-11 / (1 - e) ** 2 + 1e-13 * (1 / (max(e, 1e-9) * (1 - e)) + 1 / sqrt(hi[0] ** 2 + hi[1] ** 2)))
        if not er <= lim * rm or not ev2 <= lim * vm:
            self.fail("elements and back", "%s: state to elements and back moved the target by %.3e km, %.3e km/s" % (
                where, er, ev2))
        # and predicts every other report of the same flight
        for x in self.inbox:
            if x["flight"] == a["flight"] and x is not a and x is not b:
                s = (x["t"] - a["t"]) * DAY
                pr, _ = ref.kepler(p, q, s)
                want = to_ijk(x["r"], x["t"])
                # a velocity error grows as a change of period, plus what the frame turns meanwhile
                lim = 3 * ev * (min(abs(s), P) + 3 * abs(s) * max(1.0, (1 + e) / (1 - e))) + 1e-6 * rm + 3e-11 * abs(s) * sma * 3 + 1e-7 * sma / (1 - e)
                err = ref.norm(ref.sub(pr, want))
                self.ctx.count("predictions checked")
                if not err <= lim:
                    self.fail("prediction", "%s: the orbit predicts the report %.0f s away %.3e km off (supported: %.1e)" % (where, s, err, lim))
        if 0.05 < e < 0.85 and abs(e * e - (ref.norm(ref.cross(r, v)) ** 2 / ref.MU / rm - 1) ** 2) > 0.98 * e * e and not self.adverse and 0.05 < ang < 2.8:
            self.adverse = True
            self.adversary(a, b)
        self.ctx.event("orbit", c.semimajor_axis, c.eccentricity, c.inclination, c.raan, c.argument_of_perigee, c.mean_anomaly)


def run(plan, ctx):
    f = Net(plan, ctx)
    for n, op in enumerate(plan["ops"]):
        f.step_no = n
        k = op["op"]
        if k == "coast":
            to = f.craft[0].current_epoch().value + op["dt"] / DAY
            coast.fly(f, 0, to, op["how"])
            ctx.count("effective")
        elif k == "report":
            f.report(op)
        elif k == "deliver":
            f.deliver(op)
        elif k == "burn":
            c = f.craft[0]
            r, v = seams.xyz(c.position()), seams.xyz(c.velocity())
            if ref.bound(r, ref.add(v, ref.ric_to_gcrf(r, v, op["ric"]))):
                c.impulsive_maneuver(f.S.vec(op["ric"]))
                f.flight += 1
                ctx.fault("target maneuvered")
                ctx.schedule("burn")
        elif k == "restart":
            f.inbox = [f.rebuilt(e) for e in f.inbox]
            ctx.fault("consumer restarted from saved reports")
            ctx.schedule("restart")
        elif k == "drain":
            while f.link:
                f.deliver(dict(pick=0.0, keep=False, bare=False, lose=False))


def shrink(plan):
    import copy
    for n, o in enumerate(plan["ops"]):
        if o["op"] == "coast" and o["how"]["faults"]:
            p = copy.deepcopy(plan)
            p["ops"][n]["how"]["faults"].pop()
            yield p
        for k in ("keep", "bare"):
            if o.get(k):
                p = copy.deepcopy(plan)
                p["ops"][n][k] = False
                yield p
