"""C25: a timeline of calendar dates runs at those dates, over the Earth as it then stands."""
import datetime as dt
from math import atan2, pi, sqrt

from .. import fleet
from .. import gen as G
from .. import ref, seams
from ..seams import xyz
from .c16 import site as any_site

RUNS = {"quick": 4000, "thorough": 120000}
RULE = ("A spacecraft (any orbit, or geosynchronous over a chosen longitude) and ground sites are driven by a timeline of Gregorian dates between 1860 and 2150, crowded "
        "around midnights, month and year ends, leap days and century years; entries are uplinked late, repeated, reordered, lost and sent again, the on-board schedule "
        "survives restarts only as dates, and commands are interrupted; at every entry clock, elapsed time, order of execution, the site's view and the "
        "geosynchronous longitude are compared with the calendar of the Python standard library and the documented sidereal angle.")
STUB = ["the uplink and the on-board schedule are simulated"]
LISTS = ("ops",)
shrink = fleet.shrink
DAY = 86400.0
OWN = ("uplink", "execute", "restart")
TICK = 3e-11                 # days: resolution of an epoch made from a date
DRIFT = 3e-6                 # rad per day of geosynchronous flight, and as much again for the start


def setup():
    seams.load()


def parts(d):
    return [d.year, d.month, d.day, d.hour, d.minute, d.second + d.microsecond / 1e6]


def mjd(p):
    return dt.date(*p[:3]).toordinal() - 678576 + (p[3] * 3600 + p[4] * 60 + p[5]) / DAY


def day_of(rng):
    k = rng.random()
    y = rng.choice((rng.randint(1860, 2149), rng.randint(1990, 2040), 1900, 2000, 2100, 1904, 2024, 1999, 2001))
    if k < 0.25:
        d = dt.date(y, 2, 27) + dt.timedelta(days=rng.randint(0, 3))
    elif k < 0.45:
        d = dt.date(y, 12, 30) + dt.timedelta(days=rng.randint(0, 3))
    elif k < 0.65:
        d = dt.date(y, rng.randint(1, 12), 1) - dt.timedelta(days=rng.randint(0, 1))
    else:
        d = dt.date(y, 1, 1) + dt.timedelta(days=rng.randint(0, 364))
    return d


def moment(rng, d):
    k = rng.random()
    if k < 0.15:
        s = 0
    elif k < 0.3:
        s = rng.choice((69.184, 69.1839, 69.1841, 86399.999999, 86399.0, 0.000001, 60, 3600, 43200))
    elif k < 0.42:
        s = (rng.choice((0, 69.184)) + G.sgn(rng) * G.log(rng, 1e-3, 300)) % DAY
    elif k < 0.55:
        s = 3600 * rng.randint(0, 23) + rng.choice((0, 59, 60, 3599, 3540))
    else:
        s = rng.uniform(0, DAY)
    return dt.datetime(d.year, d.month, d.day) + dt.timedelta(microseconds=int(s * 1e6))


def gen(rng, tier):
    start = moment(rng, day_of(rng))
    geo = rng.random() < 0.35
    pert = not geo and rng.random() < 0.25
    span = rng.uniform(0.05, 0.3) if pert else G.log(rng, 0.1, 8)
    r, v = G.orbit(rng)
    ops, out = [], 0
    for _ in range(rng.randint(3, 12)):
        k = rng.random()
        if k < 0.55 or not out:
            if rng.random() < 0.35 and not pert:
                at = moment(rng, (start + dt.timedelta(days=rng.randint(0, 1 + int(span)))).date())
                at = max(at, start - dt.timedelta(days=1))
            else:
                at = start + dt.timedelta(microseconds=int(rng.uniform(-0.1, 1) * span * DAY * 1e6))
            ops.append(dict(op="uplink", i=0, date=parts(at), made=rng.choice(("date", "date", "add")), fate=rng.choice(("ok", "ok", "ok", "dup", "lost", "late"))))
            out += 1
        elif k < 0.9:
            ops.append(dict(op="execute", i=0))
            if rng.random() < 0.1:
                ops[-1]["abort"] = dict(frac=rng.random(), exc=rng.choice(sorted(seams.INJECTED)))
        else:
            ops.append(dict(op="restart", i=0))
    ops += [dict(op="execute", i=0) for _ in range(2 * out)]
    for n, o in enumerate(ops):
        o["no"] = n
    return dict(craft=[dict(t=mjd(parts(start)), r=r, v=v, pert=pert, cfg=G.config(rng, 0.2))], start=parts(start), geo=rng.uniform(0, 2 * pi) if geo else None,
                sites=[any_site(rng) for _ in range(rng.choice((1, 2)))], ops=ops)


class Timeline(fleet.Fleet):
    def __init__(self, plan, ctx):
        S = seams.load()
        self.zero = mjd(plan["start"])
        self.day0 = S.Epoch.from_gregorian(*plan["start"])
        if plan["geo"] is not None:
            # over the equator of date at that longitude, moving east, on the radius the library gives
            a = S.Earth.geo_radius()
            b = ref.spin((a, 0.0, 0.0), -plan["geo"])
            e = ref.spin((0.0, sqrt(ref.MU / a), 0.0), -plan["geo"])
            plan = dict(plan, craft=[dict(plan["craft"][0], r=list(ref.itrf_to_gcrf(b, self.zero)), v=list(ref.itrf_to_gcrf(e, self.zero)))])
        super().__init__(plan, ctx, OWN)
        self.check_date(self.day0, plan["start"])
        c = self.craft[0]
        self.craft[0] = S.Spacecraft(GCRF_at(S, self.day0, c))
        self.queue, self.air, self.lag, self.steps = [], [], [], 0

    def ready(self, op):
        if op["op"] not in OWN:
            return super().ready(op)
        self.info = dict(kind=op["op"], i=op["i"])
        return "nothing scheduled" if op["op"] == "execute" and not (self.queue or self.air) else None

    def check_date(self, e, date):
        if not abs(e.value - mjd(date)) <= TICK:
            self.fail("date", "%04d-%02d-%02d %02d:%02d:%09.6f became epoch %r, the calendar says %r" % (*date, e.value, mjd(date)))

    def epoch(self, e):
        S = self.S
        if e["made"] == "add":
            # the same moment counted from the start of the timeline
            x = self.day0.plus_days(mjd(e["date"]) - self.zero)
        else:
            x = S.Epoch.from_gregorian(*e["date"])
        self.check_date(x, e["date"])
        return x

    def call(self, op):
        S, ctx, k = self.S, self.ctx, op["op"]
        if k == "uplink":
            ctx.schedule(op["fate"], op["made"])
            e = dict(date=op["date"], made=op["made"])
            if op["fate"] == "dup":
                ctx.fault("entry uplinked twice")
                self.queue.append((self.epoch(e), e))
            if op["fate"] in ("lost", "late"):
                ctx.fault("entry lost and sent again" if op["fate"] == "lost" else "entry delayed")
                self.air.append(e)
            else:
                self.queue.append((self.epoch(e), e))
            return None
        if k == "restart":
            # the processor restarts: what survives is the reported state and the dates
            ctx.fault("crash and restart")
            self.crash(0)
            self.queue = [(self.epoch(e), e) for _, e in self.queue]
            return None
        if k == "execute":
            while self.air and (len(self.air) > 1 or not self.queue):
                e = self.air.pop(0)
                self.queue.append((self.epoch(e), e))
            at = min(range(len(self.queue)), key=lambda x: self.queue[x][0].value)
            x, e = self.queue[at]
            first = min(mjd(q["date"]) for _, q in self.queue)
            if mjd(e["date"]) > first + 2 * TICK:
                self.fail("order", "the schedule puts %r before an earlier date" % (e["date"],))
            ctx.schedule("of", at, len(self.queue))
            c = self.craft[0]
            if x.value < c.current_epoch().value:
                ctx.fault("entry executed after its time had passed")
            self.steps += ref.nsteps((x.value - c.current_epoch().value) * DAY) + 1
            t0 = c.current_epoch().value
            if op.get("abort"):
                if seams.with_fault(lambda: c.step_to_epoch(x), int(op["abort"]["frac"] * 40 * ref.nsteps((x.value - t0) * DAY)), op["abort"]["exc"]):
                    ctx.fault("abort:%s in goto" % op["abort"]["exc"])
            c.step_to_epoch(x)
            ctx.sim((x.value - t0) * DAY)
            self.queue.pop(at)
            self.arrived(e)
            return None
        return super().call(op)

    def arrived(self, e):
        ctx, c, S = self.ctx, self.craft[0], self.S
        want = mjd(e["date"])
        res = TICK + 1.5e-11 * self.steps
        now = c.current_epoch()
        if not abs(now.value - want) <= res:
            self.fail("clock", "the entry of %r ran at epoch %r, due at %r" % (e["date"], now.value, want))
        if not abs((now.value - self.day0.value) - (want - self.zero)) <= 2 * res:
            self.fail("elapsed", "%r days have elapsed on the spacecraft, %r in the calendar" % (now.value - self.day0.value, want - self.zero))
        slack = 1e-8 + 10 * res           # the Earth turns 6.3 rad a day
        turn = abs((now.greenwich_hour_angle() - ref.gmst(want) + pi) % (2 * pi) - pi)
        if not turn <= slack:
            self.fail("sidereal angle", "the sidereal angle on %r is off by %.3e rad" % (e["date"], turn))
        r = xyz(c.position())
        fixed = ref.gcrf_to_itrf(r, want)
        for n, (lat, lon, alt) in enumerate(self.plan["sites"]):
            ob = self.sites[n].angles_and_range(c)
            d = ref.sub(fixed, ref.lla_to_itrf(lat, lon, alt))
            q = [ref.dot(a, d) for a in ref.enz_axes(lat, lon)]
            m = ref.norm(d)
            got = ref.from_spherical(ob.range, ob.azimuth, ob.elevation)
            err = ref.norm(ref.sub(got, (q[1], q[0], q[2])))
            if not err <= slack * ref.norm(r):
                self.fail("site view", "on %r site %d sees the spacecraft %.3e km from where it is" % (e["date"], n, err))
        if self.plan["geo"] is not None:
            lag = (atan2(fixed[1], fixed[0]) - self.plan["geo"] + pi) % (2 * pi) - pi
            if not abs(lag) <= DRIFT * (1 + abs(want - self.zero)):
                self.fail("geosynchronous", "a geosynchronous spacecraft has drifted %.3e rad in %.2f days" % (lag, want - self.zero))
            ctx.probe("geosynchronous longitude held")
            self.lag.append(lag)
        ctx.count("nontrivial")
        ctx.state(e["date"][0] // 4, e["date"][1])
        ctx.event(self.step_no, seams.state_tuple(c.current_state()))


def GCRF_at(S, epoch, c):
    s = c.current_state()
    g = S.GCRF(epoch, s.position, s.velocity)
    g.use_perturbations = s.use_perturbations
    return g


def run(plan, ctx):
    f = Timeline(plan, ctx)
    f.run(plan["ops"])
