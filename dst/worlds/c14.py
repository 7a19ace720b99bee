"""C14: simulated observations carry exactly the noise they declare."""
from math import atan2, cos, pi, sin, sqrt

from .. import fleet
from .. import gen as G
from .. import ref, seams

RUNS = {"quick": 5000, "thorough": 120000}
RULE = ("Fleets of 2-3 spacecraft with random cameras, sizes and pointing accuracies in random, polar-axis and axis-aligned geometries; observations "
        "with the normal and uniform draws dictated by the simulator (0 to 6 sigma, independent for range and angle, every position angle) at random "
        "moments of histories of flight, burns, attitude commands and interrupted observations; in part of the runs the real seeded generator is used "
        "and the sample is tested at six standard errors.")
STUB = ["random draws are dictated by the simulator, except in the statistical runs, which use the real generator with a chosen seed"]
SCOPE = ("observe",)
LISTS = ("ops",)
shrink = fleet.shrink


def setup():
    seams.load()


def gen(rng, tier):
    n = rng.choice((2, 2, 3))
    craft = G.fleet(rng, n, cluster=0.85)
    for c in craft:
        if rng.random() < 0.08:                 # from fragments to large structures
            c["cfg"]["body_radius"] = G.log(rng, 1e-6, 1.0)
        if rng.random() < 0.06:                 # from astrometric to very coarse pointing
            c["cfg"]["pointing_accuracy"] = rng.choice((G.log(rng, 5e-3, 0.4), G.log(rng, 1e-9, 1e-7)))
    k = rng.random()
    if k < 0.35:
        # line of sight along (or very near) a coordinate axis
        b, d = craft[0], G.log(rng, *rng.choice(((0.5, 500), (0.5, 500), (5e-4, 1))))      # also closer than the target is wide
        ax = rng.choice((2, 2, 2, 0, 1))
        off = [0.0, 0.0, 0.0]
        off[ax] = G.sgn(rng) * d
        if rng.random() < 0.4:
            off[(ax + 1) % 3] = G.sgn(rng) * d * G.log(rng, 1e-13, 1e-5)
        craft[1].update(t=b["t"], r=[x + y for x, y in zip(b["r"], off)], v=list(b["v"]))
        if rng.random() < 0.5:
            # exactly representable, so that the difference of positions is exactly axial
            craft[0]["r"] = [float(round(x)) for x in b["r"]]
            craft[1]["r"] = [x + (round(y) or 1.0) * (j == ax) for j, (x, y) in enumerate(zip(craft[0]["r"], off))]
    w = dict(observe=10, ring=3, step=2, goto=3, goto_of=1, burn=1, fburn=0.4, lvlh=0.6, sun=0.6, track=1.5, acquire=0.5)
    if k < 0.35 and rng.random() < 0.7:
        w = dict(observe=6, ring=6)
    ops = []
    for o in fleet.make_ops(rng, n, rng.randint(3, 16), w, lambda r: G.tick(r, big=0.01), abort=rng.choice((0, 0.05))):
        if o["op"] in ("observe", "ring"):
            if "j" not in o:
                o["j"] = rng.choice([x for x in range(n) if x != o["i"]])
            o["cam"] = rng.choice("wn")
            o["k"] = [round(rng.choice((0.0, 1.0, -1.0, 6.0, -6.0, rng.gauss(0, 1), rng.gauss(0, 3))), 6) for _ in range(2)]
            if o["op"] == "ring":
                o["k"][0] = round(rng.uniform(-1, 1), 6)
                o["k"][1] = round(G.sgn(rng) * rng.uniform(0.5, 4), 6)
            o["u"] = rng.choice((0.0, 0.25, 0.5, 0.999999, rng.random()))
        ops.append(o)
    plan = dict(craft=craft, ops=ops)
    if rng.random() < 0.04:
        plan["stat"] = rng.randrange(1 << 30)
        plan["ops"] = ops[:4]
    return plan


def observe(f, i, j, cam):
    return f.craft[i].observe_nfov(f.craft[j]) if cam == "n" else f.craft[i].observe_wfov(f.craft[j])


def declared(f, i, j, cam, pre, ob):
    """the stamp and the declared errors; returns (line of sight, range, range sigma, angle sigma)"""
    c, t = f.craft[i], f.craft[j]
    s = ob.observer_state
    if (s.epoch.value, seams.xyz(s.position), seams.xyz(s.velocity)) != (pre[i].t, pre[i].r, pre[i].v):
        f.fail("stamp", "the observation is not stamped with the observer's state")
    los = ref.sub(pre[j].r, pre[i].r)
    rng = ref.norm(los)
    cm = c.nfov if cam == "n" else c.wfov
    sr = ref.range_error(cm.fov, cm.pixels, rng, 2 * t.body_radius)
    if not abs(ob.range_error - sr) <= 1e-9 * sr:
        f.fail("declared range error", "declared range error %r, the camera gives %r" % (ob.range_error, sr))
    if ob.angular_error != c.pointing_accuracy:
        f.fail("declared angle error", "declared angular error %r, pointing accuracy is %r" % (ob.angular_error, c.pointing_accuracy))
    d = seams.xyz(ob.observed_direction)
    q = ref.from_spherical(ob.range, ob.right_ascension, ob.declination)
    if not ref.norm(ref.sub(q, d)) <= 1e-9 * max(ref.norm(d), 1e-6):
        f.fail("angles and range", "range, right ascension and declination do not describe the observed direction")
    return los, rng, sr, c.pointing_accuracy


def displacement(los, d):
    return ref.norm(d), ref.angle(los, d)


def matches(f, los, rng, sr, sa, ks, d):
    """is the displacement one of k[0] or k[1] sigma in range, the other in angle?"""
    m, a = displacement(los, d)
    why = []
    for kr, ka in ((ks[0], ks[1]), (ks[1], ks[0])):
        want = rng + kr * sr
        if want < 0.05 * rng:
            return None           # the noise exceeds the range itself
        er, ea = abs(m - want), abs(a - abs(wrap(ka * sa)))
        if er <= 1e-9 * rng + 1e-9 * abs(kr) * sr and ea <= 2e-11 + 1e-7 * abs(ka) * sa:
            return True
        why.append("range off by %.3e km, angle by %.3e rad" % (er, ea))
    return why[0]


def azimuth(los, d):
    """position angle of d about los"""
    u = ref.unit(los)
    e = min(((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)), key=lambda x: abs(ref.dot(x, u)))
    p = ref.unit(ref.cross(u, e))
    q = ref.cross(u, p)
    return atan2(ref.dot(d, q), ref.dot(d, p))


def wrap(x):
    return (x + pi) % (2 * pi) - pi


def stat(f, plan):
    """the real generator: normal in range and angle, uniform in position angle, independent"""
    f.S.rand.use_real(plan["stat"])
    pre = f.snaps()
    N = 600
    kr, ka, az = [], [], []
    for _ in range(N):
        ob = observe(f, 0, 1, "w")
        los, rng, sr, sa = declared(f, 0, 1, "w", pre, ob)
        if rng < 8 * sr:
            return
        d = seams.xyz(ob.observed_direction)
        m, a = displacement(los, d)
        kr.append((m - rng) / sr)
        ka.append(a / sa)
        az.append(azimuth(los, d))
    f.ctx.count("effective", N)
    f.ctx.count("nontrivial")
    f.ctx.probe("statistical runs with the real generator")

    def z(name, mean, want, var):
        v = (mean - want) / sqrt(var / N)
        if not abs(v) < 6.5:
            f.fail("statistics: " + name, "%s is %r over %d observations, expected %r" % (name, mean, N, want))

    res = 1e-13 * ref.norm(pre[0].r) / sr > 1e-3
    if not res:
        z("mean range error", sum(kr) / N, 0.0, 1.0)
        z("range variance", sum(x * x for x in kr) / N, 1.0, 2.0)
        z("range/angle correlation", sum(x * (y - sqrt(2 / pi)) for x, y in zip(kr, ka)) / N, 0.0, 1 - 2 / pi)
    z("angle variance", sum(x * x for x in ka) / N, 1.0, 2.0)
    for q in (1, 2):
        z("cos %d position angle" % q, sum(cos(q * x) for x in az) / N, 0.0, 0.5)
        z("sin %d position angle" % q, sum(sin(q * x) for x in az) / N, 0.0, 0.5)
    # consecutive draws are independent
    z("serial correlation", sum(a * b for a, b in zip(ka, ka[1:])) / N - (sum(ka) / N) ** 2, 0.0, 1 - 4 / pi ** 2)


class Obs(fleet.Fleet):
    def ready(self, op):
        if op["op"] == "ring":
            self.info = dict(kind="ring", i=op["i"])
            n = len(self.craft)
            return "no such craft" if op["i"] >= n or op["j"] >= n or op["i"] == op["j"] else None
        return super().ready(op)

    def call(self, op):
        if op["op"] != "ring":
            return super().call(op)
        out = []
        for u in (0.0, 0.25, 0.5, 0.75, op["u"]):
            self.S.rand.set(op["k"], u)
            out.append(observe(self, op["i"], op["j"], op["cam"]))
        return out


def after(f, op, info, pre, post, out):
    k = op["op"]
    if k not in ("observe", "ring"):
        return
    i, j = op["i"], op["j"]
    for x in range(len(pre)):
        if not pre[x].same(post[x]):
            f.fail("observing changed something", "observing changed spacecraft %d" % x)
    obs = [out] if k == "observe" else out
    az = []
    for ob in obs:
        los, rng, sr, sa = declared(f, i, j, op["cam"], pre, ob)
        d = seams.xyz(ob.observed_direction)
        m = matches(f, los, rng, sr, sa, op["k"], d)
        if m is None:
            f.ctx.count("range noise larger than the range: displacement not compared")
            return
        if m is not True:
            f.fail("displacement", "draws of %r sigma at range %r km (sigmas %.3e km, %.3e rad): %s" % (op["k"], rng, sr, sa, m))
        f.ctx.count("nontrivial")
        f.ctx.probe("observation at %s" % ("zero noise" if not any(op["k"]) else "4+ sigma" if max(map(abs, op["k"])) >= 4 else "moderate noise"))
        if abs(los[0]) + abs(los[1]) == 0:
            f.ctx.probe("line of sight exactly along the pole")
        az.append(azimuth(los, d))
    if k == "ring":
        us = (0.0, 0.25, 0.5, 0.75, op["u"])
        tol = 1e-5 + 1e-12 / (min(map(abs, [x for x in op["k"] if x] or [1.0])) * sa)
        for s in (1, -1):
            if all(abs(wrap(a - az[0] - s * 2 * pi * u)) <= tol for a, u in zip(az, us)):
                break
        else:
            f.fail("position angle", "displacements at fractions %r of the circle lie at position angles %r" % (us, [round(wrap(a - az[0]), 6) for a in az]))
        f.ctx.probe("rings of five position angles")


def run(plan, ctx):
    f = Obs(plan, ctx, ("observe", "ring"))
    f.run(plan["ops"], after=after)
    if "stat" in plan:
        stat(f, plan)
