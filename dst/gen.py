"""Random inputs shared by the worlds: epochs, orbits, formations, tick lengths, hardware settings."""
from math import pi, radians

from . import ref

OFFSET = 69.184 / 86400  # terrestrial time minus UTC, days


def log(rng, lo, hi):
    return lo * (hi / lo) ** rng.random()


def sgn(rng):
    return rng.choice((-1, 1))


def epoch(rng):
    m = float(rng.randint(40000, 70000))
    if rng.random() < 0.08:
        m = float(rng.randint(400, 106000))     # 1860 to 2149
    k = rng.random()
    if k < 0.55:
        return m + rng.random()
    if k < 0.63:
        return m                      # midnight TT
    if k < 0.71:
        return m + OFFSET             # midnight UTC, where the sidereal day rolls over
    if k < 0.79:
        return m + OFFSET - log(rng, 1, 3000) / 86400
    if k < 0.87:
        return m - log(rng, 1, 3000) / 86400
    if k < 0.92:
        return m + 0.5
    if k < 0.95:
        return 51544.5 + rng.choice((0.0, -0.01, 0.01, -1.0))   # J2000
    return round(m + rng.random(), 3)


KINDS = ("leo", "leo", "polar", "sso", "retro", "meo", "geo", "geo", "geo", "gto", "heo", "equatorial", "high", "vleo", "cislunar")


def elements(rng, kind=None):
    kind = kind or rng.choice(KINDS)
    tau = 2 * pi
    w, o, n = rng.uniform(0, tau), rng.uniform(0, tau), rng.uniform(0, tau)
    if kind == "leo":
        e = rng.choice((0.0, rng.uniform(0, 0.02)))
        return ((ref.RE + rng.uniform(400, 1500)) / (1 - e), e, radians(rng.uniform(1, 100)), o, w, n)
    if kind == "vleo":
        return (ref.RE + rng.uniform(250, 350), rng.uniform(0, 0.003), radians(rng.uniform(1, 179)), o, w, n)
    if kind == "polar":
        return (ref.RE + rng.uniform(500, 1200), rng.uniform(0, 0.01), rng.choice((pi / 2, radians(89.99))), o, w, n)
    if kind == "sso":
        return (ref.RE + rng.uniform(500, 900), rng.uniform(0, 0.005), radians(rng.uniform(97, 99)), o, w, n)
    if kind == "retro":
        return (ref.RE + rng.uniform(500, 20000), rng.uniform(0, 0.01), radians(rng.uniform(100, 179.9)), o, w, n)
    if kind == "meo":
        return (rng.uniform(10000, 30000), rng.uniform(0, 0.15), radians(rng.uniform(0, 70)), o, w, n)
    if kind == "geo":
        return (42164.17 + rng.choice((0, rng.uniform(-60, 60))), rng.choice((0.0, rng.uniform(0, 0.002))), radians(rng.choice((rng.uniform(0, 0.1), rng.uniform(0, 16)))), o, w, n)
    if kind == "gto":
        return (24400 + rng.uniform(-300, 300), rng.uniform(0.70, 0.725), radians(rng.uniform(0, 30)), o, w, n)
    if kind == "heo":
        return (26560 + rng.uniform(-50, 50), rng.uniform(0.6, 0.74), radians(63.4), o, w, n)
    if kind == "equatorial":
        return (rng.choice((7000.0, 8500.0, 20000.0, 42164.0)), rng.choice((0.0, 0.01)), 0.0, 0.0, rng.choice((0.0, w)), rng.choice((0.0, pi / 2, n)))
    if kind == "cislunar":
        return (rng.uniform(180000, 330000), rng.uniform(0, 0.6), radians(rng.uniform(0, 180)), o, w, n)
    return (rng.uniform(60000, 180000), rng.uniform(0, 0.4), radians(rng.uniform(0, 180)), o, w, n)


def escape(rng):
    """a state on a hyperbola about Earth, in- or outbound, perigee above the surface"""
    while True:
        r = ref.mul(ref.unit(direction(rng)), log(rng, 7000, 200000))
        v = ref.mul(ref.unit(direction(rng)), (ref.MU / ref.norm(r) * rng.uniform(2.05, 5)) ** 0.5)
        a = ref.sma(r, v)
        h = ref.norm(ref.cross(r, v))
        e = (1 - h * h / (ref.MU * a)) ** 0.5
        if a < 0 and a * (1 - e) > ref.RE + 200:
            return list(r), list(v)


def by_the_moon(rng, t):
    """a state in the Moon's neighbourhood"""
    m, n = ref.moon(t), ref.moon(t + 0.01)
    r = ref.add(m, ref.mul(ref.unit(direction(rng)), log(rng, 6000, 90000)))
    v = ref.add(ref.mul(ref.sub(n, m), 1 / 864.0), ref.mul(ref.unit(direction(rng)), log(rng, 0.01, 1.2)))
    return list(r), list(v)


def orbit(rng, kind=None):
    r, v = ref.kepler_state(*elements(rng, kind))
    return list(r), list(v)


def offset(rng, r, v, lo=0.5, hi=800.0):
    """a neighbour of (r, v) on a sensible orbit of its own"""
    while True:
        r2, v2 = _offset(rng, r, v, lo, max(hi, 2 * lo))
        if ref.bound(r2, v2):
            return r2, v2
        hi /= 2


def _offset(rng, r, v, lo, hi):
    """a neighbour of (r, v): relative position log-uniform in lo..hi km, relative speed small"""
    d = log(rng, lo, hi)
    u = direction(rng)
    w = ref.mul(direction(rng), log(rng, 1e-6, 3e-3) if rng.random() < 0.8 else 0.0)
    p = ref.ric_to_gcrf(r, v, ref.mul(u, d))
    q = ref.ric_to_gcrf(r, v, w)
    # keep the orbit's energy: co-moving in the rotating frame rather than parallel
    r2 = ref.add(r, p)
    k = ref.norm(r) / ref.norm(r2)
    om = ref.mul(ref.cross(r, v), 1 / ref.dot(r, r))
    v2 = ref.add(ref.add(v, ref.mul(ref.cross(om, p), k)), q)
    return list(r2), list(v2)


def direction(rng):
    k = rng.random()
    if k < 0.25:
        e = [0.0, 0.0, 0.0]
        e[rng.randrange(3)] = float(sgn(rng))
        return tuple(e)
    while True:
        d = (rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 1))
        if ref.norm(d) > 0.1:
            return ref.unit(d)


def tick(rng, big=0.05, back=0.25):
    """seconds to move a clock by; a mixture of ordinary, irregular and adversarial lengths"""
    k = rng.random()
    s = -1 if rng.random() < back else 1
    if k < 0.06:
        return 0.0
    if k < 0.14:
        return s * log(rng, 2e-6, 1e-2)
    if k < 0.26:
        return s * 300.0 * rng.randint(1, 8)
    if k < 0.32:
        return s * (300.0 * rng.randint(1, 4) + rng.choice((-1e-3, 1e-3, -0.5, 0.5)))
    if k < 0.50:
        return s * rng.uniform(0.1, 60)
    if k < 0.60:
        return s * float(rng.choice((1, 10, 30, 60, 600, 900, 1800, 3600, 2700, 5400, 10800)))
    if k < 1 - big:
        return s * log(rng, 1, 7200)
    return s * rng.uniform(20000, 110000)


def long_haul(rng, plan, days=35.0, pert_days=9.0):
    """turn a plan into one with one or two jumps of days to weeks (forwards or backwards) among its commands"""
    for c in plan["craft"]:
        c["r"], c["v"] = orbit(rng, rng.choice(("geo", "geo", "high")))    # where 300 s steps stay accurate for weeks
    far = pert_days if any(c["pert"] for c in plan["craft"]) else days
    ops = plan["ops"][:8]
    for _ in range(rng.choice((1, 1, 2))):
        dt = sgn(rng) * log(rng, 2.2 * 86400, far * 86400)
        if rng.random() < 0.3:
            dt = 300.0 * round(dt / 300)
        ops.insert(rng.randint(0, len(ops)), dict(op="goto", i=rng.randrange(len(plan["craft"])), dt=dt))
    plan.update(ops=ops, long=True)
    return plan


def step_size(rng):
    return rng.choice((300.0, 300.0, 60.0, 1.0, 0.25, 10.0, 299.999, -60.0, -300.0, round(rng.uniform(0.5, 300), 3), rng.uniform(-300, 300)))


def ric(rng, lo=1e-6, hi=0.05):
    return list(ref.mul(direction(rng), log(rng, lo, hi)))


def config(rng, p=0.5):
    """hardware settings; each left at its default with probability 1-p"""
    c = {}

    def put(name, f):
        if rng.random() < p:
            c[name] = f()

    put("albedo", lambda: rng.choice((0.05, 0.9, rng.uniform(0.05, 1))))
    put("body_radius", lambda: log(rng, 1e-4, 0.05))
    put("slew_scalar", lambda: log(rng, 1, 30000) / 86400)
    put("pointing_accuracy", lambda: log(rng, 1e-7, 5e-3))
    put("m_dot", lambda: log(rng, 1e-4, 0.5))
    put("isp", lambda: rng.uniform(60, 3000))
    put("dry_mass", lambda: log(rng, 10, 5000))
    put("propellant_mass", lambda: log(rng, 5, 3000))
    if rng.random() < p:
        c["wfov"] = [rng.choice((256, 1024, 4096)), radians(log(rng, 0.05, 40))]
    if rng.random() < p:
        c["nfov"] = [rng.choice((256, 1024, 4096)), radians(log(rng, 0.02, 5))]
    return c


def inplace(rng):
    """settings made on the default cameras themselves"""
    out = {}
    if rng.random() < 0.5:
        out["wfov.limits.bore"] = radians(log(rng, 0.5, 120))
    if rng.random() < 0.4:
        out["wfov.limits.sun_soft"] = radians(rng.uniform(0, 120))
        out["wfov.limits.vismag"] = rng.uniform(5, 25)
    if rng.random() < 0.4:
        out["wfov.fov"] = radians(log(rng, 0.5, 20))
    if rng.random() < 0.4:
        out["nfov.fov"] = radians(log(rng, 0.02, 2))
        out["nfov.resolution_factor"] = 0.5 / rng.choice((256, 512, 4096))
    return out


def fleet(rng, n, cluster=0.7, pert=0.75, cfg=0.5, skew=0.4, kinds=None, close=0.0):
    """initial conditions of n spacecraft, some flying together, some with skewed clocks"""
    t0 = epoch(rng)
    craft = []
    for i in range(n):
        if craft and rng.random() < cluster:
            b = craft[rng.randrange(len(craft))]
            r, v = offset(rng, tuple(b["r"]), tuple(b["v"]), *((1e-3, 1.0) if rng.random() < close else (0.5, 800.0)))
        else:
            r, v = orbit(rng, rng.choice(kinds) if kinds else None)
        t = t0
        if i and rng.random() < skew:
            t = t0 + sgn(rng) * log(rng, 1e-3, 4000) / 86400
        craft.append(dict(t=t, r=r, v=v, pert=rng.random() < pert, cfg=config(rng, cfg if rng.random() < 0.7 else 0.0)))
    return craft
