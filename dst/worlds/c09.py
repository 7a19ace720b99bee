"""C09: finite burns obey the rocket equation in mass, time and delta-v."""
from math import exp

from .. import fleet, flight
from .. import gen as G
from .. import ref, seams

RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("One or two spacecraft with random mass, flow rate and specific impulse; 2-12 finite burns, some given in parts, from "
        "under a second to several hours (many integration steps), mixed with coasts in both directions, impulsive burns, tracking, "
        "interrupted burns and restarts.")
STUB = []
SCOPE = ("fburn",)
DAY = 86400.0
shrink = fleet.shrink


def setup():
    seams.load()


def gen(rng, tier):
    n = rng.choice((1, 1, 1, 2))
    craft = G.fleet(rng, n, pert=0.6)
    for c in craft:
        if rng.random() < 0.6:
            c["cfg"].update(m_dot=G.log(rng, 2e-4, 1.0), isp=rng.uniform(60, 3000), dry_mass=G.log(rng, 20, 3000), propellant_mass=G.log(rng, 20, 3000))
        elif rng.random() < 0.15:               # from ion drives to upper stages
            c["cfg"].update(rng.choice((dict(m_dot=G.log(rng, 1e-6, 1e-4), isp=rng.uniform(2000, 10000), dry_mass=G.log(rng, 1, 200), propellant_mass=G.log(rng, 0.5, 50)),
                                        dict(m_dot=G.log(rng, 1, 300), isp=rng.uniform(200, 470), dry_mass=G.log(rng, 1000, 60000), propellant_mass=G.log(rng, 1000, 300000)))))
    w = dict(fburn=9, goto=5, step=2, setstep=1, burn=1, lvlh=0.7, sun=0.7, track=1)
    ops = fleet.make_ops(rng, n, rng.randint(2, 12), w, lambda r: G.tick(r, big=0.01), abort=rng.choice((0, 0.12)),
                         crash=rng.choice((0, 0.06)), burn_hi=rng.choice((0.02, 0.3, 1.0)))
    for o in ops:
        if o["op"] == "fburn":
            o["ric"] = list(ref.mul(ref.unit(o["ric"]), G.log(rng, rng.choice((1e-5, 1e-5, 1e-5, 1e-9)), rng.choice((0.02, 0.5, 2.0)))))
    out = []
    for o in ops:
        if o["op"] == "fburn" and rng.random() < 0.2:
            m = rng.randint(2, 4)
            out.extend(dict(op="fburn", i=o["i"], ric=[x / m for x in o["ric"]]) for _ in range(m))
        else:
            out.append(o)
    return dict(craft=craft, ops=out)


def after(f, op, info, pre, post, out):
    i, k = op["i"], info["kind"]
    a, b = pre[i], post[i]
    c = f.craft[i]
    if k == "fburn":
        f.ctx.count("nontrivial")
        used = a.prop - b.prop
        if not abs(used - info["use"]) <= 1e-13 * info["m0"] + 1e-9 * info["use"]:
            f.fail("propellant", "burn %r at %r kg: used %r kg, the rocket equation gives %r" % (op["ric"], info["m0"], used, info["use"]))
        if b.dry != a.dry:
            f.fail("dry mass", "the burn changed the dry mass")
        m = b.dry + b.prop
        if not abs(m - c.total_mass()) <= 1e-9 * m:
            f.fail("total mass", "total mass is %r, dry plus propellant %r" % (c.total_mass(), m))
        if f.mass[i] != a.dry + a.prop:
            # an interrupted burn or a restart came between: start a new sequence
            f.m0[i], f.dv[i] = a.dry + a.prop, 0.0
        f.mass[i] = m
        f.dv[i] += ref.norm(op["ric"])
        want = f.m0[i] * exp(-f.dv[i] / (c.isp * ref.G0))
        if not abs(m - want) <= 1e-11 * f.m0[i]:
            f.fail("mass over parts", "after %r km/s in parts the mass is %r kg; one burn would leave %r" % (f.dv[i], m, want))
        if b.h != a.h:
            f.fail("step size", "the burn changed the configured step from %r to %r" % (a.h, b.h))
        if f.cyclic(i):
            return
        moved = (b.t - a.t) * DAY
        if not abs(moved - info["T"]) <= 2e-6 * (3 + 2 * info["T"] / 300):
            f.fail("duration", "the burn should take %r s, the clock moved %r s" % (info["T"], moved))
        if info["T"] > 300:
            f.ctx.probe("burn longer than one integration step")
        if info["T"] > 3000:
            f.ctx.probe("burn longer than ten integration steps")
        t, r, v = ref.finite_burn(a.t, a.r, a.v, op["ric"], c.m_dot, info["m0"], c.isp, f.pert[i])
        er, ev = ref.norm(ref.sub(b.r, r)), ref.norm(ref.sub(b.v, v))
        s = flight.scale(info["T"]) * (1 + 10 * ref.norm(op["ric"]))
        # the burn's end is rounded to the clock's resolution: up to a microsecond of motion and thrust
        acc = c.m_dot * c.isp * ref.G0 / m + 0.01
        tolr = 2e-6 * ref.norm(v) + flight.TOL_R * s
        tolv = 2e-6 * acc + flight.TOL_V * s
        if not (er <= tolr and ev <= tolv):
            f.fail("thrust", "burn %r for %r s ended %.3e km, %.3e km/s from the reference (allowed %.1e, %.1e)" % (
                op["ric"], info["T"], er, ev, tolr, tolv))
        f.burned.add(i)
    else:
        for x in range(len(pre)):
            if pre[x].prop != post[x].prop:
                f.fail("propellant without burn", "%s changed the propellant of %d by %r kg" % (k, x, post[x].prop - pre[x].prop))
        if k in ("goto", "step") and i in f.burned and not f.cyclic(i):
            f.burned.discard(i)
            dt = (info["to"] - a.t) * DAY if k == "goto" else a.h
            bad = flight.mismatch(a, b, dt, f.pert[i], k == "step")
            if bad:
                f.fail("thrust after burn", "%s of %r s after a burn ended %.3e km, %.3e km/s from free flight" % (k, dt, bad[0], bad[1]))


def run(plan, ctx):
    f = fleet.Fleet(plan, ctx, SCOPE)
    f.burned = set()
    f.m0 = [c.dry_mass + c.propellant_mass for c in f.craft]
    f.mass = list(f.m0)
    f.dv = [0.0] * len(f.craft)
    f.run(plan["ops"], after=after)
