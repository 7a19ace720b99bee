"""C08: an impulsive burn changes velocity by exactly the commanded vector."""
from .. import fleet, flight
from .. import gen as G
from .. import ref, seams
from . import c02

RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("One or two spacecraft on fourteen families of orbits; 2-16 burns (axis-aligned, oblique, tiny, zero and large) mixed with "
        "coasts in both directions, step-size changes, attitude commands, interrupted commands and restarts.")
STUB = []
SCOPE = ("burn",)
DAY = 86400.0
shrink = fleet.shrink


def setup():
    seams.load()


def gen(rng, tier):
    n = rng.choice((1, 1, 2))
    craft = G.fleet(rng, n, pert=0.6)
    w = dict(burn=10, goto=5, step=3, setstep=2, fburn=0.7, lvlh=1, sun=1, track=1.5)
    ops = fleet.make_ops(rng, n, rng.randint(2, 16), w, lambda r: G.tick(r, big=0.01), abort=rng.choice((0, 0.1)),
                         crash=rng.choice((0, 0.06)), burn_hi=rng.choice((0.003, 0.3, 1.5, 1.5, 12.0)))
    for o in ops:
        if o["op"] == "setstep" and rng.random() < 0.2:
            o["h"] = G.sgn(rng) * rng.choice((450.0, 600.0, 1800.0, rng.uniform(300, 1800)))
        if o["op"] == "burn" and rng.random() < 0.03:
            o["ric"] = [0.0, 0.0, 0.0]
        elif o["op"] == "burn" and rng.random() < 0.06:
            o["ric"] = G.ric(rng, 1e-11, 1e-6)
    return dict(craft=craft, ops=ops)


def after(f, op, info, pre, post, out):
    i, k = op["i"], info["kind"]
    a, b = pre[i], post[i]
    if k == "burn":
        f.ctx.count("nontrivial")
        if f.cyclic(i):
            return
        if a.t != b.t:
            f.fail("epoch", "the burn moved the clock from %r to %r" % (a.t, b.t))
        e = ref.norm(ref.sub(b.r, a.r))
        if not e <= 1e-12 * ref.norm(a.r) + 1e-10:
            f.fail("position", "the burn moved the position by %r km" % e)
        want = ref.add(a.v, ref.ric_to_gcrf(a.r, a.v, op["ric"]))
        e = ref.norm(ref.sub(b.v, want))
        if not e <= 1e-12:
            f.fail("velocity", "burn %r: velocity is %r km/s away from the commanded change" % (op["ric"], e))
        if b.h != a.h:
            f.fail("step size", "the burn changed the configured step from %r to %r" % (a.h, b.h))
        if b.prop != a.prop or b.dry != a.dry:
            f.ctx.probe("mass changed by an impulsive burn")
        f.burned.add(i)
        for x in range(len(pre)):
            if x != i and x not in f.closure(i) and pre[x].key() != post[x].key():
                f.fail("bystander", "the burn of %d changed spacecraft %d" % (i, x))
    elif k in ("goto", "step") and i in f.burned and not f.cyclic(i):
        # the force model and the step survive the burn
        f.burned.discard(i)
        dt = (info["to"] - a.t) * DAY if k == "goto" else a.h
        bad = flight.mismatch(a, b, dt, f.pert[i], k == "step")
        if bad:
            f.fail("coast after burn", "%s of %r s after a burn ended %.3e km, %.3e km/s from the reference" % (k, dt, bad[0], bad[1]))


def run(plan, ctx):
    f = fleet.Fleet(plan, ctx, SCOPE)
    f.burned = set()
    f.run(plan["ops"], after=after)
