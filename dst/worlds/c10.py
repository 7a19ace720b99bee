"""C10: attitude always matches the commanded mode at the current state."""
from .. import fleet
from .. import gen as G
from .. import ref, seams

RUNS = {"quick": 4000, "thorough": 80000}
RULE = ("Fleets of 1-4 spacecraft with skewed clocks; 4-30 attitude commands, retargetings, clock movements in both directions and burns "
        "in random order, with interrupted commands, stalls and restarts; axes are recomputed after every command.")
STUB = []
SCOPE = ("step", "goto", "goto_of", "goto_slew", "burn", "fburn", "lvlh", "sun", "track", "acquire")
DAY = 86400.0
TOL = 1e-8
shrink = fleet.shrink


def setup():
    seams.load()


def gen(rng, tier):
    n = rng.choice((1, 2, 2, 3, 3, 4))
    craft = G.fleet(rng, n, close=0.06)
    w = dict(step=5, goto=8, goto_of=2, goto_slew=2, setstep=1, burn=3, fburn=2, lvlh=5, sun=5, track=8, acquire=1)
    for k in list(w):
        if rng.random() < 0.2:
            w[k] = 0
    w["goto"] = w["goto"] or 1
    ops = fleet.make_ops(rng, n, rng.randint(4, 30), w, lambda r: G.tick(r, big=0.01), abort=rng.choice((0, 0.08)), crash=rng.choice((0, 0.05)))
    return dict(craft=craft, ops=ops)


def off(a, b):
    """angle between a and the direction b, inf for a zero or broken vector"""
    na = ref.norm(a)
    if not (na > 0 and na < 1e300):
        return float("inf")
    return ref.angle(a, b)


def perp(a, b):
    na, nb = ref.norm(a), ref.norm(b)
    if not (na > 0 and nb > 0):
        return float("inf")
    return abs(ref.dot(ref.unit(a), ref.unit(b)))


def axes(f, i, s, target, fuzz):
    """the attitude contract of spacecraft i in state s"""
    m = f.mode[i]
    x, y, z = s.x, s.y, s.z
    if x is None or y is None or z is None:
        f.fail("no attitude", "mode %s: a body axis is missing" % m)
    # resolution of a direction computed from positions known to double precision
    for p, q, n in ((x, y, "x,y"), (y, z, "y,z"), (z, x, "z,x")):
        if not perp(p, q) <= TOL + fuzz:
            f.fail("axes not perpendicular", "mode %s: axes %s are %r from perpendicular" % (m, n, perp(p, q)))
    if not ref.dot(ref.cross(ref.unit(x), ref.unit(y)), ref.unit(z)) > 0.999:
        f.fail("not right-handed", "mode %s: the body axes are not right-handed" % m)
    if m == "lvlh":
        if not off(z, ref.mul(s.r, -1)) <= TOL + fuzz:
            f.fail("earth pointing", "payload axis is %r rad off the Earth direction" % off(z, ref.mul(s.r, -1)))
        if not off(y, ref.cross(s.r, s.v)) <= TOL + fuzz:
            f.fail("orbit normal", "second axis is %r rad off the orbit normal" % off(y, ref.cross(s.r, s.v)))
    elif m == "solar":
        want = ref.sub(s.r, ref.sun(s.t))
        if not off(z, want) <= TOL + fuzz:
            f.fail("sun pointing", "payload axis is %r rad off the anti-Sun direction" % off(z, want))
        if not perp(x, (0.0, 0.0, 1.0)) <= TOL + fuzz:
            f.fail("sun mode x axis", "first axis is not perpendicular to the pole")
    else:
        d = ref.sub(target.r, s.r)
        res = 1e-11 * ref.norm(s.r) / max(ref.norm(d), 1e-9)
        if not off(z, d) <= TOL + fuzz + res:
            f.fail("target pointing", "payload axis is %r rad off the target %r km away" % (off(z, d), ref.norm(d)))
        su = ref.sub(ref.sun(s.t), s.r)
        if not perp(y, su) <= TOL + fuzz + res:
            f.fail("target mode y axis", "second axis is not perpendicular to the Sun direction")


def after(f, op, info, pre, post, out):
    i, k = op["i"], info["kind"]
    if k == "setstep":
        return
    cyc = f.cyclic(i) or any(f.cyclic(x) for x in f.closure(i))
    who = [i] + [x for x in f.closure(i) if x != i and pre[x].t != post[x].t]
    for x in who:
        t = post[f.tgt[x]] if f.mode[x] == "target" else None
        fuzz = 0.0
        if cyc and t is not None:
            spread = max(abs(p.t - q.t) for p in pre for q in post) * DAY
            # members of a cycle settle on a common epoch to clock resolution only
            rel = ref.norm(t.v)
            fuzz = 2e-5 * (2 + spread / 300) * rel / max(ref.norm(ref.sub(t.r, post[x].r)), 1e-9)
        axes(f, x, post[x], t, fuzz)
        f.ctx.probe("attitude checked in mode " + f.mode[x])
        f.ctx.count("nontrivial")


def run(plan, ctx):
    f = fleet.Fleet(plan, ctx, SCOPE)
    for i in range(len(f.craft)):
        axes(f, i, fleet.Snap(f.craft[i]), None, 0.0)
    f.run(plan["ops"], after=after)
