"""C01: clocks go exactly where commanded and nowhere else."""
from .. import fleet
from .. import gen as G
from .. import ref, seams

RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("Fleets of 1-4 spacecraft on random orbits and epochs; 4-30 commands (steps, jumps, burns, attitude and tracking "
        "commands, observations, queries) in a random order, with backward, zero-length and day-long ticks, skewed and "
        "stalled clocks, repeated commands, commands interrupted by an exception, and process restarts.")
STUB = ["random draws inside observations are scripted by the plan"]
SCOPE = ("step", "goto", "goto_of", "goto_slew", "burn", "fburn", "lvlh", "sun", "track", "acquire", "setstep")
DAY = 86400.0
shrink = fleet.shrink


def setup():
    seams.load()


def gen(rng, tier):
    n = rng.choice((1, 2, 2, 3, 3, 4))
    craft = G.fleet(rng, n)
    w = dict(step=8, goto=12, goto_of=2, goto_slew=1, setstep=3, burn=3, fburn=3, lvlh=2, sun=2, track=4, acquire=1,
             observe=2, process=1, detect=2, query=2, ground=1)
    for k in list(w):
        if rng.random() < 0.25:
            w[k] = 0
    w["goto"] = w["goto"] or 1
    sites = [[rng.uniform(-1.5, 1.5), rng.uniform(0, 6.28), rng.uniform(0, 3)]]
    ops = fleet.make_ops(rng, n, rng.randint(4, 30), w, lambda r: G.tick(r, big=0.02), abort=rng.choice((0, 0.1)),
                         crash=rng.choice((0, 0.05)), sites=1)
    plan = dict(craft=craft, ops=ops, sites=sites)
    if rng.random() < 0.06:
        # last, because one very coarse step takes a low orbit anywhere
        i = rng.randrange(n)
        ops.append(dict(op="setstep", i=i, h=rng.choice((600.0, 900.0, 3600.0, -600.0, 300.001, rng.uniform(300, 1000)))))
        for _ in range(rng.choice((0, 0, 1, 1, 2))):       # the coarse step survives other commands
            k = rng.choice(("goto", "burn", "fburn", "lvlh", "sun"))
            ops.append(dict(op=k, i=i, **(dict(dt=G.tick(rng, big=0.0)) if k == "goto" else dict(ric=G.ric(rng)) if k in ("burn", "fburn") else {})))
        ops.append(dict(op="step", i=i))
    if rng.random() < 0.03:
        for c in craft[1:]:
            c["pert"] = False
        craft[0]["pert"] = rng.random() < 0.25
        G.long_haul(rng, plan)
    return plan


def slack(seconds):
    """clock resolution: an MJD double resolves about 0.6 microseconds and each integration step adds two roundings"""
    return 2e-6 * (2 + 2 * abs(seconds) / 300 + 1)


def after(f, op, info, pre, post, out):
    i, k = op["i"], info["kind"]
    a, b = pre[i], post[i]
    moved = (b.t - a.t) * DAY
    cyc = f.cyclic(i)
    fuzz = slack(max(abs(s.t - a.t) for s in pre) * DAY) if cyc else 0.0
    if k == "goto":
        err = (b.t - info["to"]) * DAY
        if not abs(err) <= slack((info["to"] - a.t) * DAY) + fuzz:
            f.fail("arrival", "commanded from %r to %r, arrived %r s off" % (a.t, info["to"], err))
    elif k == "step":
        if not abs(moved - a.h) <= 3e-6 + fuzz:
            f.fail("step length", "a step of %r s moved the clock by %r s" % (a.h, moved))
    elif k == "fburn":
        if not abs(moved - info["T"]) <= slack(info["T"]) + fuzz:
            f.fail("burn duration", "the burn should take %r s, the clock moved %r s" % (info["T"], moved))
    elif not abs(moved) <= fuzz:
        f.fail("clock moved by " + k, "%s moved the spacecraft's own clock by %r s" % (k, moved))
    if k == "setstep":
        if b.h != op["h"]:
            f.fail("step size", "configured step %r reads back %r" % (op["h"], b.h))
    for x in range(len(pre)):
        if not (x == i and k == "setstep") and pre[x].h != post[x].h:
            f.fail("step size", "%s changed the configured step of spacecraft %d from %r to %r" % (k, x, pre[x].h, post[x].h))
    allowed = set(f.closure(i)) | {i} if k in ("goto", "step", "burn", "fburn", "lvlh", "sun", "track", "acquire") else set()
    for x in range(len(pre)):
        if f.echoed(i, x):
            continue
        if x not in allowed and pre[x].t != post[x].t:
            f.fail("bystander clock", "%s on spacecraft %d moved the clock of %d, which it does not track, by %r s" % (
                k, i, x, (post[x].t - pre[x].t) * DAY))


def run(plan, ctx):
    f = fleet.Fleet(plan, ctx, SCOPE)
    f.run(plan["ops"], after=after)
