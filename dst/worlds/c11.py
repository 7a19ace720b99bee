"""C11: a tracker carries its latest target along, whatever the tracking graph."""
from .. import fleet
from .. import gen as G
from .. import seams
from .c01 import slack

RUNS = {"quick": 4000, "thorough": 80000}
RULE = ("Fleets of 2-5 spacecraft with skewed clocks; 4-30 tracking, retargeting and mode commands mixed with clock movements in both "
        "directions and burns, building chains, trees and cycles of trackers, with interrupted commands, stalls and restarts.")
STUB = []
SCOPE = ("step", "goto", "goto_of", "goto_slew", "fburn", "lvlh", "sun", "track", "acquire")
DAY = 86400.0
shrink = fleet.shrink


def setup():
    seams.load()


def gen(rng, tier):
    n = rng.choice((2, 2, 3, 3, 4, 5))
    craft = G.fleet(rng, n, skew=rng.choice((0.0, 0.5, 1.0)))
    w = dict(step=5, goto=8, goto_of=2, goto_slew=1, setstep=1, burn=1, fburn=2, lvlh=2.5, sun=2.5, track=12, acquire=2)
    for k in list(w):
        if k != "track" and rng.random() < 0.2:
            w[k] = 0
    ops = fleet.make_ops(rng, n, rng.randint(4, 30), w, lambda r: G.tick(r, big=0.01), abort=rng.choice((0, 0.08)), crash=rng.choice((0, 0.03)))
    return dict(craft=craft, ops=ops)


def after(f, op, info, pre, post, out):
    i, k = op["i"], info["kind"]
    if k == "setstep":
        return
    chain = f.closure(i)
    far = max(abs(p.t - q.t) for p in pre for q in post) * DAY
    for x in range(len(pre)):
        if f.echoed(i, x):
            continue
        if x != i and x not in chain and (pre[x].t, pre[x].r, pre[x].v) != (post[x].t, post[x].r, post[x].v):
            was = getattr(f, "was", [None] * len(pre))[i]
            f.fail("moved a spacecraft it does not track", "%s on %d moved %d%s" % (
                k, i, x, " (its former target)" if was == x else ""))
    if k in ("step", "goto", "fburn", "track", "acquire") and chain:
        f.ctx.count("nontrivial")
        f.ctx.probe("synchronised chain of %d" % len(chain))
        for n, x in enumerate(chain):
            err = (post[x].t - post[i].t) * DAY
            if not abs(err) <= slack(far) * (2 + n):
                f.fail("target left behind", "after %s on %d, its target %d (link %d) is %r s away from it" % (k, i, x, n + 1, err))
            if pre[x].t == post[x].t:
                break       # this one was already there: the command gave it no reason to carry its own target along
    f.was = list(f.tgt)


def run(plan, ctx):
    f = fleet.Fleet(plan, ctx, SCOPE)
    f.run(plan["ops"], after=after)
