"""C12: the slew timer starts, runs and expires correctly."""
from .. import fleet
from .. import gen as G
from .. import ref, seams

RUNS = {"quick": 5000, "thorough": 100000}
RULE = ("Fleets of 1-4 spacecraft with random slew rates; 4-34 mode changes, retargetings and repeats, some while still slewing, mixed with "
        "irregular ticks, ticks landing just before and just after the end of a slew, backward jumps, burns, interruptions and restarts.")
STUB = []
SCOPE = ("step", "goto", "goto_of", "goto_slew", "burn", "fburn", "lvlh", "sun", "track", "acquire")
DAY = 86400.0
EDGE = 2e-5
shrink = fleet.shrink


def setup():
    seams.load()


def gen(rng, tier):
    n = rng.choice((1, 2, 2, 3, 3, 4))
    craft = G.fleet(rng, n, skew=rng.choice((0.0, 0.5)))
    for c in craft:
        if rng.random() < 0.6:
            c["cfg"]["slew_scalar"] = G.log(rng, *rng.choice(((0.5, 20000),) * 7 + ((1e-3, 0.5), (2e4, 3e5)))) / DAY
    w = dict(step=4, goto=6, goto_of=1, goto_slew=8, setstep=1, burn=1, fburn=1, lvlh=5, sun=5, track=8, acquire=1, observe=0.5, detect=0.5)
    for k in list(w):
        if rng.random() < 0.2:
            w[k] = 0
    w["sun"] = w["sun"] or 1
    ops = fleet.make_ops(rng, n, rng.randint(4, 34), w, lambda r: G.tick(r, big=0.01), abort=rng.choice((0, 0.06)), crash=rng.choice((0, 0.03)),
                         dup=rng.choice((0.02, 0.2)))
    return dict(craft=craft, ops=ops)


def before(f, op, info, pre):
    f.old = (list(f.mode), list(f.tgt))


def expiry(f, k, x, slewing, stop, post, sure, edge=0.0):
    """slewing flag after an update at post.t, given it was (slewing, stop) before it"""
    if post.stop != stop:
        f.fail("slew end changed", "%s changed the end of spacecraft %d's slew from %r to %r" % (k, x, stop, post.stop))
    if not slewing:
        if post.slew:
            f.fail("slew without command", "%s made spacecraft %d report slewing" % (k, x))
        return
    late = (post.t - stop) * DAY
    if late > edge:
        f.ctx.probe("slew expired")
        if post.slew and sure:
            f.fail("slew never ends", "%s: spacecraft %d still slewing %r s after the slew's end" % (k, x, late))
    elif late <= -edge:
        f.ctx.probe("slew still running" if late else "slew ends this very instant")
        if not post.slew:
            f.fail("slew ended early", "%s: spacecraft %d stopped slewing %r s before the slew's end" % (k, x, -late))


def after(f, op, info, pre, post, out):
    i, k = op["i"], info["kind"]
    c = f.craft[i]
    a, b = pre[i], post[i]
    mode0, tgt0 = f.old[0][i], f.old[1][i]
    starts = (k == "lvlh" and mode0 != "lvlh") or (k == "sun" and mode0 != "solar") or (
        k in ("track", "acquire") and (mode0 != "target" or tgt0 != op["j"]))
    cyc = f.cyclic(i)
    chain = f.closure(i)
    if starts:
        f.ctx.count("nontrivial")
        f.ctx.probe("slew started" + (" during a slew" if a.slew else ""))
        if b.stop is None:
            f.fail("no slew", "%s changed the attitude mode without starting a slew" % k)
        # the moving target is re-synchronised to clock resolution
        fuzz = 5e-8
        if k == "lvlh":
            new = ref.mul(b.r, -1)
        elif k == "sun":
            new = ref.sub(b.r, ref.sun(b.t))
        else:
            new = ref.sub(post[op["j"]].r, b.r)
            far = max(abs(p.t - q.t) for p in pre for q in post) * DAY
            fuzz += 2e-6 * (3 + far / 150) * ref.norm(b.v) / max(ref.norm(new), 1e-9) * (10 if cyc else 1)
        th = ref.angle(a.z, new)
        want = a.t + th * c.slew_scalar
        err = (b.stop - want) * DAY
        if not cyc and not abs(err) <= fuzz * c.slew_scalar * DAY + 3e-6:
            f.fail("slew length", "%s: a slew of %r rad at %r s/rad should end %r s from now, ends %r s from that" % (
                k, th, c.slew_scalar * DAY, th * c.slew_scalar * DAY, err))
        if (b.stop - b.t) * DAY >= (EDGE if cyc else 0.0) and not b.slew:
            f.fail("no slew", "%s changed the attitude mode but no slew is reported" % k)
    elif k in ("lvlh", "sun", "track", "acquire", "step", "goto", "burn", "fburn"):
        expiry(f, k, i, a.slew, a.stop, b, True, EDGE if cyc else 0.0)
    for x in range(len(pre)):
        if x == i and k not in ("setstep", "observe", "detect"):
            continue
        p, q = pre[x], post[x]
        if x in chain:
            expiry(f, k, x, p.slew, p.stop, q, p.t != q.t and not f.cyclic(x), EDGE if cyc or f.cyclic(x) else 0.0)
        elif f.echoed(i, x):
            continue
        elif (p.slew, p.stop) != (q.slew, q.stop):
            f.fail("bystander slew", "%s on %d changed the slew of %d" % (k, i, x))


def run(plan, ctx):
    f = fleet.Fleet(plan, ctx, SCOPE)
    f.run(plan["ops"], before=before, after=after)
