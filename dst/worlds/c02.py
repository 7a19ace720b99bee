"""C02: every free flight segment follows the documented force model."""
import math

from .. import fleet, flight
from .. import gen as G
from .. import ref, seams

RUNS = {"quick": 4000, "thorough": 50000}
RULE = ("Fleets of 1-3 spacecraft (perturbed and two-body) on fifteen families of orbits, hyperbolas and in the Moon's neighbourhood, epochs 1860-2149 with "
        "midnight and J2000 boundaries; 3-14 commands in random order with backward, zero-length and day-long ticks, "
        "interrupted commands and restarts; every movement of every clock is compared with an independent integrator.")
STUB = ["random draws inside observations are scripted by the plan"]
SCOPE = ("step", "goto", "goto_of", "goto_slew")
DAY = 86400.0
shrink = fleet.shrink


def setup():
    seams.load()


def gen(rng, tier):
    n = rng.choice((1, 1, 2, 2, 3))
    craft = G.fleet(rng, n, cluster=0.4)
    whole, big = False, 0.04
    w = dict(step=6, goto=12, goto_of=2, setstep=2, burn=3, fburn=2, lvlh=1, sun=1, track=2, acquire=0.5, observe=1, detect=0.5)
    for k in list(w):
        if rng.random() < 0.2:
            w[k] = 0
    if rng.random() < 0.1:
        # beyond ordinary orbits: hyperbolas and the Moon's neighbourhood
        for c in craft:
            c["r"], c["v"] = G.escape(rng) if rng.random() < 0.5 else G.by_the_moon(rng, c["t"])
            c["t"] = craft[0]["t"]
        w.update(acquire=0, burn=0, fburn=0)
        big = 0.0
    elif rng.random() < 0.06:
        # clocks on whole fractions of a day, moved by whole numbers of steps
        for c in craft:
            c["t"] = float(int(c["t"])) + rng.choice((0.0, 0.25, 0.5, 0.75))
        w.update(step=0, fburn=0, goto_of=0)
        whole = True
    w["goto"] = w["goto"] or 1
    tick = (lambda r: G.sgn(r) * 2700.0 * r.randint(1, 8)) if whole else (lambda r: G.tick(r, big=big))
    ops = fleet.make_ops(rng, n, rng.randint(3, 14), w, tick, abort=rng.choice((0, 0.1)),
                         crash=rng.choice((0, 0.06)))
    plan = dict(craft=craft, ops=ops, probe=rng.random() < 0.02)
    if rng.random() < 0.015:
        for c in craft:
            c["pert"] = rng.random() < 0.15
        G.long_haul(rng, plan, pert_days=5.0)
    return plan


def movements(f, op, info, pre, post):
    """(spacecraft, seconds flown, single step?, slack) for every free flight this command caused"""
    i, k = op["i"], info["kind"]
    out = []
    cyc = f.cyclic(i) or any(f.cyclic(j) for j in f.closure(i))
    spread = max(abs(p.t - q.t) for p in pre for q in post) * DAY
    sync = 2e-6 * (2 + spread / 300)      # a target is re-synchronised to clock resolution, possibly in two hops
    slack = 10 * sync if cyc else 0.0
    if k == "goto":
        out.append((i, (info["to"] - pre[i].t) * DAY, False, slack))
    elif k == "step":
        out.append((i, pre[i].h, True, slack))
    if k in ("goto", "step", "fburn", "burn", "lvlh", "sun", "track", "acquire"):
        at, seen = i, {i}
        while f.mode[at] == "target" and f.tgt[at] not in seen:
            j = f.tgt[at]
            seen.add(j)
            out.append((j, (post[at].t - pre[j].t) * DAY, False, max(slack, sync)))
            at = j
    return out


def after(f, op, info, pre, post, out):
    i, k = op["i"], info["kind"]
    moves = movements(f, op, info, pre, post)
    for x, dt, single, slack in moves:
        if dt == 0 and not slack:
            if (pre[x].r, pre[x].v) != (post[x].r, post[x].v) and k != "burn":
                f.fail("moved without time", "%s moved spacecraft %d although its clock did not move" % (k, x))
            continue
        if pre[x].t == post[x].t and slack:
            continue
        bad = flight.mismatch(pre[x], post[x], dt, f.pert[x], single, slack)
        f.ctx.count("segments checked")
        f.ctx.probe("two-body segment" if not f.pert[x] else "perturbed segment")
        if bad:
            f.fail("trajectory" if f.pert[x] else "two-body trajectory",
                   "%s on %d: spacecraft %d flew %r s from epoch %r and ended %.3e km, %.3e km/s from the reference" % (
                       k, i, x, dt, pre[x].t, bad[0], bad[1]))
    moving = {m[0] for m in moves}
    for x in range(len(pre)):
        if f.cyclic(x) or f.echoed(i, x):
            continue
        if x not in moving and not (x == i and k in ("burn", "fburn")) and (pre[x].r, pre[x].v) != (post[x].r, post[x].v):
            f.fail("moved without command", "%s on %d changed the state of spacecraft %d" % (k, i, x))


def srp_probe(ctx):
    """known finding: the spacecraft works out its radiation-pressure coefficient, but no flight ever uses it"""
    S = seams.load()
    c = S.Spacecraft(S.gcrf(58000.0, (42164.17, 0.0, 0.0), (0.0, 3.07466, 0.0)))
    t0, r0, v0 = c.current_epoch().value, seams.xyz(c.position()), seams.xyz(c.velocity())
    c.step()
    k = (c.albedo + 1) * math.pi * (c.body_radius * 1000) ** 2 / (c.dry_mass + c.propellant_mass)
    away = ref.unit(ref.sub(r0, ref.sun(t0)))
    _, r1, _ = ref.rk4_step(t0, r0, v0, 300.0)
    moved = ref.dot(ref.sub(seams.xyz(c.position()), r1), away)
    want = 0.5 * 4.56e-6 * k / 1000 * 300.0 ** 2
    ctx.probe("radiation pressure probe")
    if abs(moved) < 0.01 * want:
        ctx.findings.append(("srp-dropped", "a default spacecraft coasting 300 s in GEO is displaced %.1e km by radiation pressure; its "
                             "coefficient implies %.1e km" % (moved, want)))


def run(plan, ctx):
    if plan.get("probe"):
        srp_probe(ctx)
    f = fleet.Fleet(plan, ctx, SCOPE)
    f.run(plan["ops"], after=after)
