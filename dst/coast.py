"""Fine-grained coasting: a spacecraft is taken to an epoch in many small commands, so that the motion is the
continuous one to about 1e-8, with faults between and inside the commands."""
from math import sqrt

from . import gen as G
from . import ref, seams
from .seams import xyz

DAY = 86400.0
STEP = 0.012          # largest slice, in units of the local dynamical time sqrt(r^3/mu)


def gen(rng):
    """how a coast is cut up and what goes wrong on the way"""
    p = dict(cut=[rng.choice((1.0, 1.0, round(rng.uniform(0.2, 1), 3))) for _ in range(rng.randint(1, 4))], faults=[])
    for _ in range(rng.choice((0, 0, 1, 2, 4))):
        k = rng.choice(("crash", "abort", "again", "overshoot", "zero", "attitude"))
        f = dict(at=rng.random(), kind=k)
        if k == "abort":
            f.update(frac=rng.random(), exc=rng.choice(sorted(seams.INJECTED)))
        elif k == "overshoot":
            f["by"] = round(G.log(rng, 0.01, 20), 3)
        elif k == "attitude":
            f["mode"] = rng.choice(("lvlh", "sun"))
        p["faults"].append(f)
    return p


def fly(f, i, to, how):
    """take craft i of fleet f to epoch `to`; returns the number of slices"""
    S, ctx = f.S, f.ctx
    start = f.craft[i].current_epoch().value
    todo = sorted(how["faults"], key=lambda x: x["at"])
    n = 0
    while True:
        c = f.craft[i]
        t = c.current_epoch().value
        left = (to - t) * DAY
        if abs(left) < 2e-5:
            break
        r = ref.norm(xyz(c.position()))
        h = STEP * sqrt(r ** 3 / ref.MU) * how["cut"][n % len(how["cut"])]
        h = min(h, 299.0, abs(left))
        goal = to if h >= abs(left) - 1e-3 else t + (h if left > 0 else -h) / DAY
        n += 1
        if todo and (goal - start) >= todo[0]["at"] * (to - start):
            e = todo.pop(0)
            k = e["kind"]
            if k == "crash":
                f.crash(i)
                ctx.fault("crash and restart")
                c = f.craft[i]
            elif k == "abort":
                cmd = lambda: f.craft[i].step_to_epoch(S.Epoch(goal))
                total = max(1, seams.count_sites(lambda: S.Spacecraft(c.current_state()).step_to_epoch(S.Epoch(goal))))
                if seams.with_fault(cmd, int(e["frac"] * total), e["exc"]):
                    ctx.fault("abort:%s in goto" % e["exc"])
            elif k == "again":
                c.step_to_epoch(S.Epoch(goal))
                ctx.fault("duplicate command")
            elif k == "overshoot":
                s = e["by"] if left > 0 else -e["by"]
                c.step_to_epoch(S.Epoch(goal + s / DAY))
                ctx.fault("clock moved backwards")
            elif k == "zero":
                c.step_to_epoch(c.current_epoch())
                ctx.fault("zero or sub-resolution tick")
            elif k == "attitude":
                c.track_lvlh() if e["mode"] == "lvlh" else c.track_sun()
                ctx.fault("attitude command under way")
            ctx.schedule(k, n)
        c.step_to_epoch(S.Epoch(goal))
        ctx.sim((goal - t) * DAY)
        if n > 6000:
            f.fail("no progress", "a coast of %.0f s did not end after %d commands" % ((to - start) * DAY, n))
    return n
