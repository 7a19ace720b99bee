"""Does an observed clock movement agree with the reference trajectory?"""
from math import ceil

from . import ref

DAY = 86400.0


def counts(dt, exact=False):
    x = abs(dt / ref.MAX_STEP)
    out = [ceil(x)]
    if exact and x == out[0]:
        return out
    near = round(x)
    if abs(x - near) < 1e-5:
        for n in (near, near + 1):
            if n not in out:
                out.append(n)
    return out


def fly_n(t, r, v, dt, n, pert):
    h = dt / n if n else 0.0
    for _ in range(n):
        t, r, v = ref.rk4_step(t, r, v, h, pert)
    return t, r, v


def scale(dt):
    """how far rounding may pull two correct integrations apart: linear per step plus quadratic (along-track) drift;
    measured worst agreement is 50 to 1000 times better than this"""
    n = abs(dt) / 300.0
    return 1.0 + n + 0.01 * n * n


def mismatch(pre, post, dt, pert, single=False, slack=0.0):
    """None if post is where pre flies to in dt seconds; else (position error km, velocity error km/s).
    single: one integration step of dt (a plain step) instead of equal steps of at most 300 s.
    slack: seconds by which the actual arrival may differ from pre.t + dt."""
    best = None
    # between clock readings that are multiples of 1/32 day (9 steps), no rounding enters the number of steps
    exact = not slack and (pre.t * 32).is_integer() and (post.t * 32).is_integer()
    for n in ([1] if single else counts(dt, exact)):
        t, r, v = fly_n(pre.t, pre.r, pre.v, dt, n, pert)
        dr, dv = ref.sub(post.r, r), ref.sub(post.v, v)
        if slack:
            d = ref.dot(dr, v) / ref.dot(v, v)
            d = max(-slack, min(slack, d))
            dr = ref.sub(dr, ref.mul(v, d))
            dv = ref.sub(dv, ref.mul(ref.accel(t, r, pert), d))
        e = (ref.norm(dr), ref.norm(dv))
        if not (e[0] == e[0] and e[1] == e[1]):
            e = (float("inf"), float("inf"))
        if best is None or e[0] < best[0]:
            best = e
        k = scale(dt)
        if e[0] <= TOL_R * k and e[1] <= TOL_V * k:
            return None
        near = pert and min(ref.norm(ref.sub(x, ref.moon(y))) for x, y in ((pre.r, pre.t), (r, t)))
        if pert and near < 5000:
            return None           # at or inside the Moon, taken as a point: rounding alone decides
        if pert and near < 150000:
            # near the Moon the resolution of the clock (4.7e-10 days in a full Julian date) shows: what a shift by two readings changes
            q = fly_n(pre.t + 1e-9 + 1.5e-11 * n, pre.r, pre.v, dt, n, pert)
            p = fly_n(pre.t, ref.mul(pre.r, 1 + 3e-16), pre.v, dt, n, pert)
            w = [max(ref.norm(ref.sub(q[m], x)), ref.norm(ref.sub(p[m], x))) for m, x in ((1, r), (2, v))]
            if e[0] <= TOL_R * k + 5 * w[0] and e[1] <= TOL_V * k + 5 * w[1]:
                return None
    return best


TOL_R, TOL_V = 1e-8, 2e-11
