"""C19: relative motion composes over any tick schedule."""
import copy
from math import pi, sqrt

from .. import gen as G
from .. import ref, seams
from ..engine import Violation

RUNS = {"quick": 12000, "thorough": 400000}
RULE = ("One to four relative propagators on orbits from LEO to beyond GEO, advanced by 3-40 interleaved ticks of microseconds to several days (some: years), "
        "forwards and backwards, with duplicated, zero-length and stalled ticks, changed default steps, restarts from the reported state and "
        "failures inside a step; every tick is compared with the closed form, and the whole schedule with one tick of the total time.")
STUB = []
LISTS = ("ops",)


def setup():
    seams.load()


def gen(rng, tier):
    n = rng.choice((1, 1, 2, 3, 4))
    hills = []
    for _ in range(n):
        a = rng.choice((6700.0, 7000.0, 42164.0, G.log(rng, 6600, 200000), G.log(rng, 6600, 2e6)))
        w = sqrt(ref.MU / a ** 3)
        d = G.log(rng, 1e-3, 500)
        r = [rng.choice((0.0, rng.gauss(0, d))) for _ in range(3)]
        v = [rng.choice((0.0, rng.gauss(0, d * w))) for _ in range(3)]
        if rng.random() < 0.2:
            v[1] = -2 * w * r[0]          # a closed relative orbit
        hills.append(dict(a=a, r=r, v=v, t=G.epoch(rng)))
    ops = []
    far = rng.random() < 0.15             # months to years
    for _ in range(rng.randint(3, 40)):
        i = rng.randrange(n)
        k = rng.random()
        if ops and k < 0.06:
            ops.append(dict(ops[-1]))
            continue
        if k < 0.60:
            dt = G.tick(rng, big=0.06, back=0.3)
            if rng.random() < 0.1:
                P = 2 * pi * sqrt(hills[i]["a"] ** 3 / ref.MU)
                dt = G.sgn(rng) * P * rng.choice((0.25, 0.5, 0.75, 1.0, 2.0, 1.5, 3.0))
            if far and rng.random() < 0.1:
                dt = G.sgn(rng) * G.log(rng, 1e6, 1e8)
            ops.append(dict(op="by", i=i, dt=dt))
        elif k < 0.80:
            ops.append(dict(op="step", i=i))
        elif k < 0.88:
            ops.append(dict(op="setstep", i=i, h=rng.choice((600.0, 60.0, 0.5, -60.0, G.step_size(rng), G.sgn(rng) * G.log(rng, 100, 3e5)))))
        elif k < 0.92:
            ops.append(dict(op="crash", i=i))
        elif k < 0.96:
            ops.append(dict(op="abort", i=i, dt=G.tick(rng), frac=rng.random(), exc=rng.choice(sorted(seams.INJECTED))))
        else:
            ops.append(dict(op="back", i=i))
    return dict(hills=hills, ops=ops)


def scaled(x, n):
    return max(abs(x[0]), abs(x[1]), abs(x[2]), abs(x[3]) / n, abs(x[4]) / n, abs(x[5]) / n)


def state(h):
    s = h.state
    return seams.xyz(s.position) + seams.xyz(s.velocity)


def check(x, want, n, tol, klass, msg, step):
    err = scaled([a - b for a, b in zip(x, want)], n)
    if not err <= tol:
        raise Violation(klass, "%s: off by %.3e km (allowed %.3e)" % (msg, err, tol), step)


def run(plan, ctx):
    S = seams.load()
    H, M = [], []
    for c in plan["hills"]:
        st = S.HCW(S.Epoch(c["t"]), S.vec(c["r"]), S.vec(c["v"]))
        h = S.Hill(st, c["a"])
        x0 = tuple(c["r"]) + tuple(c["v"])
        # what was passed in stays the caller's
        st.position.x += 1000.0
        st.epoch.value += 1.0
        n = sqrt(ref.MU / c["a"] ** 3)
        H.append(h)
        M.append(dict(n=n, x0=x0, T=0.0, span=0.0, k=0, top=scaled(x0, n), h=600.0, lo=0.0, hi=0.0))
        if state(h) != x0:
            raise Violation("start", "the propagator does not start at the state given", -1)
    prev = None
    for no, op in enumerate(plan["ops"]):
        i, k = op["i"], op["op"]
        if i >= len(H):
            continue
        h, m = H[i], M[i]
        n = m["n"]
        before = [state(x) for x in H]
        ctx.schedule(k, i)
        if k == "setstep":
            h.step_size = m["h"] = op["h"]
            continue
        if k == "crash":
            new = S.Hill(h.state, h.sma)
            new.step_size = h.step_size
            H[i] = new
            ctx.fault("crash and restart")
            if state(new) != before[i]:
                raise Violation("restart", "restarting from the reported state changed it", no)
            continue
        dt = op.get("dt", 0.0) if k in ("by", "abort") else (m["h"] if k == "step" else -m["T"])
        if abs(m["T"] + dt) > 3e8:
            ctx.count("skipped")
            continue
        if k == "abort":
            dry = copy.deepcopy(h)
            total = seams.count_sites(lambda: dry.step_by_seconds(dt))
            if not total:
                continue
            fired = seams.with_fault(lambda: h.step_by_seconds(dt), min(total - 1, int(op["frac"] * total)), op["exc"])
            ctx.fault("abort:" + op["exc"])
            if [state(x) for x in H] != before:
                raise Violation("half step", "a step that failed part-way moved the state", no)
            if fired == "swallowed":
                raise Violation("swallowed failure", "a failure inside a step was hidden from the caller", no)
            continue
        if k == "step":
            h.step()
        else:
            h.step_by_seconds(dt)
        x = state(h)
        ctx.event(no, k, i, x)
        ctx.count("effective")
        ctx.sim(dt)
        if dt < 0:
            ctx.fault("clock moved backwards")
        if abs(dt) < 1e-4:
            ctx.fault("zero or sub-resolution tick")
        if abs(dt) > 20000:
            ctx.fault("large clock jump")
        if prev == op:
            ctx.fault("duplicate tick")
        prev = op
        m["T"] += dt
        m["lo"], m["hi"] = min(m["lo"], m["T"]), max(m["hi"], m["T"])
        m["k"] += 1
        want = ref.cw(n, dt, before[i])
        m["top"] = max(m["top"], scaled(x, n), scaled(want, n)) if all(v == v for v in x) else m["top"]
        g = 10 + 6 * n * abs(dt)
        check(x, want, n, 3e-14 * g * max(scaled(before[i], n), 1e-12), "one tick", "%s of %r s" % (k, dt), no)
        G2 = (10 + 6 * n * (m["hi"] - m["lo"])) ** 2
        check(x, ref.cw(n, m["T"], m["x0"]), n, 1e-14 * (m["k"] + 1) * G2 * max(m["top"], 1e-12), "composition",
              "after %d ticks totalling %r s" % (m["k"], m["T"]), no)
        if tuple(seams.six(h.state.vector)) != x:
            raise Violation("inconsistent state", "state vector and position/velocity of the propagator differ", no)
        if (h.step_size, h.sma) != (m["h"], plan["hills"][i]["a"]):
            raise Violation("settings", "a tick changed the step size or orbit of the propagator", no)
        for j in range(len(H)):
            if j != i and state(H[j]) != before[j]:
                raise Violation("other propagator", "a tick of propagator %d moved propagator %d" % (i, j), no)
        ctx.state(len(H), i, k, (m["T"] > 0) - (m["T"] < 0), min(m["k"], 12))
        if k == "back":
            ctx.probe("returned to the starting time")
