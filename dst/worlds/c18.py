"""C18: tracking converges once observations flow again."""
import copy
from math import sqrt

from .. import gen as G
from .. import kal, ref, seams
from ..engine import Violation, in_repo_tb
from ..seams import six, xyz

RUNS = {"quick": 2400, "thorough": 40000}
SETTLE, TAIL = 30, 60
BOUND = 10.0
RULE = ("A tracker acquires a mis-placed seed of a target 1-50 km away and meets a fault period of up to 15 observation slots (observations lost, late and overtaken, "
        "duplicated, outliers of 3-8 sigma, blackouts, updates that fail part-way, small burns of the tracker), then 60 regular observations with normal noise. "
        "From the 30th on, the position error must stay within %g times the declared one-sigma accuracy plus 4%% of the separation." % BOUND)
STUB = ["random draws inside observations are dictated by the simulator (seeded normal draws, outliers in the fault period)"]
ASSUMPTIONS = ["Near-circular orbits at medium altitude and above, target within 50 km: the filter's linear dynamics have no process noise to absorb more."]
LISTS = ("ops",)
CPU_LIMIT = 60.0
DAY = 86400.0


def setup():
    seams.load()


def gen(rng, tier):
    geo = rng.random() < 0.65
    a = 42164.17 + rng.uniform(-50, 50) if geo else rng.uniform(15000, 30000)
    e = rng.uniform(0, 0.001)
    r, v = ref.kepler_state(a, e, rng.uniform(0, 3.1), rng.uniform(0, 6.28), rng.uniform(0, 6.28), rng.uniform(0, 6.28))
    d = G.log(rng, 1, 50 if geo else 20)
    n = sqrt(ref.MU / a ** 3)
    p = ref.mul(G.direction(rng), d)
    w = [rng.gauss(0, 0.3) * n * d, -2 * n * p[0] + rng.gauss(0, 0.05) * n * d, rng.gauss(0, 0.5) * n * d]
    ops = []
    for _ in range(rng.randint(0, 15)):
        o = dict(op=rng.choice(("ok", "ok", "lost", "late", "dup", "out", "gap", "abort", "burn")), k=[rng.gauss(0, 1), rng.gauss(0, 1)], u=rng.random(), pick=rng.random(),
                 flush=rng.random() < 0.5)
        if o["op"] == "out":
            o["k"] = [G.sgn(rng) * rng.uniform(3, 8), G.sgn(rng) * rng.uniform(3, 8)]
        elif o["op"] == "gap":
            o["dt"] = rng.uniform(300, 7200 if geo else 2400)
        elif o["op"] == "abort":
            o.update(frac=rng.random(), exc=rng.choice(sorted(seams.INJECTED)))
        ops.append(o)
    return dict(t=G.epoch(rng), a=a, e=e, r=list(r), v=list(v), p=list(p), w=w, pert=rng.random() < 0.7, cam=rng.choice("wn"),
                dp=[rng.gauss(0, 0.3) for _ in range(3)], dw=[rng.gauss(0, 1e-4) for _ in range(3)],
                dt=rng.choice((10.0, 30.0, 60.0, 120.0, 300.0) if geo else (10.0, 30.0, 60.0, 120.0)), ops=ops,
                tail=[[rng.gauss(0, 1), rng.gauss(0, 1), rng.random()] for _ in range(TAIL)], jitter=rng.choice((0.0, 0.0, 0.3)))


def run(plan, ctx):
    S = seams.load()
    t = plan["t"]
    base = S.gcrf(t, plan["r"], plan["v"])

    def make(p, w):
        rr = ref.from_hcw(plan["r"], plan["v"], p, w)
        st = S.gcrf(t, *rr)
        st.use_perturbations = plan["pert"]
        return S.Spacecraft(st)

    base.use_perturbations = plan["pert"]
    chief = S.Spacecraft(base)
    tgt = make(plan["p"], plan["w"])
    seed = make(ref.add(plan["p"], plan["dp"]), ref.add(plan["w"], plan["dw"]))
    now = [t]

    def tick(dt):
        now[0] += dt / DAY
        chief.step_to_epoch(S.Epoch(now[0]))
        ctx.sim(2 * dt)

    def sense(k, u):
        S.rand.set(list(k), u)
        return chief.observe_nfov(tgt) if plan["cam"] == "n" else chief.observe_wfov(tgt)

    def feed(ob):
        chief.filter.process(ob)
        ctx.count("effective")

    no = -1
    try:
        chief.acquire(seed)
        chief.track_state(tgt)
        late = []
        for no, o in enumerate(plan["ops"]):
            k = o["op"]
            ctx.schedule(k)
            tick(o["dt"] if k == "gap" else plan["dt"])
            if k == "gap":
                ctx.fault("blackout")
                continue
            if k == "lost":
                ctx.fault("observation lost")
                continue
            if k == "burn":
                # the tracker repositions itself: the filter restarts from its estimate
                ctx.fault("filter restarted after a maneuver")
                chief.impulsive_maneuver(S.vec([1e-5, -1e-5, 1e-5]))
                chief.acquire(tgt)
                continue
            ob = sense(o["k"], o["u"])
            if k == "late":
                late.append(ob)
                continue
            if k == "out":
                ctx.fault("outlier observation")
            if k == "abort":
                dry = copy.deepcopy(chief.filter)
                n = seams.count_sites(lambda: dry.process(ob))
                if n and seams.with_fault(lambda: chief.filter.process(ob), int(o["frac"] * n), o["exc"]):
                    ctx.fault("update failed part-way")
            feed(ob)
            if k == "dup":
                ctx.fault("observation duplicated")
                feed(ob)
            if late and o["flush"]:
                ctx.fault("observation late and out of order")
                feed(late.pop(int(o["pick"] * len(late))))
        sig, sep, worst = [], [], 0.0
        for m, (k1, k2, u) in enumerate(plan["tail"]):
            no = len(plan["ops"]) + m
            dt = plan["dt"] * (1 + plan["jitter"] * (2 * u - 1))
            tick(dt)
            ob = sense((k1, k2), u)
            feed(ob)
            truth = ref.to_hcw(xyz(chief.position()), xyz(chief.velocity()), xyz(tgt.position()), xyz(tgt.velocity()))[0]
            est = six(chief.filter.x00)[:3]
            D = ref.norm(truth)
            err = ref.norm(ref.sub(truth, est))
            sig.append(sqrt(ob.range_error ** 2 + (D * ob.angular_error) ** 2))
            sep.append(D)
            limit = BOUND * max(sig[-20:]) + 0.04 * max(sep)
            ratio = err / limit
            ctx.event(no, err, ratio)
            if m >= SETTLE:
                worst = max(worst, ratio)
                if not ratio <= 1:
                    raise Violation("not converged", "after %d regular observations the position error is %.6g km, declared accuracy %.3g km, separation %.3g km" % (
                        m + 1, err, max(sig[-20:]), D), no)
                ctx.count("converged observations checked")
    except (Violation, TimeoutError, seams.Injected):
        raise
    except Exception as e:  # noqa: BLE001
        if not in_repo_tb(e.__traceback__):
            raise
        raise Violation("exception:%s" % type(e).__name__, "tracking failed: %r" % e, no)
    ctx.probe("worst error below %s of the bound" % ("10%" if worst < 0.1 else "half" if worst < 0.5 else "all"))
    ctx.state(plan["cam"], plan["dt"], tuple(sorted(set(o["op"] for o in plan["ops"]))))
    ctx.count("nontrivial")


def shrink(plan):
    for f, v in (("pert", False), ("jitter", 0.0), ("dp", [0.0] * 3), ("dw", [0.0] * 3)):
        if plan[f] != v:
            p = copy.deepcopy(plan)
            p[f] = v
            yield p
