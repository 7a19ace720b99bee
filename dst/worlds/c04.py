"""C04: independent scenarios never influence each other."""
import copy

from .. import engine, script
from .. import gen as G
from .. import seams
from ..engine import Violation

RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("Two to four independent scenarios (fleets, filters, relative propagators, ground sites; 3-14 commands each, some commands interrupted part-way) "
        "share one process; a seeded scheduler picks whose command runs next and when each scenario is created. Each scenario's bit-exact history is "
        "compared with the one it produces alone in a fresh process.")
STUB = ["random draws inside observations are dictated by the simulator, per command"]
LISTS = ("order",)
CPU_LIMIT = 40.0


def setup():
    seams.load()


def gen(rng, tier):
    m = rng.choice((2, 2, 3, 4))
    t0 = G.epoch(rng)
    scen = []
    for _ in range(m):
        near = t0 + rng.choice((0.0, 0.0, rng.uniform(-1e-3, 1e-3), rng.uniform(-2, 2))) if rng.random() < 0.7 else None
        scen.append(script.gen_script(rng, rng.randint(3, 14), abort=rng.choice((0, 0.15)), t0=near))
    for k in range(1, m):
        if rng.random() < 0.3:
            # the same spacecraft in two scenarios: twins that must not be coupled, possibly built from one state object
            scen[k]["craft"][0] = copy.deepcopy(scen[0]["craft"][0])
        if rng.random() < 0.15:
            # identical scenario: stale results of one would be invisible unless the histories are offset in time
            scen[k] = copy.deepcopy(scen[0])
            d = rng.choice((0.0, 1e-4, 0.5, 1.0))
            for c in scen[k]["craft"]:
                c["t"] += d
        elif rng.random() < 0.15:
            # almost the same scenario: results kept under a rounded key would be taken for each other's
            scen[k] = nudged(scen[0], rng, G.log(rng, 1e-13, 1e-3))
    if rng.random() < 0.04:
        # one of them flies for days
        s = scen[rng.randrange(m)]
        for c in s["craft"]:
            c["pert"] = False
        G.long_haul(rng, s, days=5.0)
    order = []
    pool = [k for k in range(m) for _ in scen[k]["ops"]]
    style = rng.choice(("shuffle", "round", "bursts"))
    if style == "shuffle":
        order = pool[:]
        rng.shuffle(order)
    elif style == "round":
        left = [len(s["ops"]) for s in scen]
        while any(left):
            for k in range(m):
                if left[k]:
                    left[k] -= 1
                    order.append(k)
    else:
        left = [len(s["ops"]) for s in scen]
        while any(left):
            k = rng.choice([x for x in range(m) if left[x]])
            n = min(left[k], rng.randint(1, 5))
            left[k] -= n
            order += [k] * n
    return dict(scen=scen, order=order, share=rng.random() < 0.4, late=rng.random() < 0.5, ops=order)


def nudged(scen, rng, eps):
    """a copy in which what the scenarios are about differs by about eps (relative)"""
    s = copy.deepcopy(scen)
    k = lambda x: x + eps * rng.uniform(-1, 1) * max(abs(x), 1e-3)
    what = rng.sample(("t", "orbit", "sites", "hills", "ticks"), rng.randint(1, 3))
    for c in s["craft"]:
        if "t" in what:
            c["t"] += eps * rng.choice((-1, 1))
        if "orbit" in what:
            c["r"], c["v"] = [k(x) for x in c["r"]], [k(x) for x in c["v"]]
    if "sites" in what:
        s["sites"] = [[k(x) for x in q] for q in s["sites"]]
    if "hills" in what:
        for h in s["hills"]:
            h.update(a=k(h["a"]), r=[k(x) for x in h["r"]], v=[k(x) for x in h["v"]])
    if "ticks" in what:
        for o in s["ops"]:
            if isinstance(o.get("dt"), float):
                o["dt"] = k(o["dt"])
    return s


def shorten(plan):
    """scenarios cut to the commands the order reaches"""
    out = []
    for k, s in enumerate(plan["scen"]):
        p = dict(s)
        p["ops"] = s["ops"][:plan["order"].count(k)]
        out.append(p)
    return out


def solo(p):
    tag, val = engine.forked(lambda: script.Script(p, engine.Ctx()).history())
    if tag != "ok":
        raise engine.HarnessError("solo run: %s" % (val,))
    return val



def run(plan, ctx):
    S = seams.load()
    scen = shorten(plan)
    alone = [solo(p) for p in scen]
    live = [None] * len(scen)
    done, off = [0] * len(scen), set()
    states = {}
    real_gcrf = S.gcrf

    def gcrf(t, r, v):
        key = (t, tuple(r), tuple(v))
        if key not in states:
            states[key] = real_gcrf(t, r, v)
        else:
            ctx.probe("two spacecraft built from one state object")
        return states[key]

    def start(k):
        if plan["share"]:
            S.gcrf = gcrf
        try:
            live[k] = script.Script(scen[k], ctx)
        finally:
            S.gcrf = real_gcrf

    if not plan["late"]:
        for k in range(len(scen)):
            start(k)
    last = None
    for no, k in enumerate(plan["order"]):
        if live[k] is None:
            start(k)
        op = scen[k]["ops"][done[k]]
        got = live[k].do(op)
        want = alone[k][done[k]]
        ctx.schedule(k, op["op"])
        ctx.event(no, k, got)
        if got[0] != "skipped":
            ctx.count("effective")
        if last is not None and last != k:
            ctx.fault("switch between scenarios")
        if got[0] == "raised":
            ctx.probe("a command failed on its own")
        last = k
        if k in off:
            done[k] += 1
            continue
        if got[0] == want[0] == "aborted" and got[1][0] != want[1][0]:
            # the failure struck at another point of the computation (something had been computed before and kept): what the
            # command had done by then may rightly differ, and so may all that follows
            ctx.count("failures that struck elsewhere than alone")
            off.add(k)
            done[k] += 1
            continue
        if got != want:
            raise Violation("interference", "scenario %d, command %d (%s) gave a different result beside other scenarios than alone" % (
                k, done[k], op["op"]), no)
        done[k] += 1
        ctx.state(k, op["op"], tuple(min(x, 4) for x in done))
    # and nothing done since has changed any of them
    for k, f in enumerate(live):
        if f is not None and alone[k] and k not in off:
            final = [h for h in alone[k] if h[0] not in ("skipped", "raised")]
            if final and alone[k][-1][0] not in ("raised", "skipped") and f.record() != alone[k][-1][2:]:
                raise Violation("interference", "scenario %d was changed by another after its last command" % k, len(plan["order"]))
    ctx.count("nontrivial")


def shrink(plan):
    for k in range(len(plan["scen"])):
        for i, c in enumerate(plan["scen"][k]["craft"]):
            for f in list(c.get("cfg", {})):
                p = copy.deepcopy(plan)
                del p["scen"][k]["craft"][i]["cfg"][f]
                yield p
    for f in ("share", "late"):
        if plan[f]:
            p = copy.deepcopy(plan)
            p[f] = False
            yield p
