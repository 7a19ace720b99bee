"""A self-contained scenario executed one command at a time, each giving a bit-exact record (worlds C04, C05, C07, C15)."""
import zlib
from math import pi

from . import fleet
from . import gen as G
from . import kal, ref, seams
from .seams import six, xyz


def plain(x):
    """any result of the library as nested tuples of floats"""
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, dict):
        return tuple((k, plain(v)) for k, v in sorted(x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(plain(v) for v in x)
    if hasattr(x, "observed_direction"):
        s = x.observer_state
        return ("ob", s.epoch.value, xyz(s.position), xyz(s.velocity), xyz(x.observed_direction), x.range, x.range_error, x.angular_error)
    if hasattr(x, "vx"):
        return six(x)
    if hasattr(x, "z"):
        return xyz(x)
    if hasattr(x, "position") and hasattr(x, "epoch"):
        return (x.epoch.value, xyz(x.position), xyz(x.velocity))
    if hasattr(x, "value"):
        return x.value
    return tuple((k, plain(v)) for k, v in sorted(vars(x).items()))


class Script(fleet.Fleet):
    MAX_STEPS = 60

    def __init__(self, plan, ctx, shared=None):
        self.shared = shared
        super().__init__(plan, ctx, None)
        S = self.S
        self.hills = [S.Hill(S.HCW(S.Epoch(0.0), S.vec(h["r"]), S.vec(h["v"])), h["a"]) for h in plan.get("hills", ())]
        self.obs = []

    def ready(self, op):
        k = op["op"]
        if k in ("hill", "frames", "deliver", "kin", "plan", "idle", "resetstep"):
            self.info = dict(kind=k, i=op["i"])
            if op["i"] >= len(self.craft):
                return "no such craft"
            if k == "hill" and not self.hills:
                return "no propagator"
            if k == "deliver" and (not self.obs or not self.has_filter[op["i"]]):
                return "nothing to deliver"
            return None
        return super().ready(op)

    def call(self, op):
        S, k = self.S, op["op"]
        if k == "hill":
            h = self.hills[op.get("s", 0) % len(self.hills)]
            h.step_by_seconds(op["dt"]) if op.get("dt") is not None else h.step()
            return h.state.vector
        if k == "idle":
            return None
        if k == "frames":
            c = self.craft[op["i"]]
            p, t = c.position(), c.current_epoch()
            f = S.PositionConvert.gcrf.to_itrf(p, t)
            return [f, S.PositionConvert.itrf.to_gcrf(f, t), S.PositionConvert.itrf.to_lla(f), S.PositionConvert.gcrf.to_ijk(p, t),
                    S.Sun.get_position(t), S.Moon.get_position(t), t.greenwich_hour_angle(), c.current_state().derivative()]
        if k == "kin":
            e = S.ClassicalElements.from_ijk(S.IJK(self.craft[op["i"]].current_epoch(), self.craft[op["i"]].position(), self.craft[op["i"]].velocity()))
            return vars(e)
        if k == "plan":
            from openspace.planning.maneuvers import Hohmann
            r = ref.norm(xyz(self.craft[op["i"]].position()))
            return [vars(Hohmann(r, r * q)) for q in op["to"]]
        if k == "deliver":
            ob = self.obs[int(op["pick"] * len(self.obs))]
            return self.craft[op["i"]].filter.process(ob)
        out = super().call(op)
        if k == "observe":
            self.obs.append(out)
        return out

    def record(self):
        out = [s.key() for s in self.snaps()]
        ts = [s[0] for s in out]
        if self.last is not None:
            self.ctx.sim(sum(abs(a - b) for a, b in zip(ts, self.last)) * 86400)
        self.last = ts
        for i, c in enumerate(self.craft):
            if self.has_filter[i]:
                out.append(kal.Est(c.filter).key())
        for h in self.hills:
            out.append(six(h.state.vector))
        return tuple(out)

    def do(self, op):
        """execute one command; what a caller can see of it afterwards"""
        try:
            if op["op"] == "abort":
                why = self.ready(op["cmd"])
                if why:
                    return ("skipped",)
                path = []
                fired = self.abort(op, path)
                return ("aborted", (zlib.crc32(" ".join(path).encode()), bool(fired))) + self.record()
            why = self.ready(op)
            if why:
                return ("skipped",)
            out = self.call(op)
            self.committed(op)
            return (op["op"], plain(out)) + self.record()
        except (TimeoutError, seams.Injected):
            raise
        except Exception as e:  # noqa: BLE001 - how a command fails is part of the history
            from .engine import in_repo_tb
            if not in_repo_tb(e.__traceback__):
                raise
            return ("raised", type(e).__name__)

    def history(self):
        return [self.do(op) for op in self.plan["ops"]]


def gen_script(rng, count, n=None, abort=0.0, light=False, t0=None, sites=None):
    n = n or rng.choice((1, 2, 2, 3))
    craft = G.fleet(rng, n, cluster=0.7, cfg=0.4)
    for c in craft:
        if rng.random() < 0.4:
            c["cfg"]["inplace"] = G.inplace(rng)
    if t0 is not None:
        d = t0 - craft[0]["t"]
        for c in craft:
            c["t"] += d
    w = dict(step=6, goto=6, goto_of=1, burn=2, fburn=1, lvlh=2, sun=2, track=4, acquire=2, observe=4, process=4, detect=3, query=3, ground=3,
             setstep=1, hill=3, frames=3, deliver=2)
    for k in list(w):
        if rng.random() < 0.2:
            w[k] = 0
    w["step"] = w["step"] or 1
    tick = (lambda r: G.tick(r, big=0.0)) if not light else (lambda r: r.choice((-1, 1, 1)) * r.choice((1.0, 60.0, 300.0, 450.0, 700.0)))
    ops = []
    for o in fleet.make_ops(rng, n, count, w, tick, abort=abort, sites=2, burn_hi=0.02):
        if o["op"] == "hill":
            o.update(s=rng.randrange(2), dt=rng.choice((None, rng.uniform(-3000, 3000))))
        elif o["op"] == "deliver":
            o["pick"] = rng.random()
        ops.append(o)
    hills = []
    for _ in range(2):
        hills.append(dict(a=G.log(rng, 6700, 80000), r=[rng.gauss(0, 10) for _ in range(3)], v=[rng.gauss(0, 0.01) for _ in range(3)]))
    sites = [[rng.uniform(-pi / 2, pi / 2), rng.uniform(-pi, pi), rng.uniform(0, 3)] for _ in range(2)]
    return dict(craft=craft, ops=ops, hills=hills, sites=sites)


GROUPS = (dict(process=3, step=2), dict(process=1), dict(hill=1), dict(ground=3, step=1), dict(observe=2, query=1, detect=1), dict(observe=1), dict(acquire=2, step=1),
          dict(observe=1, deliver=2), dict(kin=1, plan=1), dict(plan=1), dict(lvlh=1, sun=1, track=1), dict(lvlh=1, sun=1), dict(burn=1, query=1), dict(fburn=1))


def gen_clinic(rng, group, t0):
    """many short commands of one kind, so that threads meet inside it"""
    p = gen_script(rng, 1, n=2, light=True, t0=t0)
    for c in p["craft"]:
        c["t"] = p["craft"][0]["t"]
        c["cfg"] = dict(G.config(rng, 0.8), **{k: v for k, v in c["cfg"].items() if k == "inplace"})
    ops = [dict(op="setstep", i=0, h=rng.choice((1.0, 10.0, 60.0, 300.0, -60.0))), dict(op="acquire", i=0, j=1)]
    for o in fleet.make_ops(rng, 2, rng.randint(3, 9), group, None, sites=2, burn_hi=1e-3):
        if o["op"] in ("process", "deliver", "step", "observe"):
            o["i"], o["j"] = 0, 1
        if o["op"] == "hill":
            o.update(s=rng.randrange(2), dt=rng.choice((None, rng.uniform(-3000, 3000))))
        elif o["op"] == "deliver":
            o["pick"] = rng.random()
        elif o["op"] == "plan":
            o["to"] = [G.log(rng, 0.5, 5) for _ in range(3)]
        ops.append(o)
    if "hill" in group or "plan" in group:
        ops = ops[2:]
    p["ops"] = ops
    return p
