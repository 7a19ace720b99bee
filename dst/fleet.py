"""A fleet of real spacecraft under simulation: builds it, executes operations, and keeps the model state that
every fleet world needs (who steers how, who tracks whom).  Oracles are per world."""
import copy

from . import ref, seams
from .engine import Violation
from .seams import state_tuple, xyz

MODES = ("lvlh", "solar", "target")
DAY = 86400.0


class Snap:
    """everything observable of one spacecraft, as plain values"""

    __slots__ = ("t", "r", "v", "x", "y", "z", "prop", "dry", "h", "slew", "stop", "steer")

    def __init__(self, c):
        s = c.current_state()
        self.t = s.epoch.value
        self.r, self.v = xyz(s.position), xyz(s.velocity)
        self.x, self.y, self.z = (xyz(a) if a is not None else None for a in (getattr(c, n, None) for n in ("body_x", "body_y", "body_z")))
        self.prop, self.dry = c.propellant_mass, c.dry_mass
        self.h = c.propagator.step_size
        self.slew = bool(c.slewing)
        stop = getattr(c, "slew_stop", None)
        self.stop = None if stop is None else stop.value
        self.steer = c.steering

    def key(self):
        return tuple(getattr(self, n) for n in self.__slots__)

    def same(self, o):
        return self.key() == o.key()


def build(S, c):
    st = S.gcrf(c["t"], c["r"], c["v"])
    if not c.get("pert", True):
        st.use_perturbations = False
    sc = S.Spacecraft(st)
    configure(S, sc, c.get("cfg", {}))
    return sc


def configure(S, sc, cfg):
    for k, v in sorted(cfg.items(), key=lambda x: (x[0] not in ("wfov", "nfov"), x[0])):     # cameras before their limits
        if k in ("wfov", "nfov"):
            setattr(sc, k, S.Camera(v[0], v[1]))
        elif k == "limits":
            for a, b in v.items():
                setattr(sc.wfov.limits, a, b)
        elif k == "inplace":
            # settings changed on the hardware the spacecraft came with, instead of replacing it
            for path, x in v.items():
                o = sc
                *way, last = path.split(".")
                for name in way:
                    o = getattr(o, name)
                setattr(o, last, x)
        elif k == "step":
            sc.propagator.step_size = v
        else:
            setattr(sc, k, v)


class Fleet:
    MAX_STEPS = 900
    MAX_DAYS = 3

    def __init__(self, plan, ctx, scope=None):
        self.S = S = seams.load()
        self.plan, self.ctx = plan, ctx
        if plan.get("long"):
            self.MAX_STEPS, self.MAX_DAYS = 12000, 40
        self.scope = scope            # kinds of operation whose failure is this world's violation (None: all)
        self.craft = [build(S, c) for c in plan["craft"]]
        self.pert = [c.get("pert", True) for c in plan["craft"]]
        n = len(self.craft)
        self.mode = ["lvlh"] * n
        self.tgt = [None] * n
        self.stalled = [0.0] * n
        self.step_no = 0
        self.has_filter = [False] * n
        self.sites = [S.GroundSite(S.LLA(*s)) for s in plan.get("sites", ())]
        self.last = None

    # ------------------------------------------------------------ model queries
    def closure(self, i):
        """who moves when i's clock moves: what it tracks, transitively (i itself excluded unless in a cycle)"""
        out, k = [], i
        while self.mode[k] == "target":
            k = self.tgt[k]
            if k in out:
                break
            out.append(k)
        return out

    def cyclic(self, i):
        return i in self.closure(i)

    def echoed(self, i, x):
        """a command that closes a cycle brings i to its new target's epoch through that target while i still tracks its old
        one, so what i tracked when the command was given may be synchronised one last time"""
        return self.cyclic(i) and x in self.oldchain

    def snaps(self):
        return [Snap(c) for c in self.craft]

    def fail(self, klass, msg):
        raise Violation(klass, msg, self.step_no)

    # ------------------------------------------------------------ execution
    def cost(self, i, to, extra=()):
        n = abs(to - self.craft[i].current_epoch().value) * DAY / 300
        for k in set(self.closure(i)) | set(extra):
            n += abs(to - self.craft[k].current_epoch().value) * DAY / 300
        return n

    def orbit_ok(self, r, v):
        return ref.bound(r, v)

    def ready(self, op):
        """None if the operation may run now, else why it is skipped; fills in what execution needs"""
        k, i = op["op"], op["i"]
        n = len(self.craft)
        if i >= n:
            return "no such craft"
        if "j" in op and (op["j"] >= n or (op["j"] == i)):
            return "no such target"
        c = self.craft[i]
        t = c.current_epoch().value
        info = self.info = dict(kind=k, i=i)
        if k == "step":
            to = t + c.propagator.step_size / DAY
            if self.cost(i, to) > self.MAX_STEPS:
                return "too long"
            info["to"] = to
        elif k in ("goto", "goto_of", "goto_slew"):
            if k == "goto":
                to = t + op["dt"] / DAY
            elif k == "goto_of":
                to = self.craft[op["j"]].current_epoch().value
            else:
                stop = getattr(c, "slew_stop", None)
                if stop is None:
                    return "no slew"
                to = stop.value + op["dt"] / DAY
            if self.cost(i, to) > self.MAX_STEPS or abs(to - t) > self.MAX_DAYS:
                return "too long"
            info["to"] = to
            info["kind"] = "goto"
        elif k in ("burn", "fburn"):
            r, v = xyz(c.position()), xyz(c.velocity())
            dv = ref.ric_to_gcrf(r, v, op["ric"])
            if not self.orbit_ok(r, ref.add(v, dv)):
                return "unsafe burn"
            if k == "fburn":
                mag = ref.norm(op["ric"])
                m0 = c.dry_mass + c.propellant_mass
                use = ref.burn_mass(m0, mag, c.isp)
                T = use / c.m_dot
                if use > 0.9 * c.propellant_mass:
                    return "not enough propellant"
                if T > 40000 or self.cost(i, t + T / DAY) > self.MAX_STEPS:
                    return "too long"
                if T > 3000:
                    # long burns turn the orbit: check the far end too
                    _, r2, v2 = ref.finite_burn(t, r, v, op["ric"], c.m_dot, m0, c.isp, False)
                    if not self.orbit_ok(r2, v2):
                        return "unsafe burn"
                info.update(use=use, T=T, m0=m0, to=t + T / DAY)
        elif k in ("track", "acquire"):
            j = op["j"]
            if self.cost(j, t, [j]) > self.MAX_STEPS:
                return "too long"
            if max(abs(self.craft[x].current_epoch().value - t) for x in [j] + self.closure(j)) > self.MAX_DAYS:
                return "too long"
        elif k in ("process",):
            if not self.has_filter[i]:
                return "no filter"
        elif k == "ground":
            if not self.sites:
                return "no site"
        return None

    def call(self, op):
        """the real command"""
        S, k, c = self.S, op["op"], self.craft[op["i"]]
        tgt = self.craft[op["j"]] if "j" in op else None
        if S.rand is not None and S.rand.scripted:
            S.rand.set(op.get("k", 0.0), op.get("u", 0.0))
        if k == "step":
            return c.step()
        if k in ("goto", "goto_of", "goto_slew"):
            return c.step_to_epoch(S.Epoch(self.info["to"]))
        if k == "burn":
            return c.impulsive_maneuver(S.vec(op["ric"]))
        if k == "fburn":
            return c.finite_maneuver(S.vec(op["ric"]))
        if k == "lvlh":
            return c.track_lvlh()
        if k == "sun":
            return c.track_sun()
        if k == "track":
            return c.track_state(tgt)
        if k == "acquire":
            return c.acquire(tgt)
        if k == "observe":
            return c.observe_nfov(tgt) if op.get("cam") == "n" else c.observe_wfov(tgt)
        if k == "process":
            return c.process_nfov(tgt) if op.get("cam") == "n" else c.process_wfov(tgt)
        if k == "detect":
            return c.detect(tgt)
        if k == "query":
            return dict(range=c.range(tgt), sun=c.sun_angle(tgt), moon=c.moon_angle(tgt), earth=c.earth_angle(tgt),
                        mag=c.visual_magnitude(tgt), hill=xyz(c.hill_position(tgt)), sma=c.sma())
        if k == "ground":
            return self.sites[op.get("s", 0) % len(self.sites)].angles_and_range(c)
        if k == "setstep":
            c.propagator.step_size = op["h"]
            return None
        raise ValueError("unknown operation %r" % k)

    def committed(self, op):
        """update the model after a successful command"""
        k, i = op["op"], op["i"]
        if k == "lvlh":
            self.mode[i], self.tgt[i] = "lvlh", None
        elif k == "sun":
            self.mode[i], self.tgt[i] = "solar", None
        elif k in ("track", "acquire"):
            self.mode[i], self.tgt[i] = "target", op["j"]
            if k == "acquire":
                self.has_filter[i] = True

    def crash(self, i):
        """the process holding spacecraft i dies and is restarted from its reported state"""
        old = self.craft[i]
        new = self.S.Spacecraft(old.current_state())
        cfg = dict(self.plan["craft"][i].get("cfg", {}))
        cfg["propellant_mass"] = old.propellant_mass
        cfg["step"] = old.propagator.step_size
        configure(self.S, new, cfg)
        self.craft[i] = new
        self.mode[i], self.tgt[i] = "lvlh", None
        self.has_filter[i] = False

    def abort(self, op, path=None):
        """the command is interrupted part-way; the caller gives up on it"""
        frac, kind = op["frac"], op["exc"]
        dry = copy.deepcopy((self.craft, self.sites))
        live = (self.craft, self.sites)
        self.craft, self.sites = dry
        try:
            total = seams.count_sites(lambda: self.call(op["cmd"]))
        finally:
            self.craft, self.sites = live
        if total == 0:
            return None
        k = min(total - 1, int(frac * total))
        fired = seams.with_fault(lambda: self.call(op["cmd"]), k, kind, path)
        if fired:
            self.ctx.fault("abort:%s in %s" % (kind, op["cmd"]["op"]))
        return fired

    def run(self, ops, before=None, after=None):
        """execute the plan; before/after are the world's oracles"""
        ctx = self.ctx
        prev = None
        for n, op in enumerate(ops):
            self.step_no = n
            inner = op["cmd"] if op["op"] == "abort" else op
            if op["op"] == "crash":
                i = op["i"]
                if i >= len(self.craft) or any(self.tgt[j] == i for j in range(len(self.craft))):
                    ctx.count("skipped")
                    continue
                self.crash(i)
                ctx.fault("crash and restart")
                ctx.schedule("crash", i)
                continue
            why = self.ready(inner)
            if why:
                ctx.count("skipped")
                continue
            i = inner["i"]
            pre = self.snaps()
            if op["op"] == "abort":
                if inner["op"] in ("track", "acquire", "lvlh", "sun", "process"):
                    continue
                self.abort(op)
                ctx.schedule("abort", inner["op"], i)
                self.note(pre, self.snaps(), inner)
                prev = None
                continue
            self.oldchain = self.closure(i)
            if before:
                before(self, op, self.info, pre)
            try:
                out = self.call(op)
            except (Violation, seams.Injected, TimeoutError):
                raise
            except Exception as e:  # noqa: BLE001
                from .engine import in_repo_tb
                if not in_repo_tb(e.__traceback__):
                    raise
                if self.scope is None or op["op"] in self.scope:
                    self.fail("exception:%s in %s" % (type(e).__name__, op["op"]), "%s failed: %r" % (op["op"], e))
                ctx.count("out of scope failure")
                return
            self.committed(op)
            post = self.snaps()
            ctx.count("effective")
            ctx.count("op:" + op["op"])
            ctx.schedule(op["op"], i, op.get("j"))
            ctx.event(n, op["op"], i, [s.key() for s in post])
            self.note(pre, post, op)
            if prev == op and op["op"] != "step":
                ctx.fault("duplicate command")
            prev = op
            if after:
                after(self, op, self.info, pre, post, out)

    def note(self, pre, post, op):
        """bookkeeping of faults that fired and states reached"""
        ctx = self.ctx
        i = op["i"]
        dt = (post[i].t - pre[i].t) * DAY
        for k in range(len(post)):
            ctx.sim((post[k].t - pre[k].t) * DAY)
        if dt < -1e-4:
            ctx.fault("clock moved backwards")
        if abs(dt) > 20000:
            ctx.fault("large clock jump")
        if op["op"] in ("goto", "goto_of", "goto_slew") and abs(dt) < 1e-4:
            ctx.fault("zero or sub-resolution tick")
        for k in range(len(post)):
            if post[k].t == pre[k].t:
                self.stalled[k] += abs(dt)
                if self.stalled[k] > 3600:
                    ctx.fault("stalled spacecraft (>1 h behind)")
                    self.stalled[k] = 0.0
            else:
                self.stalled[k] = 0.0
        ts = [s.t for s in post]
        if len(ts) > 1 and max(ts) - min(ts) > 1e-3 / DAY:
            ctx.probe("clocks skewed between spacecraft")
        ctx.state(tuple(self.mode), tuple(self.tgt), tuple(s.slew for s in post),
                  tuple((s.t > ts[0]) - (s.t < ts[0]) for s in post), tuple(s.h > 0 for s in post))
        g = self.closure(i)
        if len(g) >= 2:
            ctx.probe("tracking chain of 2+")
        if i in g:
            ctx.probe("tracking cycle")


# ---------------------------------------------------------------- generation
def make_ops(rng, n, count, w, tick, ric=None, abort=0.0, crash=0.0, dup=0.05, sites=0, burn_hi=0.05):
    """count operations on n spacecraft with operation weights w"""
    from . import gen
    kinds = list(w)
    ops = []
    focus = rng.randrange(n)
    for _ in range(count):
        if ops and rng.random() < dup:
            ops.append(copy.deepcopy(ops[-1]))
            continue
        k = rng.choices(kinds, [w[x] for x in kinds])[0]
        i = focus if rng.random() < 0.45 else rng.randrange(n)
        op = dict(op=k, i=i)
        if k in ("track", "acquire", "observe", "process", "detect", "query", "goto_of"):
            if n < 2:
                continue
            op["j"] = rng.choice([x for x in range(n) if x != i])
        if k == "goto":
            op["dt"] = tick(rng)
        elif k == "goto_slew":
            op["dt"] = rng.choice((-5.0, -1.0, -1e-3, 1e-3, 1.0, 5.0, 0.05, -0.05, 0.0, 0.0))
        elif k == "setstep":
            op["h"] = gen.step_size(rng)
        elif k in ("burn", "fburn"):
            op["ric"] = gen.ric(rng, hi=burn_hi)
        elif k in ("observe", "process"):
            op.update(cam=rng.choice("wn"), k=round(rng.choice((0.0, 1.0, -1.0, rng.gauss(0, 1.5))), 6), u=rng.choice((0.0, 0.25, 0.5, rng.random())))
        elif k == "ground":
            op["s"] = rng.randrange(max(1, sites))
        if k in ("goto", "step", "fburn", "goto_of", "burn") and rng.random() < abort:
            op = dict(op="abort", cmd=op, i=i, frac=rng.choice((0.0, 0.999999, rng.random(), rng.random() ** 3)), exc=rng.choice(sorted(seams.INJECTED)))
        elif rng.random() < crash:
            op = dict(op="crash", i=i)
        ops.append(op)
        if rng.random() < 0.15:
            focus = rng.randrange(n)
    return ops


def shrink(plan):
    """simpler plans: fewer craft properties, rounder numbers"""
    for n, c in enumerate(plan["craft"]):
        for k in list(c.get("cfg", {})):
            p = copy.deepcopy(plan)
            del p["craft"][n]["cfg"][k]
            yield p
        if not c.get("pert", True):
            p = copy.deepcopy(plan)
            p["craft"][n]["pert"] = True
            yield p
    if len(plan["craft"]) > 1:
        last = len(plan["craft"]) - 1
        if not any(o.get("i") == last or o.get("j") == last or o.get("cmd", {}).get("i") == last or o.get("cmd", {}).get("j") == last for o in plan["ops"]):
            p = copy.deepcopy(plan)
            p["craft"].pop()
            yield p
    for n, o in enumerate(plan["ops"]):
        if o["op"] == "abort":
            continue
        if "dt" in o and o["op"] == "goto":
            for v in (300.0, 60.0, 1.0, float(round(o["dt"]))):
                if o["dt"] != v and (abs(v) < abs(o["dt"]) or v == round(o["dt"])):
                    p = copy.deepcopy(plan)
                    p["ops"][n]["dt"] = v
                    yield p
