"""C07: reported states are stable snapshots from which a run can resume."""
import copy
import hashlib
import json
import pickle

from .. import engine, fleet, script, seams
from ..engine import Violation
from ..script import plain
from ..seams import xyz

RUNS = {"quick": 10000, "thorough": 120000}
RULE = ("Half the runs keep everything a scenario handed out or was passed (states, positions, velocities, epochs, directions, observations, the arguments of commands), "
        "overwrite some of it between commands, and compare the rest with what it was and the scenario with an untouched one. The other half save states to a "
        "simulated disk (records lost, torn, or written by a handler in the middle of a command), kill the process up to three times, rebuild from the "
        "last intact record in a pristine process and compare what follows bit for bit with the run that never died.")
STUB = ["disk holding the saved states (records may be lost or torn)", "random draws inside observations are dictated by the simulator"]
CPU_LIMIT = 40.0


def setup():
    seams.load()


def gen(rng, tier):
    kind = rng.choice(("tamper", "crash"))
    p = script.gen_script(rng, rng.randint(3, 14))
    p["kind"] = kind
    if kind == "tamper":
        if len(p["craft"]) > 1 and rng.random() < 0.4:
            j = rng.randrange(1, len(p["craft"]))
            p["ops"].insert(0, dict(op="acquire", i=0, j=j))
            for _ in range(rng.randint(1, 5)):
                at = rng.randint(1, len(p["ops"]))
                p["ops"][at:at] = [dict(op="observe", i=0, j=j, cam=rng.choice("wn"), k=rng.gauss(0, 1), u=rng.random()),
                                   dict(op="deliver", i=0, pick=rng.random() * 0.999999)]
        for o in p["ops"]:
            o["tamper"] = [[rng.choice((rng.random(), 1 - rng.random() ** 3)), rng.random()] for _ in range(rng.choice((0, 0, 1, 2, 5)))]
        p["start"] = [[rng.random(), rng.random()] for _ in range(rng.choice((0, 1, 3)))]
        return p
    p["ops"] = [o for o in p["ops"] if o["op"] not in ("track", "acquire", "process", "deliver", "observe", "goto_of")]
    for o in p["ops"]:
        o["save"] = rng.choice(("ok", "ok", "lost", "torn", "none", "none"))
        if o["op"] in ("step", "burn") and rng.random() < 0.3:
            o["mid"] = rng.random()
    n = len(p["ops"])
    p["crashes"] = sorted(rng.randrange(n) for _ in range(rng.choice((1, 1, 2, 3)))) if n else []
    p["how"] = rng.choice(("numbers", "pickle", "pickle"))
    return p


# ---------------------------------------------------------------- snapshots
class Keeper(script.Script):
    """keeps what is handed out and passed in; overwrites some of it"""

    def __init__(self, plan, ctx, tamper):
        self.kept = []                # [label, object, value when handed over, still untouched]
        self.tampering = tamper
        S = seams.load()
        real = S.gcrf

        def gcrf(t, r, v):
            st = real(t, r, v)
            self.keep("state passed to the constructor", st)
            return st

        S.gcrf = gcrf
        try:
            super().__init__(plan, ctx)
        finally:
            S.gcrf = real
        if tamper:
            self.sites, self.hills = [], []
            for s in plan.get("sites", ()):
                lla = S.LLA(*s)
                self.sites.append(S.GroundSite(lla))
                self.keep("site coordinates", lla)
            for h in plan.get("hills", ()):
                st = S.HCW(S.Epoch(0.0), S.vec(h["r"]), S.vec(h["v"]))
                self.hills.append(S.Hill(st, h["a"]))
                self.keep("relative state passed in", st)
        self.init = [self.initial(i) for i in range(len(self.craft))]

    def initial(self, i):
        s = self.craft[i].initial_state
        return plain(s) + (s.use_perturbations,)

    def keep(self, label, obj):
        if hasattr(obj, "__dict__"):
            self.kept.append([label, obj, whole(obj), True])
        return obj

    def record(self):
        return super().record() + tuple(whole(c.current_state()) for c in self.craft)

    def call(self, op):
        S, k = self.S, op["op"]
        if not self.tampering:
            return super().call(op)
        c = self.craft[op["i"]]
        if k in ("goto", "goto_of", "goto_slew"):
            return c.step_to_epoch(self.keep("epoch passed to a command", S.Epoch(self.info["to"])))
        if k in ("burn", "fburn"):
            v = self.keep("burn passed to a command", S.vec(op["ric"]))
            return c.impulsive_maneuver(v) if k == "burn" else c.finite_maneuver(v)
        if k == "deliver":
            was = copy.deepcopy(self.obs[int(op["pick"] * len(self.obs))])
            ob = S.SpaceObservation(was.observer_state, was.observed_direction, was.range_error, was.angular_error)
            out = c.filter.process(ob)
            self.keep("observation processed", ob)
            self.keep("state passed to an observation", was.observer_state)
            self.keep("direction passed to an observation", was.observed_direction)
            return out
        out = super().call(op)
        if k == "observe":
            self.obs[-1] = copy.deepcopy(out)
        if isinstance(out, list):
            for x in out:
                self.keep("vector from a frame or ephemeris call", x)
        elif k != "hill":             # the relative propagator's own state, read in place
            self.keep("result of %s" % k, out)
        return out

    def hand_out(self, i):
        c = self.craft[i]
        self.keep("state", c.current_state())
        self.keep("position", c.position())
        self.keep("velocity", c.velocity())
        self.keep("epoch", c.current_epoch())
        self.keep("sun direction", c.sun_vector())
        self.keep("moon direction", c.moon_vector())
        self.keep("earth direction", c.earth_vector())
        if len(self.craft) > 1:
            t = self.craft[(i + 1) % len(self.craft)]
            self.keep("target direction", c.target_vector(t))
            self.keep("relative position", c.hill_position(t))

    def overwrite(self, frac, how):
        row = self.kept[min(len(self.kept) - 1, int(frac * len(self.kept)))]
        row[3] = False
        hit(row[1], how)
        self.ctx.fault("overwrote a %s" % row[0])
        return row[0]

    def stable(self, no, what):
        for label, obj, was, clean in self.kept:
            if clean and whole(obj) != was:
                raise Violation("snapshot changed", "a %s handed over earlier was changed by %s: it was %r, it is %r" % (label, what, was, whole(obj)), no)
        for i, s in enumerate(self.init):
            if self.initial(i) != s:
                raise Violation("initial state", "the initial state of spacecraft %d was changed by %s" % (i, what), no)


def whole(x):
    """a value with the six-vector of a state, which is public too"""
    v = getattr(x, "vector", None)
    return (plain(x), seams.six(v)) if hasattr(v, "vx") else plain(x)


def hit(x, how):
    """overwrite one thing inside x"""
    spots = []

    def walk(o, depth):
        for k, v in sorted(vars(o).items()):
            if isinstance(v, bool):
                spots.append((o, k, not v))
            elif isinstance(v, (int, float)):
                spots.append((o, k, v * 1.5 + 1.0))
            elif hasattr(v, "__dict__") and depth < 3:
                walk(v, depth + 1)

    walk(x, 0)
    if spots:
        o, k, v = spots[int(how * len(spots))]
        setattr(o, k, v)


def base_tamper(plan):
    tag, val = engine.forked(lambda: Keeper(plan, engine.Ctx(), False).history())
    if tag != "ok":
        raise engine.HarnessError("base run: %s" % (val,))
    return val


def run_tamper(plan, ctx):
    want = base_tamper(plan)
    k = Keeper(plan, ctx, True)

    def tamper(no, picks, what):
        for frac, how in picks:
            if not k.kept:
                continue
            rec = k.record()
            what_was = k.overwrite(frac, how)
            if k.record() != rec:
                raise Violation("spacecraft changed", "overwriting a %s changed the scenario (%s)" % (what_was, what), no)
        k.stable(no, "overwriting something else")

    tamper(-1, plan.get("start", ()), "at the start")
    for no, op in enumerate(plan["ops"]):
        got = k.do(op)
        ctx.schedule(op["op"], op["i"], len(op.get("tamper", ())))
        ctx.event(no, got)
        if got[0] not in ("skipped", "raised"):
            ctx.count("effective")
        k.stable(no, op["op"])
        if got != want[no]:
            raise Violation("tampering reached in", "command %d (%s) gave another result after objects handed over earlier were overwritten" % (no, op["op"]), no)
        if op["i"] < len(k.craft):
            k.hand_out(op["i"])
        tamper(no, op.get("tamper", ()), "after command %d" % no)
        ctx.state(op["op"], len(op.get("tamper", ())), k.mode[op["i"]] if op["i"] < len(k.craft) else None)
    ctx.count("objects watched", len(k.kept))
    ctx.count("nontrivial")


# ---------------------------------------------------------------- crash and resume
class Disk:
    """append-only file of records; a record may be lost or cut short"""

    def __init__(self, data=b""):
        self.data = data

    def append(self, obj, fate):
        body = pickle.dumps(obj).hex().encode()
        line = hashlib.sha256(body).hexdigest().encode() + b" " + body
        if fate == "torn":
            line = line[:len(line) // 2]
        if fate != "lost":
            self.data += line + b"\n"

    def last(self):
        for line in reversed(self.data.split(b"\n")):
            h, _, body = line.partition(b" ")
            if body and hashlib.sha256(body).hexdigest().encode() == h:
                return pickle.loads(bytes.fromhex(body.decode()))
        return None


def row(s):
    return [(q.t, q.r, q.v, q.x, q.y, q.z, q.prop, q.h) for q in s.snaps()]


class Life(script.Script):
    """one life of the process, from a saved record (or the start) until it is killed"""

    def __init__(self, plan, ctx, rec):
        super().__init__(plan, ctx)
        self.first = 0
        if rec is None:
            return
        S = self.S
        self.first = rec["next"]
        for i, c in enumerate(rec["craft"]):
            if plan["how"] == "pickle":
                st = pickle.loads(c["state"])
            else:
                n = json.loads(c["numbers"])
                st = S.gcrf(n[0], n[1], n[2])
                st.use_perturbations = c["pert"]
            new = S.Spacecraft(st)
            cfg = dict(plan["craft"][i].get("cfg", {}))
            cfg.update(propellant_mass=c["prop"], step=c["h"])
            fleet.configure(S, new, cfg)
            self.craft[i] = new
            self.mode[i] = c["mode"]
            if c["mode"] == "solar":
                new.track_sun()
        for h, st in zip(self.hills, rec["hills"]):
            h.state = pickle.loads(st)

    def image(self, nxt, mode=None):
        out = []
        for i, c in enumerate(self.craft):
            s = c.current_state()
            out.append(dict(state=pickle.dumps(s), numbers=json.dumps([s.epoch.value, xyz(s.position), xyz(s.velocity)]), pert=s.use_perturbations,
                            prop=c.propellant_mass, h=c.propagator.step_size, mode=self.mode[i]))
        return dict(next=nxt, craft=out, hills=[pickle.dumps(h.state) for h in self.hills])

    def live(self, until, disk):
        """rows after each command; killed after command `until` (its save may have happened)"""
        rows, mids = [], []
        for no in range(self.first, len(self.plan["ops"])):
            op = self.plan["ops"][no]
            if op.get("mid") is not None and not self.ready(op):
                twin = copy.deepcopy((self.craft, self.sites, self.hills))
                live = (self.craft, self.sites, self.hills)
                self.craft, self.sites, self.hills = twin
                try:
                    sites = seams.count_sites(lambda: self.call(op))
                finally:
                    self.craft, self.sites, self.hills = live
                pre = self.image(no)
                got = []
                if sites:
                    seams.with_handler(lambda: self.call(op), int(op["mid"] * sites), lambda: got.append(self.image(no)))
                else:
                    self.call(op)
                self.committed(op)
                post = self.image(no + 1)
                for g in got:
                    i = op["i"]
                    a, b, c = [x["craft"][i]["numbers"] for x in (g, pre, post)]
                    if a == c and a != b:
                        g = post
                    elif a != b:
                        mids.append((no, op["op"], a, b, c))
                    disk.append(g, "ok")
            else:
                self.do(op)
            rows.append(row(self))
            if op.get("save", "none") != "none":
                disk.append(self.image(no + 1), op["save"])
            if until is not None and no >= until:
                break
        return rows, mids, disk.data


def life(plan, rec, until, data):
    tag, val = engine.forked(lambda: Life(plan, engine.Ctx(), rec).live(until, Disk(data)))
    if tag == "ok":
        return val
    if tag == "error" and "openspace" in val.strip().splitlines()[-2] + "".join(val.strip().splitlines()[-4:]):
        raise Violation("exception", "the rebuilt scenario failed: %s" % val.strip().splitlines()[-1])
    raise engine.HarnessError("a life: %s" % (val,))


def run_crash(plan, ctx):
    n = len(plan["ops"])
    plain_plan = copy.deepcopy(plan)
    for o in plain_plan["ops"]:
        o.pop("mid", None)
        o["save"] = "none"
    want, _, _ = life(plain_plan, None, None, b"")
    for op in plan["ops"]:
        ctx.schedule(op["op"], op["i"], op.get("save"), op.get("mid") is not None)
    ctx.event(want)
    data, rec = b"", None
    stops = [c for c in plan["crashes"] if c < n] + [None]
    for g, stop in enumerate(stops):
        first = rec["next"] if rec else 0
        if stop is not None and stop < first:
            stop = min(first, n - 1)
        rows, mids, data = life(plan, rec, stop, data)
        for m in mids:
            raise Violation("torn save", "a state saved in the middle of command %d (%s) was %s, neither %s before nor %s after" % m, m[0])
        for x, got in enumerate(rows):
            no = first + x
            ctx.event(g, no, got)
            if got != want[no]:
                bad = [i for i in range(len(got)) if got[i] != want[no][i]]
                f = [("epoch", "position", "velocity", "x", "y", "z", "propellant", "step")[q] for q in range(8) if got[bad[0]][q] != want[no][bad[0]][q]]
                raise Violation("resumed differently", "life %d, resumed from after command %d: after command %d (%s) spacecraft %r differs in %s from the run that never died" % (
                    g, first - 1, no, plan["ops"][no]["op"], bad, f), no)
        if stop is not None:
            rec = Disk(data).last()
            ctx.fault("process killed")
            ctx.schedule("kill", stop, rec["next"] if rec else 0)
            lost = stop + 1 - (rec["next"] if rec else 0)
            if lost > 0:
                ctx.fault("resumed from an older record")
            ctx.state(plan["ops"][stop]["op"], min(lost, 5), plan["how"], plan["ops"][stop].get("save"), plan["ops"][stop].get("mid") is not None)
        ctx.count("effective", len(rows))
    for o in plan["ops"]:
        if o.get("save") in ("lost", "torn"):
            ctx.fault("record %s" % o["save"])
        if o.get("mid") is not None:
            ctx.fault("saved by a handler inside a command")
    ctx.sim(sum(abs(want[x][i][0] - want[x - 1][i][0]) * 86400 for x in range(1, n) for i in range(len(want[x]))))
    ctx.count("nontrivial")


def run(plan, ctx):
    (run_tamper if plan["kind"] == "tamper" else run_crash)(plan, ctx)


shrink = fleet.shrink
