"""C06: an interrupted command leaves a usable, consistent spacecraft."""
import copy

from .. import fleet, kal
from .. import gen as G
from .. import ref, seams
from ..engine import Violation, in_repo_tb
from ..seams import state_tuple
from . import c10

RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("Fleets of 1-3 spacecraft run 2-14 commands; chosen commands (clock movements, burns, attitude commands, acquisitions, observation updates) are "
        "failed at a chosen numerical operation inside them (an interrupt, exhausted memory, an overflow or a division by zero), anywhere from the first "
        "operation to the last. The wreck is inspected, flown beside a fresh spacecraft, and the command repeated.")
STUB = ["random draws inside observations are dictated by the simulator"]
LISTS = ("ops",)
LEVEL = "fault_enumeration"
shrink = fleet.shrink
DAY = 86400.0
CLOCK = ("step", "goto", "goto_of", "goto_slew")
ATT = ("lvlh", "sun", "track")


def setup():
    seams.load()


def gen(rng, tier):
    n = rng.choice((1, 2, 2, 3))
    craft = G.fleet(rng, n, cfg=0.4)
    w = dict(step=4, goto=5, goto_of=1, goto_slew=1, setstep=1, burn=3, fburn=3, lvlh=3, sun=3, track=5, acquire=2, process=3, deliver=3, observe=2)
    for k in list(w):
        if rng.random() < 0.15:
            w[k] = 0
    w["goto"] = w["goto"] or 1
    ops = []
    if n > 1 and rng.random() < 0.35:
        # a tracker at work
        ops = [dict(op="acquire", i=0, j=1), dict(op="observe", i=0, j=1, cam="w", k=0.5, u=0.3)]
        w.update(process=8, deliver=8)
    for o in fleet.make_ops(rng, n, rng.randint(2, 14), w, lambda r: G.tick(r, big=0.0, back=0.3), burn_hi=0.1):
        if o["op"] == "deliver":
            o["pick"] = rng.random()
        if rng.random() < 0.35 and o["op"] not in ("setstep", "observe"):
            o["fault"] = dict(frac=rng.choice((0.0, rng.random(), rng.random(), rng.random() ** 4, 1 - rng.random() ** 4)),
                              last=rng.choice((None, None, rng.randint(1, 40))), exc=rng.choice(sorted(seams.INJECTED)),
                              dt=rng.choice((290.0, -290.0, 10.0, 451.0)))
        ops.append(o)
    return dict(craft=craft, ops=ops)


class Wrecks(fleet.Fleet):
    MAX_STEPS = 40

    def __init__(self, plan, ctx):
        super().__init__(plan, ctx, None)
        self.obs = []

    def ready(self, op):
        if op["op"] == "deliver":
            self.info = dict(kind="deliver", i=op["i"])
            return None if op["i"] < len(self.craft) and self.has_filter[op["i"]] and self.obs else "nothing to deliver"
        return super().ready(op)

    def call(self, op):
        if op["op"] == "deliver":
            return self.craft[op["i"]].filter.process(self.obs[int(op["pick"] * len(self.obs))])
        out = super().call(op)
        if op["op"] == "observe":
            self.obs.append(out)
        return out

    def est(self, i):
        f = getattr(self.craft[i], "filter", None)
        return None if f is None else kal.Est(f).key()

    def trial(self, op):
        """the command without the failure, on a copy: (sites passed, snapshots after, estimate after)"""
        live = (self.craft, self.sites, self.obs, self.S)
        S = self.S
        self.S = None
        twin = copy.deepcopy((self.craft, self.sites, self.obs))
        self.S = S
        self.craft, self.sites, self.obs = twin
        try:
            n = seams.count_sites(lambda: self.call(op))
            return n, self.snaps(), self.est(op["i"])
        finally:
            self.craft, self.sites, self.obs, _ = live

    def attempt(self, op, what):
        try:
            self.call(op)
        except (TimeoutError, seams.Injected):
            raise
        except Exception as e:  # noqa: BLE001
            if not in_repo_tb(e.__traceback__):
                raise
            self.fail("unusable", "after a failed %s, %s raised %r" % (op["op"], what, e))

    def flies(self, i, dt, k, loop):
        """spacecraft i flies exactly like a fresh one built from its reported state"""
        S = self.S
        twin = copy.deepcopy(self.craft)[i]
        fresh = S.Spacecraft(twin.current_state())
        fresh.propagator.step_size = twin.propagator.step_size
        cyc = loop or self.cyclic(i)
        try:
            for go in ("step", "goto"):
                t = fresh.current_epoch().value + dt / DAY
                for c in (fresh, twin):
                    c.step() if go == "step" else c.step_to_epoch(S.Epoch(t))
                a, b = state_tuple(twin.current_state()), state_tuple(fresh.current_state())
                if (a != b) if not cyc else not all(abs(x - y) < 1e-3 for x, y in zip(a, b)):
                    self.fail("flies differently", "after a failed %s, spacecraft %d's %s went to %r, a fresh spacecraft from the same state to %r" % (k, i, go, a, b))
        except (TimeoutError, Violation):
            raise
        except Exception as e:  # noqa: BLE001
            if not in_repo_tb(e.__traceback__):
                raise
            self.fail("unusable", "after a failed %s, moving spacecraft %d raised %r" % (k, i, e))

    def wreck(self, op):
        ctx = self.ctx
        k, i, fl = op["op"], op["i"], op["fault"]
        sites, goal, egoal = self.trial(op)
        if not sites:
            return False
        site = max(0, sites - fl["last"]) if fl["last"] else min(sites - 1, int(fl["frac"] * sites))
        pre, epre = self.snaps(), [self.est(x) for x in range(len(self.craft))]
        old = set(self.closure(i))
        fired = seams.with_fault(lambda: self.call(op), site, fl["exc"])
        if not fired:
            # the live command took fewer operations than its copy: nothing failed
            self.committed(op)
            return True
        post, epost = self.snaps(), [self.est(x) for x in range(len(self.craft))]
        ctx.fault("%s in %s" % (fl["exc"], k))
        ctx.count("nontrivial")
        ctx.state(k, min(20, int(20 * site / sites)), fl["exc"], tuple(self.mode))
        ctx.event("failed", k, i, site, [s.key() for s in post])
        if fired == "swallowed":
            if [s.key() for s in post] != [s.key() for s in goal] or epost[i] != egoal:
                self.fail("hidden failure", "a failure inside %s was hidden from the caller and the command went wrong" % k)
            self.committed(op)
            return True
        involved = {i} | old | ({op["j"]} | set(self.closure(op["j"])) if k in ("track", "acquire") else set())
        for x in range(len(pre)):
            if post[x].h != pre[x].h:
                self.fail("step size", "a failed %s changed the step of spacecraft %d from %r to %r" % (k, x, pre[x].h, post[x].h))
            if not 0 <= post[x].prop <= pre[x].prop:
                self.fail("propellant", "a failed %s took the propellant of spacecraft %d from %r to %r" % (k, x, pre[x].prop, post[x].prop))
            if x not in involved and post[x].key() != pre[x].key():
                self.fail("bystander", "a failed %s on %d changed spacecraft %d" % (k, i, x))
            if epost[x] != epre[x] and not (k == "acquire" and x == i and epost[x] == egoal):
                self.fail("filter", "a failed %s changed the estimate of spacecraft %d" % (k, x))
        # a tracking command that would close a cycle brings its spacecraft's own clock along, to clock resolution
        loop = self.cyclic(i) or (k in ("track", "acquire") and i in self.closure(op["j"]))
        if k not in CLOCK + ("fburn",) and not loop and post[i].t != pre[i].t:
            self.fail("clock", "a failed %s moved the clock of spacecraft %d" % (k, i))
        if k in CLOCK + ("fburn",):
            lo, hi = sorted((pre[i].t, goal[i].t))
            if not lo - 1e-9 <= post[i].t <= hi + 1e-9:
                self.fail("clock", "a failed %s took the clock from %r to %r, past its goal %r" % (k, pre[i].t, post[i].t, goal[i].t))
        if k == "burn" and (post[i].r, post[i].v) not in ((pre[i].r, pre[i].v), (goal[i].r, goal[i].v)):
            self.fail("half burn", "a failed burn left velocity %r, neither %r nor %r" % (post[i].v, pre[i].v, goal[i].v))
        if k in ATT:
            was, new, now = [(s.steer, s.stop) for s in (pre[i], goal[i], post[i])]
            same = now == was or (now[0] == new[0] and now[1] is not None and new[1] is not None and abs(now[1] - new[1]) < 1e-3)
            ctx.probe("attitude command failed before it was committed" if now == was else
                      "attitude command failed after it was committed" if same else "attitude command failed half committed")
        for x in sorted(involved):
            self.flies(x, fl["dt"], k, loop)
        # the caller tries again
        if k in CLOCK:
            self.retry_clock(op, goal, pre)
        elif k in ATT:
            self.retry_attitude(op, pre, goal)
        elif k in ("process", "deliver"):
            self.attempt(op, "repeating it")
            if self.est(i) != egoal:
                self.fail("reprocessing", "repeating a failed %s gave another estimate than if it had not failed" % k)
        elif k == "acquire":
            self.attempt(op, "repeating it")
            self.committed(op)
            if not self.cyclic(i):
                s = self.snaps()
                t = self.craft[i].filter
                p, v = ref.to_hcw(s[i].r, s[i].v, s[op["j"]].r, s[op["j"]].v)
                x = seams.six(t.x00)
                if t.epoch.value != s[i].t or not all(abs(a - b) < 1e-6 for a, b in zip(p + v, x)):
                    self.fail("reacquisition", "repeating a failed acquire did not start the filter at the relative state")
        elif k == "fburn" and post[i].t == pre[i].t:
            ctx.probe("finite burn failed before its first step")
        return True

    def retry_clock(self, op, goal, pre):
        i, S = op["i"], self.S
        fresh = S.Spacecraft(self.craft[i].current_state())
        fresh.propagator.step_size = self.craft[i].propagator.step_size
        if op["op"] == "step":
            fresh.step()
        else:
            fresh.step_to_epoch(S.Epoch(self.info["to"]))
        self.attempt(op, "repeating it")
        if not self.cyclic(i):
            a, b = state_tuple(self.craft[i].current_state()), state_tuple(fresh.current_state())
            if a != b:
                self.fail("retry", "repeating a failed %s went to %r instead of %r" % (op["op"], a, b))
            if op["op"] != "step" and abs(a[0] - goal[i].t) > 1e-10 * (8 + abs(goal[i].t - pre[i].t) * 576):
                self.fail("retry", "repeating a failed %s ended at %r instead of %r" % (op["op"], a[0], goal[i].t))
        self.settled(i)

    def retry_attitude(self, op, pre, goal):
        i, k = op["i"], op["op"]
        self.attempt(op, "repeating it")
        self.committed(op)
        s = self.snaps()[i]
        if s.steer != goal[i].steer:
            self.fail("retry", "repeating a failed %s left steering %r" % (k, s.steer))
        if not self.cyclic(i):
            sync = k != "track" or pre[op["j"]].t == pre[i].t
            tol = 0.0 if sync else 1e-9 + 0.02 * abs((goal[i].stop or 0.0) - pre[i].t)
            if (s.stop is None) != (goal[i].stop is None):
                self.fail("retry", "repeating a failed %s set no slew end" % k)
            if s.stop is not None and goal[i].stop is not None and not abs(s.stop - goal[i].stop) <= tol:
                if sync or ref.norm(ref.sub(goal[op["j"]].r, goal[i].r)) > 50:
                    self.fail("retry", "repeating a failed %s set the slew to end at %r instead of %r" % (k, s.stop, goal[i].stop))
            if s.slew != goal[i].slew and sync:
                self.fail("retry", "repeating a failed %s left slewing %r instead of %r" % (k, s.slew, goal[i].slew))
        self.settled(i)

    def settled(self, i):
        """attitude is right again once a command has succeeded"""
        if self.cyclic(i):
            return
        s = self.snaps()
        c10.axes(self, i, s[i], s[self.tgt[i]] if self.mode[i] == "target" else None, 0.0)

    def go(self):
        for no, op in enumerate(self.plan["ops"]):
            self.step_no = no
            if self.ready(op):
                self.ctx.count("skipped")
                continue
            self.ctx.schedule(op["op"], op["i"], op.get("j"), (op.get("fault") or {}).get("exc"))
            self.ctx.count("effective")
            pre = self.snaps()
            if "fault" in op and self.wreck(op):
                self.note(pre, self.snaps(), op)
                continue
            self.attempt(op, "the command")
            self.committed(op)
            post = self.snaps()
            self.note(pre, post, op)
            self.ctx.event(no, op["op"], [s.key() for s in post])


def run(plan, ctx):
    Wrecks(plan, ctx).go()
