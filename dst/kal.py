"""Trackers, targets and the lossy link between sensor and filter (worlds C17, C18 and the filter part of C06)."""
import copy

from . import fleet
from . import gen as G
from . import ref, seams
from .engine import Violation
from .seams import mat6, six, xyz

DAY = 86400.0


class Est:
    """a filter's estimate as plain values"""

    __slots__ = ("t", "x", "P", "ps", "n")

    def __init__(self, f):
        self.t = f.epoch.value
        self.x = six(f.x00)
        self.P = mat6(f.p00)
        s = f.propagator.state
        self.ps = xyz(s.position) + xyz(s.velocity)
        self.n = f.propagator.n

    def key(self):
        return (self.t, self.x, tuple(map(tuple, self.P)), self.ps, self.n)


def ob_key(ob):
    s = ob.observer_state
    return (s.epoch.value, xyz(s.position), xyz(s.velocity), xyz(ob.observed_direction), ob.range, ob.right_ascension,
            ob.declination, ob.range_error, ob.angular_error)


def cond(S):
    """condition estimate of a symmetric positive matrix scaled to unit diagonal"""
    p = ref.min_pivot(S)
    return 1.0 / p if p > 0 else float("inf")


def expected(e, ob, dz=(0, 0, 0), ds=(0, 0, 0), eps=None):
    """one step of the reference filter from estimate e; dz, ds, eps perturb its inputs"""
    s = ob.observer_state
    ro, vo, los = xyz(s.position), xyz(s.velocity), xyz(ob.observed_direction)
    k = ref.Kalman(e.t, e.x, e.n)
    k.P = [list(r) for r in e.P]
    return k.process(s.epoch.value, ro, vo, los, ob.range_error, ob.angular_error, dz, ds, eps), k


def spread(e, ob):
    """reference result and, per entry, how far rounding-sized changes of its inputs move it"""
    (z, R, S), k = expected(e, ob)
    m = ref.norm(xyz(ob.observer_state.position))
    d = 4e-15 * m
    tx = [0.0] * 6
    tP = [[0.0] * 6 for _ in range(6)]
    trials = [(a, b, c) for a, b, c in (
        ((d, 0, 0), (0, 0, 0), None), ((0, d, 0), (0, 0, 0), None), ((0, 0, d), (0, 0, 0), None),
        ((0, 0, 0), (d, 0, 0), None), ((0, 0, 0), (0, d, 0), None), ((0, 0, 0), (0, 0, d), None),
        ((0, 0, 0), (-d, 0, 0), None), ((0, 0, 0), (0, -d, 0), None), ((0, 0, 0), (0, 0, -d), None),
        ) + tuple(((0, 0, 0), (0, 0, 0), (1e-15, b)) for b in (0b10110011100, 0b01101010011, 0b11100010110, 0b00011101101))]
    for a, b, c in trials:
        _, q = expected(e, ob, a, b, c)
        for i in range(6):
            tx[i] += abs(q.x[i] - k.x[i])
            for j in range(6):
                tP[i][j] += abs(q.P[i][j] - k.P[i][j])
    return k, z, R, S, tx, tP


def perigee(c):
    r, v = tuple(c["r"]), tuple(c["v"])
    h, a = ref.norm(ref.cross(r, v)), ref.sma(r, v)
    return a * (1 - max(0.0, 1 - h * h / ref.MU / a) ** 0.5) if a > 0 else 0.0


def gen(rng, tier):
    n = rng.choice((2, 2, 2, 3, 3))
    craft = G.fleet(rng, n, cluster=1.0, skew=0.5, kinds=("geo", "geo", "leo", "meo", "gto", "high"), cfg=0.4)
    for i in range(1, n):
        # most targets are nearby, where relative navigation is used
        if rng.random() < 0.6:
            r, v = G.offset(rng, tuple(craft[0]["r"]), tuple(craft[0]["v"]), 0.5, 60.0)
            craft[i].update(r=r, v=v, t=craft[0]["t"] + (rng.choice((0, 1)) * G.sgn(rng) * G.log(rng, 1e-3, 4000)) / DAY)
    ops = [dict(op="acquire", i=0, j=1)]
    if rng.random() < 0.3:
        ops = []
    mix = dict(sense=8, deliver=10, process=5, tick=8, lose=2, acquire=0.8, burn=0.7, fburn=0.3, reset=0.3, abort=0.8, fly=1)
    for k in list(mix):
        if k not in ("sense", "deliver") and rng.random() < 0.2:
            mix[k] = 0
    order = rng.choice(("fifo", "any", "any", "lifo"))
    for _ in range(rng.randint(4, 40)):
        k = rng.choices(list(mix), list(mix.values()))[0]
        i = 0 if rng.random() < 0.75 else rng.randrange(n)
        j = rng.choice([x for x in range(n) if x != i])
        kk = round(rng.choice((0.0, 1.0, -1.0, rng.gauss(0, 1), rng.gauss(0, 4))), 6)
        u = rng.choice((0.0, 0.25, 0.5, rng.random()))
        if k == "sense":
            ops.append(dict(op="sense", i=i, j=j, cam=rng.choice("wn"), k=kk, u=u))
        elif k == "deliver":
            pick = {"fifo": 0.0, "lifo": 0.999999, "any": rng.random()}[order]
            ops.append(dict(op="deliver", i=i, pick=pick, keep=rng.random() < 0.15))
        elif k == "lose":
            ops.append(dict(op="lose", i=i, pick=rng.random()))
        elif k == "process":
            ops.append(dict(op="process", i=i, j=j, cam=rng.choice("wn"), k=kk, u=u))
        elif k == "tick":
            ops.append(dict(op="goto", i=i, dt=G.tick(rng, big=0.01, back=0.1)) if rng.random() < 0.7 else dict(op="step", i=i))
        elif k == "fly":
            ops.append(dict(op="goto", i=j, dt=G.tick(rng, big=0.01)))
        elif k == "acquire":
            ops.append(dict(op="acquire", i=i, j=j))
        elif k in ("burn", "fburn"):
            ops.append(dict(op=k, i=rng.choice((i, j)), ric=G.ric(rng, hi=0.005)))
        elif k == "reset":
            ops.append(dict(op="reset", i=i))
        else:
            ops.append(dict(op="abort", i=i, pick=rng.random(), frac=rng.random(), exc=rng.choice(sorted(seams.INJECTED))))
    plan = dict(craft=craft, ops=ops)
    if rng.random() < 0.05 and all(perigee(c) > 12000 for c in craft):
        # blackouts of days to weeks (low orbits are not integrated well enough to last that long)
        for c in craft:
            c["pert"] = rng.random() < 0.1
        for _ in range(rng.randint(1, 3)):
            ops.insert(rng.randint(len(ops) // 3, len(ops)), dict(op="goto", i=0, dt=G.sgn(rng) * G.log(rng, DAY, 12 * DAY)))
        plan["long"] = True
    return plan


class World(fleet.Fleet):
    SCOPE = ("acquire", "process", "deliver")

    def __init__(self, plan, ctx):
        super().__init__(plan, ctx, self.SCOPE)
        self.link = [[] for _ in self.craft]
        self.last = {}
        self.hist = 0

    # ------------------------------------------------------------ oracle
    def check_update(self, i, e, ob, what):
        f = self.craft[i].filter
        k, z, R, S, tx, tP = spread(e, ob)
        a = Est(f)
        if a.t != ob.observer_state.epoch.value:
            self.fail("filter epoch", "%s: filter epoch is %r, the observation's is %r" % (what, a.t, ob.observer_state.epoch.value))
        c = cond(S)
        self.ctx.count("updates checked")
        dt = (a.t - e.t) * DAY
        if dt < 0:
            self.ctx.fault("observation older than the estimate")
        elif dt == 0:
            self.ctx.probe("second observation at one epoch")
        if abs(dt) > 20000:
            self.ctx.probe("gap over 20000 s between observations")
        if c > 1e9:
            # rounding alone decides such an update
            self.ctx.count("ill-conditioned updates, estimate not compared")
            return
        for n in range(6):
            tol = 50 * tx[n] + 1e-12 * k.magx[n] + 1e-13 * c * k.maginn[n] + (1e-8 if n < 3 else 1e-11)
            if not abs(a.x[n] - k.x[n]) <= tol:
                self.fail("estimate", "%s: estimate component %d is %r, Kalman filter gives %r (tolerance %.1e, gap %r s)" % (
                    what, n, a.x[n], k.x[n], tol, dt))
            dg = abs(k.P[n][n]) ** 0.5
            if tol < (1e-3 if n < 3 else 1e-6) or tol < 0.01 * dg:
                self.ctx.count("estimate components compared sharply")
        for n in range(6):
            for q in range(6):
                tol = 50 * tP[n][q] + 1e-12 * k.magP[n][q] + 1e-8 * (abs(k.P[n][n] * k.P[q][q])) ** 0.5
                if not abs(a.P[n][q] - k.P[n][q]) <= tol:
                    self.fail("covariance", "%s: covariance entry (%d,%d) is %r, Kalman filter gives %r (tolerance %.1e)" % (
                        what, n, q, a.P[n][q], k.P[n][q], tol))
                if not abs(a.P[n][q] - a.P[q][n]) <= tol + 1e-2 * (abs(k.P[n][n] * k.P[q][q])) ** 0.5:
                    self.fail("symmetry", "%s: covariance entries (%d,%d) %r and %r differ (reference %r, %r; sigmas %.2e %.2e; before %r %r; cond %.1e)" % (what, n, q, a.P[n][q], a.P[q][n], k.P[n][q], k.P[q][n], k.P[n][n] ** 0.5, k.P[q][q] ** 0.5, e.P[n][q], e.P[q][n], c))
                if n == q and tol < 0.01 * k.P[n][n]:
                    self.ctx.count("variances compared to better than 1%")
        if not ref.min_pivot(a.P) > -1e-8:
            self.fail("positive definite", "%s: the covariance has pivot %r" % (what, ref.min_pivot(a.P)))
        if a.ps != a.x:
            self.fail("propagator", "%s: the filter's propagator is not at its estimate" % what)
        self.ctx.count("nontrivial")

    def started(self, i, j, t, post):
        f = self.craft[i].filter
        a = Est(f)
        if a.t != post[i].t:
            self.fail("start epoch", "acquire started the filter at %r, tracker is at %r" % (a.t, post[i].t))
        tgt = post[j]
        # the target is synchronised to clock resolution; express it exactly at the tracker's epoch
        lag = (post[i].t - tgt.t) * DAY
        w = ref.add(tgt.r, ref.mul(tgt.v, lag))
        p, v = ref.to_hcw(post[i].r, post[i].v, w, tgt.v)
        m = ref.norm(post[i].r)
        slack = 10 * abs(lag) * 12
        for n in range(3):
            if not abs(a.x[n] - p[n]) <= 1e-12 * m + 1e-8 + slack:
                self.fail("start", "acquire started component %d at %r, the relative state is %r" % (n, a.x[n], p[n]))
            if not abs(a.x[3 + n] - v[n]) <= 1e-11 + 1e-12 * abs(p[n]) + slack:
                self.fail("start", "acquire started velocity %d at %r, the relative state is %r" % (n, a.x[3 + n], v[n]))
        if not abs(lag) <= 2e-6 * (2 + self.spread / 300):
            self.fail("start sync", "after acquire the seed is %r s from the tracker's epoch" % lag)
        if a.P != [list(r) for r in ref.P0]:
            self.fail("start covariance", "acquire started with covariance %r" % a.P)
        want = (ref.MU / ref.sma(post[i].r, post[i].v) ** 3) ** 0.5
        if not abs(a.n / want - 1) < 1e-9:
            self.fail("orbit rate", "filter uses orbit rate %r, the tracker's is %r" % (a.n, want))

    def frozen(self, but=None):
        """estimates change only by processing an observation or acquiring"""
        for i, e in self.last.items():
            if i != but and Est(self.craft[i].filter).key() != e:
                self.fail("estimate moved", "the estimate of spacecraft %d changed without an observation for it" % i)

    def update(self, i, ob, call, what):
        f = self.craft[i].filter
        e = Est(f)
        ok = ob_key(ob)
        try:
            call()
        except Exception as ex:  # noqa: BLE001
            from .engine import in_repo_tb
            if not in_repo_tb(ex.__traceback__):
                raise
            self.fail("exception:%s in update" % type(ex).__name__, "%s failed: %r" % (what, ex))
        if ob_key(ob) != ok:
            self.fail("observation changed", "%s changed the observation" % what)
        self.check_update(i, e, ob, what)
        self.last[i] = Est(f).key()
        self.ctx.event("estimate", i, self.last[i])

    # ------------------------------------------------------------ operations
    def sense(self, op):
        S = self.S
        c, t = self.craft[op["i"]], self.craft[op["j"]]
        S.rand.set(op["k"], op["u"])
        return c.observe_nfov(t) if op["cam"] == "n" else c.observe_wfov(t)

    def go(self):
        ctx, S = self.ctx, self.S
        n = len(self.craft)
        for no, op in enumerate(self.plan["ops"]):
            self.step_no = no
            k, i = op["op"], op["i"]
            if i >= n or op.get("j", 0) >= n or op.get("j") == i:
                continue
            ctx.schedule(k, i, op.get("j"))
            if k == "sense":
                ob = self.sense(op)
                self.link[i].append(ob)
                if abs(op["k"]) > 3:
                    ctx.fault("outlier observation")
                ctx.count("effective")
            elif k == "lose":
                q = self.link[i]
                if q:
                    q.pop(int(op["pick"] * len(q)))
                    ctx.fault("observation lost")
            elif k == "deliver":
                q = self.link[i]
                if not q or not self.has_filter[i]:
                    ctx.count("skipped")
                    continue
                at = int(op["pick"] * len(q))
                if at:
                    ctx.fault("observation overtook another")
                ob = q[at]
                if not op.get("keep"):
                    q.pop(at)
                else:
                    ctx.fault("observation duplicated")
                if ob.observer_state.epoch.value != self.craft[i].current_epoch().value:
                    ctx.fault("observation delayed")
                self.update(i, ob, lambda: self.craft[i].filter.process(ob), "delivery")
                ctx.count("effective")
            elif k == "process":
                if not self.has_filter[i]:
                    ctx.count("skipped")
                    continue
                ob = self.sense(op)
                self.info = {}
                self.update(i, ob, lambda: self.call(op), "process")
                ctx.count("effective")
            elif k == "reset":
                if not self.has_filter[i]:
                    continue
                f = self.craft[i].filter
                x = six(f.x00)
                h = S.Hill(S.HCW(S.Epoch(0.0), S.vec(x[:3]), S.vec(x[3:])), f.propagator.sma)
                self.craft[i].filter = S.RelativeKalman(f.epoch, h)
                e = Est(self.craft[i].filter)
                if e.x != x or e.P != [list(r) for r in ref.P0] or e.t != f.epoch.value:
                    self.fail("restart", "a filter restarted from its estimate does not start there with the default covariance")
                self.last[i] = e.key()
                ctx.fault("filter crash and restart")
            elif k == "abort":
                q = self.link[i]
                if not q or not self.has_filter[i]:
                    continue
                ob = q[int(op["pick"] * len(q))]
                dry = copy.deepcopy(self.craft[i].filter)
                total = seams.count_sites(lambda: dry.process(ob))
                if total and seams.with_fault(lambda: self.craft[i].filter.process(ob), min(total - 1, int(op["frac"] * total)), op["exc"]):
                    ctx.fault("abort:%s in update" % op["exc"])
                # whatever the failed update left is where the filter goes on from (C06 says it leaves it untouched)
                self.last[i] = Est(self.craft[i].filter).key()
            else:
                why = self.ready(op)
                if why:
                    ctx.count("skipped")
                    continue
                pre = self.snaps()
                if k == "acquire" and not 0 < ref.sma(pre[i].r, pre[i].v) < 1e7:
                    ctx.count("out of scope: tracker not in orbit")
                    return
                self.spread = max(abs(p.t - q.t) for p in pre for q in pre) * DAY
                try:
                    self.call(op)
                except (Violation, TimeoutError, seams.Injected):
                    raise
                except Exception as e:  # noqa: BLE001
                    from .engine import in_repo_tb
                    if not in_repo_tb(e.__traceback__):
                        raise
                    if k == "acquire":
                        self.fail("exception:%s in acquire" % type(e).__name__, "acquire failed: %r" % e)
                    ctx.count("out of scope failure")
                    return
                self.committed(op)
                post = self.snaps()
                self.note(pre, post, op)
                ctx.count("effective")
                ctx.event(no, k, i, [s.key() for s in post])
                if k == "acquire":
                    if abs(pre[i].t - pre[op["j"]].t) > 1e-9:
                        ctx.probe("acquired a seed at another epoch")
                    if not self.cyclic(i):
                        self.started(i, op["j"], pre, post)
                    self.last[i] = Est(self.craft[i].filter).key()
            self.frozen()
