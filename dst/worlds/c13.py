"""C13: detection is reported exactly when every sensor limit is met."""
from math import pi, radians

from .. import fleet
from .. import gen as G
from .. import ref, seams

RUNS = {"quick": 5000, "thorough": 100000}
RULE = ("Fleets of 2-4 spacecraft with random size, reflectivity and camera limits; detections and queries at random moments of histories of "
        "clock movements, attitude commands and burns (so boresights may be stale and clocks skewed); limits are either random or set a chosen "
        "margin either side of the true value, so each constraint is sometimes the only one that fails.")
STUB = []
SCOPE = ("detect", "query")
DAY = 86400.0
shrink = fleet.shrink
LIM = ("sun_soft", "earth", "moon", "vismag", "bore")


def setup():
    seams.load()


def limits(rng):
    out = {}
    if rng.random() < 0.7:
        out["sun_soft"] = rng.choice((0.0, radians(rng.uniform(0, 120))))
    if rng.random() < 0.7:
        out["earth"] = rng.choice((0.0, radians(rng.uniform(0, 90))))
    if rng.random() < 0.7:
        out["moon"] = rng.choice((0.0, radians(rng.uniform(0, 60))))
    if rng.random() < 0.7:
        out["vismag"] = rng.choice((99.0, rng.uniform(5, 25)))
    if rng.random() < 0.8:
        out["bore"] = rng.choice((pi, radians(rng.uniform(0.1, 120))))
    return out


def gen(rng, tier):
    n = rng.choice((2, 2, 3, 4))
    craft = G.fleet(rng, n, cluster=0.75, close=0.06)
    for c in craft:
        c["cfg"]["limits"] = limits(rng)
        if rng.random() < 0.08:
            c["cfg"]["body_radius"] = G.log(rng, 1e-6, 1.0)
    w = dict(detect=12, query=5, step=2, goto=5, goto_of=2, burn=1, fburn=0.5, lvlh=1.5, sun=1.5, track=4, observe=0.5)
    ops = fleet.make_ops(rng, n, rng.randint(4, 26), w, lambda r: G.tick(r, big=0.01), abort=rng.choice((0, 0.05)), crash=rng.choice((0, 0.03)))
    for o in ops:
        if o["op"] == "detect" and rng.random() < 0.7:
            m = {k: G.log(rng, 3e-6, 0.5) for k in LIM}
            bad = rng.choice(LIM + (None, None, "two"))
            if bad == "two":
                for k in rng.sample(LIM, 2):
                    m[k] = -m[k]
            elif bad:
                m[bad] = -m[bad]
            o["tune"] = m
    if rng.random() < 0.04:
        k = rng.choice(LIM)
        ops = [o for o in ops if o["op"] != "detect"][:6]
        for _ in range(14):
            i, j = rng.sample(range(n), 2)
            ops.append(dict(op="detect", i=i, j=j, exact=k))
            ops.append(dict(op="goto", i=rng.choice((i, j)), dt=rng.uniform(1, 900)))
    return dict(craft=craft, ops=ops)


def read(lim):
    return {k: getattr(lim, k) for k in LIM}


def truth(f, i, j, snaps):
    a, b = snaps[i], snaps[j]
    d = ref.sub(b.r, a.r)
    t = f.craft[j]
    sun = ref.angle(ref.sub(ref.sun(a.t), a.r), d)
    return dict(range=ref.norm(d), sun=sun, moon=ref.angle(ref.sub(ref.moon(a.t), a.r), d), earth=ref.angle(ref.mul(a.r, -1), d),
                mag=ref.magnitude(t.body_radius, t.albedo, ref.norm(d), sun), bore=ref.angle(a.z, d))


def before(f, op, info, pre):
    k = op["op"]
    if k not in ("detect", "query"):
        return
    f.truth = t = truth(f, op["i"], op["j"], pre)
    lim = f.craft[op["i"]].wfov.limits
    if k == "detect" and "tune" in op:
        m = op["tune"]
        lim.sun_soft = t["sun"] - m["sun_soft"]
        lim.earth = t["earth"] - m["earth"]
        lim.moon = t["moon"] - m["moon"]
        lim.vismag = t["mag"] + m["vismag"]
        lim.bore = t["bore"] + m["bore"]
        f.lim[op["i"]] = read(lim)
    elif k == "detect" and "exact" in op:
        # this limit exactly at the reported value, the others out of the way: "at" the limit counts as met
        c, x, n = f.craft[op["i"]], f.craft[op["j"]], op["exact"]
        lim.sun_soft = lim.earth = lim.moon = 0.0
        lim.vismag, lim.bore = 1e3, 4.0
        setattr(lim, n, dict(sun_soft=c.sun_angle, earth=c.earth_angle, moon=c.moon_angle, vismag=c.visual_magnitude,
                             bore=lambda y: c.body_z.angle(c.target_vector(y)))[n](x))
        f.lim[op["i"]] = read(lim)
    f.filters = [repr(getattr(c, "filter", None) and seams.six(c.filter.x00)) for c in f.craft]


def after(f, op, info, pre, post, out):
    i, k = op["i"], info["kind"]
    if k not in ("detect", "query"):
        return
    t = f.truth
    f.ctx.count("nontrivial")
    for x in range(len(pre)):
        if pre[x].key() != post[x].key():
            f.fail("asking changed something", "%s on %d changed spacecraft %d" % (k, i, x))
    if "exact" in op:
        n = f.exact.setdefault(op["exact"], [0, 0])
        n[0] += 1
        n[1] += out is not True
        # rounding may fall either way in code that works the angle out differently: only a limit that never counts as met is wrong
        f.ctx.probe("limit exactly at the reported value")
        if n[0] >= 10 and n[0] == n[1]:
            f.fail("at the limit", "%d of %d detections with the %s limit exactly at the reported value were refused" % (n[1], n[0], op["exact"]))
        return
    res = 1e-11 * ref.norm(pre[i].r) / max(t["range"], 1e-9)      # direction resolution, rad
    tol = 1e-7 + res
    if k == "query":
        if not abs(out["range"] - t["range"]) <= 1e-9 * ref.norm(pre[i].r) + 1e-9:
            f.fail("range", "range reported %r, is %r" % (out["range"], t["range"]))
        for n in ("sun", "moon", "earth"):
            if not abs(out[n] - t[n]) <= tol:
                f.fail(n + " angle", "%s angle reported %r, is %r" % (n, out[n], t[n]))
        if t["sun"] > 1e-3:
            e = 1e-6 + 20 * tol / min(t["sun"], 1.0)
            if not abs(out["mag"] - t["mag"]) <= e:
                f.fail("magnitude", "magnitude reported %r, is %r" % (out["mag"], t["mag"]))
        return
    lim = f.lim[i]
    m = dict(sun=t["sun"] - lim["sun_soft"], earth=t["earth"] - lim["earth"], moon=t["moon"] - lim["moon"],
             mag=lim["vismag"] - t["mag"], bore=lim["bore"] - t["bore"])
    if t["sun"] < 1e-3:
        return
    edge = dict.fromkeys(m, 5e-7 + 3 * res)
    edge["mag"] = 2e-6 + 60 * tol / min(t["sun"], 1.0)
    failing = [n for n in m if m[n] < 0]
    unsure = [n for n in m if abs(m[n]) <= edge[n]]
    sure_fail = [n for n in failing if n not in unsure]
    if sure_fail:
        f.ctx.probe("sole failing limit: " + failing[0] if len(failing) == 1 else "several failing limits")
        if out is not False:
            f.fail("false detection", "detected although %s not met (margins %r)" % (" and ".join(sure_fail), m))
    elif not unsure:
        f.ctx.probe("detection expected")
        if out is not True:
            f.fail("missed detection", "not detected although every limit is met (margins %r)" % m)


class Sensing(fleet.Fleet):
    def crash(self, i):
        super().crash(i)
        self.lim[i] = dict(self.told[i])


def run(plan, ctx):
    f = Sensing(plan, ctx, SCOPE)
    f.exact = {}
    # what each sensor was told, remembered apart from the hardware objects
    f.lim = []
    for c in plan["craft"]:
        w = c["cfg"].get("wfov") or (f.S.Camera.DEFAULT_WIDE_PIXELS, f.S.Camera.DEFAULT_WFOV)
        f.lim.append(dict(read(f.S.Camera(*w).limits), **c["cfg"].get("limits", {})))
    f.told = [dict(x) for x in f.lim]
    f.run(plan["ops"], before=before, after=after)
