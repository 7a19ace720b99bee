"""C26: a planned transfer, flown by burns, gets where it was planned to go."""
from math import atan2, pi, sin, sqrt

from .. import coast, fleet
from .. import gen as G
from .. import ref, seams

RUNS = {"quick": 4000, "thorough": 120000}
RULE = ("A spacecraft on a circular orbit of any radius and plane flies one to three planned transfers (up or down, from centimetres to fiftyfold in radius), each burn given "
        "when it is due and each coast cut into hundreds of small commands with restarts, interrupted and repeated commands, overshoots and attitude commands in "
        "between; velocities are compared with the plan at both burns and along the way, and the final orbit with the planned one.")
STUB = []
LISTS = ("legs",)
DAY = 86400.0
TOL = 4e-8


def setup():
    seams.load()


def gen(rng, tier):
    which = rng.random()
    high, wide = which < 0.03, which > 0.97
    r = G.log(rng, 60000, 400000) if high else G.log(rng, 6700, 8000) if wide else G.log(rng, 6700, 60000)
    r0, v0 = ref.kepler_state(r, 0.0, rng.choice((0.0, pi / 2, rng.uniform(0, pi), rng.uniform(0, 0.3))), rng.uniform(0, 2 * pi), 0.0, rng.uniform(0, 2 * pi))
    legs = []
    for _ in range(1 if wide else rng.choice((1, 1, 2, 3))):
        while True:
            q = r * (G.log(rng, 1.001, 1.1) if rng.random() < 0.5 else G.log(rng, 1.05, 8)) ** G.sgn(rng)
            if rng.random() < 0.06:                 # a small trim, or none at all
                q = r + rng.choice((0.0, 1.0, -1.0, 1.0, -1.0)) * G.log(rng, 1e-4, 3.0)
            if wide and not legs:                   # far beyond the ratio where a third burn would pay
                q = r * G.log(rng, 8, 50)
            if 6600 < q < (500000 if high or wide else 100000):
                break
        legs.append(dict(r2=q, wait=rng.choice((0.0, G.log(rng, 1, 2000))), park=coast.gen(rng), go=coast.gen(rng), probe=sorted(rng.random() for _ in range(rng.randint(0, 3)))))
        r = q
    return dict(craft=[dict(t=G.epoch(rng), r=list(r0), v=list(v0), pert=False, cfg=G.config(rng, 0.3))], legs=legs, ops=legs)


def near(f, what, got, want, tol):
    if not abs(got - want) <= tol * abs(want):
        f.fail(what, "%s is %r, planned %r (off by %.2e)" % (what, got, want, abs(got / want - 1)))


def angle(x, y):
    return abs((x - y + pi) % (2 * pi) - pi)


def relations(f, c):
    """the library's orbit relations, at a flown state, against each other and against the state itself"""
    from openspace.math.functions import EquationsOfMotion as Q, Radius
    S, mu = f.S, ref.MU
    rv, vv = seams.xyz(c.position()), seams.xyz(c.velocity())
    r, v, rdv = ref.norm(rv), ref.norm(vv), ref.dot(rv, vv)
    hv = ref.cross(rv, vv)
    h, w = ref.norm(hv), ref.unit(hv)
    ev = ref.sub(ref.mul(ref.cross(vv, hv), 1 / mu), ref.unit(rv))
    e, a = ref.norm(ev), ref.sma(rv, vv)
    b, p, n = a * sqrt(1 - e * e), h * h / mu, sqrt(mu / a ** 3)
    xi = v * v / 2 - mu / r
    nu = atan2(ref.dot(w, ref.cross(ev, rv)), ref.dot(ev, rv))
    E = atan2(rdv / (n * a * a), 1 - r / a)
    M = E - e * sin(E)
    u = atan2(rv[2], -w[1] * rv[0] + w[0] * rv[1])
    k = 1e-10
    for what, got, want, tol in (
            ("A.from_mu_n", Q.A.from_mu_n(mu, n), a, k), ("A.from_mu_tau", Q.A.from_mu_tau(mu, 2 * pi / n), a, k), ("A.from_mu_r_v", Q.A.from_mu_r_v(mu, r, v), a, k),
            ("B.from_a_e", Q.B.from_a_e(a, e), b, k), ("P.from_a_b", Q.P.from_a_b(a, b), p, k), ("P.from_a_e", Q.P.from_a_e(a, e), p, k), ("P.from_mu_h", Q.P.from_mu_h(mu, h), p, k),
            ("E.from_a_c", Q.E.from_a_c(a, a * e), e, k), ("E.from_a_b", Q.E.from_a_b(a, b), e, k / e ** 2), ("E.from_a_p", Q.E.from_a_p(a, p), e, k / e ** 2),
            ("TAU.from_a_mu", Q.TAU.from_a_mu(a, mu), 2 * pi / n, k), ("N.from_a_mu", Q.N.from_a_mu(a, mu), n, k), ("N.from_tau", Q.N.from_tau(2 * pi / n), n, k),
            ("V.from_a_mu_r", Q.V.from_a_mu_r(a, mu, r), v, k), ("V.from_mu_r_xi", Q.V.from_mu_r_xi(mu, r, xi), v, k), ("V.from_mu_r_e_nu", Q.V.from_mu_r_e_nu(mu, r, e, nu), v, k),
            ("XI.from_mu_r_v", Q.XI.from_mu_r_v(mu, r, v), xi, 10 * k), ("XI.from_mu_a", Q.XI.from_mu_a(mu, a), xi, 10 * k),
            ("H.from_r_v_phi", Q.H.from_r_v_phi(r, v, atan2(rdv, h)), h, k), ("H.from_mu_p", Q.H.from_mu_p(mu, p), h, k),
            ("H.from_r_v", ref.norm(ref.sub(seams.xyz(Q.H.from_r_v(S.vec(rv), S.vec(vv))), hv)) + h, h, k),
            ("F.from_a_b", Q.F.from_a_b(a, b), (a - b) / a, k), ("Radius.from_p_e_nu", Radius.from_p_e_nu(p, e, nu), r, k)):
        if not abs(got - want) <= tol * abs(want):
            f.fail("relation " + what, "%s gives %r for the flown orbit, which has %r" % (what, got, want))
    wv = S.vec(w)
    for what, got, want, tol in (
            ("EA.from_ma_e", Q.EA.from_ma_e(M, e), E, k), ("EA.from_ma_e (0 to 2 pi)", Q.EA.from_ma_e(M % (2 * pi), e), E, k),
            ("EA.from_rdv_r_a_n", Q.EA.from_rdv_r_a_n(rdv, r, a, n), E, k / e), ("NU.from_e_ea", Q.NU.from_e_ea(e, E), nu, k / e), ("MA.from_ea_e", Q.MA.from_ea_e(E, e), M, k),
            ("I.from_w", Q.I.from_w(wv), atan2(sqrt(w[0] ** 2 + w[1] ** 2), w[2]), k),
            ) + (() if sqrt(w[0] ** 2 + w[1] ** 2) < 1e-6 else (
            ("RAAN.from_w", Q.RAAN.from_w(wv), atan2(w[0], -w[1]), k), ("U.from_r_w", Q.U.from_r_w(S.vec(rv), wv), u, k), ("W.from_u_nu", Q.W.from_u_nu(u, nu), u - nu, k))):
        if not angle(got, want) <= tol:
            f.fail("relation " + what, "%s gives %r for the flown orbit, which has %r" % (what, got, want))
    f.ctx.count("relations checked", 32)


def run(plan, ctx):
    from openspace.planning.maneuvers import Hohmann, VisViva
    f = fleet.Fleet(plan, ctx)
    S = f.S
    mag = lambda v: ref.norm(seams.xyz(v))
    n = 0
    for no, leg in enumerate(plan["legs"]):
        f.step_no = no
        now = lambda: f.craft[0].current_epoch().value
        if leg["wait"]:
            n += coast.fly(f, 0, now() + leg["wait"] / DAY, leg["park"])
        c = f.craft[0]
        r1, r2 = mag(c.position()), leg["r2"]
        if abs(ref.dot(seams.xyz(c.position()), seams.xyz(c.velocity()))) > 1e-5 * r1 * mag(c.velocity()):
            f.fail("not circular", "the orbit before leg %d is not circular" % no)
        p = Hohmann(r1, r2)
        ctx.schedule("leg", r2 > r1)
        near(f, "velocity before the first burn", mag(c.velocity()), p.initial_velocity, TOL)
        c.impulsive_maneuver(S.vec((0.0, p.delta_v_1, 0.0)))
        near(f, "velocity after the first burn", mag(c.velocity()), p.transfer_velocity_1, TOL)
        a = (r1 + r2) / 2
        near(f, "semi-major axis of the transfer", c.sma(), a, 4 * TOL * max(1.0, a / r1))
        T = pi * sqrt(a ** 3 / ref.MU)
        t0 = now()
        for k, x in enumerate(leg["probe"]):
            n += coast.fly(f, 0, t0 + x * T / DAY, leg["go"])
            c = f.craft[0]
            near(f, "velocity on the transfer", mag(c.velocity()), VisViva.eccentric_velocity(mag(c.position()), a), 10 * TOL * max(1.0, (p.transfer_velocity_1 / mag(c.velocity()) / 8) ** 2))
            relations(f, c)
        n += coast.fly(f, 0, t0 + T / DAY, leg["go"])
        c = f.craft[0]
        # errors of the velocity at departure grow towards a far apogee
        gain = max(1.0, r2 / r1) ** 2
        near(f, "arrival radius", mag(c.position()), r2, 10 * TOL * gain)
        near(f, "velocity before the second burn", mag(c.velocity()), p.transfer_velocity_2, 10 * TOL * gain)
        c.impulsive_maneuver(S.vec((0.0, p.delta_v_2, 0.0)))
        near(f, "velocity after the second burn", mag(c.velocity()), p.final_velocity, 10 * TOL * gain)
        near(f, "velocity of a circular orbit", p.final_velocity, VisViva.circular_velocity(r2), 1e-12)
        near(f, "final semi-major axis", c.sma(), r2, 40 * TOL * gain)
        ctx.count("nontrivial")
        ctx.count("transfers flown")
        ctx.count("effective", 4)
        ctx.state(r2 > r1, int(5 * ref.norm((r2 / r1 - 1, 0, 0))), len(leg["go"]["faults"]), len(leg["probe"]))
        ctx.event(no, seams.state_tuple(c.current_state()))
    ctx.count("commands", n)


def shrink(plan):
    import copy
    for i, leg in enumerate(plan["legs"]):
        for k in ("park", "go"):
            if leg[k]["faults"]:
                p = copy.deepcopy(plan)
                p["legs"][i][k]["faults"].pop()
                p["ops"] = p["legs"]
                yield p
        for k, v in (("wait", 0.0), ("probe", [])):
            if leg[k] != v:
                p = copy.deepcopy(plan)
                p["legs"][i][k] = v
                p["ops"] = p["legs"]
                yield p
    if plan["craft"][0]["cfg"]:
        p = copy.deepcopy(plan)
        p["craft"][0]["cfg"] = {}
        yield p
