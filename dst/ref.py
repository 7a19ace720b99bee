"""Reference model: an independent, plain-tuple implementation of the documented behaviour.

Nothing here imports openspace.  Constants are the published ones the repository documents; formulas are
written from the sources it cites (Montenbruck & Gill "Satellite Orbits", Vallado), with a different method
where one exists (Cunningham recursion for the geopotential, cosines by direction rather than by frames).
"""
from math import acos, asin, atan2, ceil, cos, exp, floor, log10, pi, radians, sin, sqrt

MU = 398600.4418
RE = 6378.137
FLAT = 1 / 298.2572235
MU_SUN = 1.327124400419e11
MU_MOON = 4902.800305555
EPS0 = radians(23.43929111)
G0 = 0.00981
DAY = 86400.0
MAX_STEP = 300.0
ARC = pi / 180 / 3600

# ---------------------------------------------------------------- vectors


def add(a, b):
    return (a[0] + b[0], a[1] + b[1], a[2] + b[2])


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def mul(a, k):
    return (a[0] * k, a[1] * k, a[2] * k)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
    return sqrt(dot(a, a))


def unit(a):
    return mul(a, 1 / norm(a))


def angle(a, b):
    """angle between two vectors, accurate near 0 and pi"""
    return atan2(norm(cross(unit(a), unit(b))), dot(unit(a), unit(b)))


def mv(m, v):
    return (dot(m[0], v), dot(m[1], v), dot(m[2], v))


def mtv(m, v):
    return tuple(m[0][i] * v[0] + m[1][i] * v[1] + m[2][i] * v[2] for i in range(3))


# ---------------------------------------------------------------- time and frames


def centuries(mjd):
    return (mjd + 2400000.5 - 2451545) / 36525


def gmst(mjd):
    """Greenwich mean sidereal time; mjd is terrestrial time"""
    ut = mjd - 69.184 / 86400
    frac = ut - floor(ut)
    j = (ut + 2400000.5 - frac - 2451545) / 36525
    deg = 100.4606184 + 36000.77004 * j + 0.000387933 * j * j + 360.98564724 * frac
    return radians(deg % 360)


def _nut(mjd):
    d = mjd + 2400000.5 - 2451545
    f1 = radians(125.0 - 0.05295 * d)
    f2 = radians(200.9 + 1.97129 * d)
    dpsi = radians(-0.0048 * sin(f1) - 0.0004 * sin(f2))
    deps = radians(0.0026 * cos(f1) + 0.0002 * cos(f2))
    t = centuries(mjd)
    eps = EPS0 + (-46.815 * t - 0.00059 * t * t + 0.001813 * t ** 3) * ARC
    return dpsi, deps, eps


def prec_matrix(mjd):
    t = centuries(mjd)
    zeta = (2306.2181 * t + 0.30188 * t * t + 0.017998 * t ** 3) * ARC
    theta = (2004.3109 * t - 0.42665 * t * t - 0.041833 * t ** 3) * ARC
    z = zeta + (0.7928 * t * t + 0.000205 * t ** 3) * ARC
    # R3(-z) R2(theta) R3(-zeta)
    def r3(a):
        return ((cos(a), sin(a), 0.0), (-sin(a), cos(a), 0.0), (0.0, 0.0, 1.0))

    def r2(a):
        return ((cos(a), 0.0, -sin(a)), (0.0, 1.0, 0.0), (sin(a), 0.0, cos(a)))

    def mm(a, b):
        return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)) for i in range(3))

    return mm(r3(-z), mm(r2(theta), r3(-zeta)))


def nut_matrix(mjd):
    dpsi, deps, eps = _nut(mjd)
    ce, se = cos(eps), sin(eps)
    return ((1.0, -dpsi * ce, -dpsi * se), (dpsi * ce, 1.0, -deps), (dpsi * se, deps, 1.0))


def gast(mjd):
    dpsi, _, eps = _nut(mjd)
    return gmst(mjd) + dpsi * cos(eps)


def spin(v, a):
    """components of v in axes turned by a about z"""
    c, s = cos(a), sin(a)
    return (c * v[0] + s * v[1], -s * v[0] + c * v[1], v[2])


def gcrf_to_itrf(r, mjd):
    return spin(mv(nut_matrix(mjd), mv(prec_matrix(mjd), r)), gast(mjd))


def itrf_to_gcrf(r, mjd):
    return mtv(prec_matrix(mjd), mtv(nut_matrix(mjd), spin(r, -gast(mjd))))


def itrf_to_ijk(r, mjd):
    return spin(r, -gmst(mjd))


def lla_to_itrf(lat, lon, alt):
    e2 = FLAT * (2 - FLAT)
    n = RE / sqrt(1 - e2 * sin(lat) ** 2)
    return ((n + alt) * cos(lat) * cos(lon), (n + alt) * cos(lat) * sin(lon), (n * (1 - e2) + alt) * sin(lat))


def enz_axes(lat, lon):
    east = (-sin(lon), cos(lon), 0.0)
    north = (-sin(lat) * cos(lon), -sin(lat) * sin(lon), cos(lat))
    up = (cos(lat) * cos(lon), cos(lat) * sin(lon), sin(lat))
    return east, north, up


# ---------------------------------------------------------------- Sun and Moon


def ecl_to_eq(x, y, z):
    c, s = cos(EPS0), sin(EPS0)
    return (x, c * y - s * z, s * y + c * z)


def sun(mjd):
    t = centuries(mjd)
    m = radians(357.5256 + 35999.049 * t)
    lam = radians(282.94) + m + 6892 * ARC * sin(m) + 72 * ARC * sin(2 * m)
    r = (149.619 - 2.499 * cos(m) - 0.021 * cos(2 * m)) * 1e6
    return ecl_to_eq(r * cos(lam), r * sin(lam), 0.0)


def moon(mjd):
    t = centuries(mjd)
    l0 = radians(218.31617 + 481267.88088 * t - 1.3972 * t)
    l = radians(134.96292 + 477198.86753 * t)
    lp = radians(357.52543 + 35999.04944 * t)
    f = radians(93.27283 + 483202.01873 * t)
    d = radians(297.85027 + 445267.11135 * t)
    lon = (
        22640 * sin(l) + 769 * sin(2 * l) - 4586 * sin(l - 2 * d) + 2370 * sin(2 * d) - 668 * sin(lp)
        - 412 * sin(2 * f) - 212 * sin(2 * l - 2 * d) - 206 * sin(l + lp - 2 * d) + 192 * sin(l + 2 * d)
        - 165 * sin(lp - 2 * d) + 148 * sin(l - lp) - 125 * sin(d) - 110 * sin(l + lp) - 55 * sin(2 * f - 2 * d)
    ) * ARC
    lam = l0 + lon
    beta = (
        18520 * sin(f + lon + (412 * sin(2 * f) + 541 * sin(lp)) * ARC) - 526 * sin(f - 2 * d)
        + 44 * sin(l + f - 2 * d) - 31 * sin(-l + f - 2 * d) - 25 * sin(-2 * l + f) - 23 * sin(lp + f - 2 * d)
        + 21 * sin(-l + f) + 11 * sin(-lp + f - 2 * d)
    ) * ARC
    r = (
        385000 - 20905 * cos(l) - 3699 * cos(2 * d - l) - 2956 * cos(2 * d) - 570 * cos(2 * l)
        + 246 * cos(2 * l - 2 * d) - 205 * cos(lp - 2 * d) - 171 * cos(l + 2 * d) - 152 * cos(l + lp - 2 * d)
    )
    return ecl_to_eq(r * cos(lam) * cos(beta), r * sin(lam) * cos(beta), r * sin(beta))


# ---------------------------------------------------------------- forces
_CN = {(2, 0): -0.484165143790815e-3, (2, 1): -0.206615509074176e-9, (2, 2): 0.243938357328313e-5,
       (3, 0): 0.957161207093473e-6, (3, 1): 0.203046201047864e-5, (3, 2): 0.904787894809528e-6,
       (3, 3): 0.721321757121568e-6, (4, 0): 0.539965866638991e-6, (4, 1): -0.536157389388867e-6,
       (4, 2): 0.350501623962649e-6, (4, 3): 0.990856766672321e-6, (4, 4): -0.188519633023033e-6}
_SN = {(2, 1): 0.138441389137979e-8, (2, 2): -0.140027370385934e-5, (3, 1): 0.248200415856872e-6,
       (3, 2): -0.619005475177618e-6, (3, 3): 0.141434926192941e-5, (4, 1): -0.473567346518086e-6,
       (4, 2): 0.662480026275829e-6, (4, 3): -0.200956723567452e-6, (4, 4): 0.308803882149194e-6}


def _fact(n):
    return 1 if n < 2 else n * _fact(n - 1)


def _unnorm(n, m):
    return sqrt((1 if m == 0 else 2) * (2 * n + 1) * _fact(n - m) / _fact(n + m))


CC = {k: v * _unnorm(*k) for k, v in _CN.items()}
SS = {k: _SN.get(k, 0.0) * _unnorm(*k) for k in _CN}


def geopotential(p):
    """acceleration (Earth-fixed) of the degree 2-4 terms at Earth-fixed p: Cunningham's recursion"""
    x, y, z = p
    r2 = dot(p, p)
    rho = RE * RE / r2
    x0, y0, z0 = RE * x / r2, RE * y / r2, RE * z / r2
    N = 5
    V = [[0.0] * (N + 2) for _ in range(N + 2)]
    W = [[0.0] * (N + 2) for _ in range(N + 2)]
    V[0][0] = RE / sqrt(r2)
    V[1][0] = z0 * V[0][0]
    for n in range(2, N + 1):
        V[n][0] = ((2 * n - 1) * z0 * V[n - 1][0] - (n - 1) * rho * V[n - 2][0]) / n
    for m in range(1, N + 1):
        V[m][m] = (2 * m - 1) * (x0 * V[m - 1][m - 1] - y0 * W[m - 1][m - 1])
        W[m][m] = (2 * m - 1) * (x0 * W[m - 1][m - 1] + y0 * V[m - 1][m - 1])
        if m <= N - 1:
            V[m + 1][m] = (2 * m + 1) * z0 * V[m][m]
            W[m + 1][m] = (2 * m + 1) * z0 * W[m][m]
        for n in range(m + 2, N + 1):
            V[n][m] = ((2 * n - 1) * z0 * V[n - 1][m] - (n + m - 1) * rho * V[n - 2][m]) / (n - m)
            W[n][m] = ((2 * n - 1) * z0 * W[n - 1][m] - (n + m - 1) * rho * W[n - 2][m]) / (n - m)
    ax = ay = az = 0.0
    for n in range(2, 5):
        for m in range(n + 1):
            c, s = CC[n, m], SS[n, m]
            if m == 0:
                ax -= c * V[n + 1][1]
                ay -= c * W[n + 1][1]
                az -= (n + 1) * c * V[n + 1][0]
            else:
                fac = 0.5 * (n - m + 1) * (n - m + 2)
                ax += 0.5 * (-c * V[n + 1][m + 1] - s * W[n + 1][m + 1]) + fac * (c * V[n + 1][m - 1] + s * W[n + 1][m - 1])
                ay += 0.5 * (-c * W[n + 1][m + 1] + s * V[n + 1][m + 1]) + fac * (-c * W[n + 1][m - 1] + s * V[n + 1][m - 1])
                az += (n - m + 1) * (-c * V[n + 1][m] - s * W[n + 1][m])
    return mul((ax, ay, az), MU / (RE * RE))


def third_body(r, s, mu):
    d = sub(s, r)
    return sub(mul(d, mu / norm(d) ** 3), mul(s, mu / norm(s) ** 3))


def accel(mjd, r, pert=True):
    a = mul(r, -MU / norm(r) ** 3)
    if pert:
        a = add(a, third_body(r, moon(mjd), MU_MOON))
        a = add(a, third_body(r, sun(mjd), MU_SUN))
        # the linearised nutation matrix stretches vectors by about 1e-8; the distance that counts is the inertial one
        p = gcrf_to_itrf(r, mjd)
        k = norm(p) / norm(r)
        a = add(a, mul(itrf_to_gcrf(geopotential(mul(p, 1 / k)), mjd), k))
    return a


def rk4_step(mjd, r, v, h, pert=True, thrust=None):
    """thrust: None or function seconds-since-step-start -> acceleration"""
    def f(s, r, v):
        a = accel(mjd + s / DAY, r, pert)
        return v, (a if thrust is None else add(a, thrust(s)))

    v1, a1 = f(0.0, r, v)
    v2, a2 = f(h / 2, add(r, mul(v1, h / 2)), add(v, mul(a1, h / 2)))
    v3, a3 = f(h / 2, add(r, mul(v2, h / 2)), add(v, mul(a2, h / 2)))
    v4, a4 = f(h, add(r, mul(v3, h)), add(v, mul(a3, h)))
    dr = mul(add(add(v1, mul(v2, 2)), add(mul(v3, 2), v4)), h / 6)
    dv = mul(add(add(a1, mul(a2, 2)), add(mul(a3, 2), a4)), h / 6)
    return mjd + h / DAY, add(r, dr), add(v, dv)


def nsteps(dt):
    return ceil(abs(dt / MAX_STEP))


def fly(mjd, r, v, mjd_end, pert=True):
    dt = (mjd_end - mjd) * DAY
    n = nsteps(dt)
    for _ in range(n):
        mjd, r, v = rk4_step(mjd, r, v, dt / n, pert)
    return mjd, r, v


def kepler(r, v, dt):
    """two-body state dt seconds later (elliptic, universal in the eccentric anomaly difference)"""
    a = sma(r, v)
    n = sqrt(MU / a ** 3)
    rm = norm(r)
    ec, es = 1 - rm / a, dot(r, v) / sqrt(MU * a)
    E0, e = atan2(es, ec), sqrt(ec * ec + es * es)
    M = E0 - es + n * dt
    lo, hi = M - e - 1e-9, M + e + 1e-9
    E = M
    for _ in range(100):
        f = E - e * sin(E) - M
        if f > 0:
            hi = E
        else:
            lo = E
        E2 = E - f / (1 - e * cos(E))
        if not lo <= E2 <= hi:
            E2 = (lo + hi) / 2
        if abs(E2 - E) < 1e-15 * max(1.0, abs(E)):
            E = E2
            break
        E = E2
    dE = E - E0
    # exact for whole orbits too: f and g
    f = 1 - a / rm * (1 - cos(dE))
    g = dt - (dE - sin(dE)) / n
    r2 = add(mul(r, f), mul(v, g))
    q = norm(r2)
    return r2, add(mul(r, -sqrt(MU * a) / (q * rm) * sin(dE)), mul(v, 1 - a / q * (1 - cos(dE))))


# ---------------------------------------------------------------- burns


def ric_axes(r, v):
    R = unit(r)
    C = unit(cross(r, v))
    return R, cross(C, R), C


def ric_to_gcrf(r, v, u):
    R, I, C = ric_axes(r, v)
    return add(add(mul(R, u[0]), mul(I, u[1])), mul(C, u[2]))


def burn_mass(m0, dv, isp):
    return m0 * (1 - exp(-dv / (isp * G0)))


def burn_time(m0, dv, isp, mdot):
    return burn_mass(m0, dv, isp) / mdot


def finite_burn(mjd, r, v, ric, mdot, m0, isp, pert=True):
    mag = norm(ric)
    T = burn_time(m0, mag, isp, mdot)
    end = mjd + T / DAY
    dt = (end - mjd) * DAY
    n = nsteps(dt)
    if n == 0:
        return mjd, r, v
    u = unit(ric_to_gcrf(r, v, ric))
    h = dt / n
    for k in range(n):
        t0 = k * h

        def th(s, t0=t0):
            return mul(u, mdot * isp * G0 / (m0 - mdot * (t0 + s)))

        mjd, r, v = rk4_step(mjd, r, v, h, pert, th)
    return mjd, r, v


# ---------------------------------------------------------------- orbits


def kepler_state(a, e, i, raan, argp, nu):
    p = a * (1 - e * e)
    r = p / (1 + e * cos(nu))
    rp = (r * cos(nu), r * sin(nu), 0.0)
    k = sqrt(MU / p)
    vp = (-k * sin(nu), k * (e + cos(nu)), 0.0)

    def rot(w):
        w = spin(w, -argp)
        w = (w[0], cos(i) * w[1] - sin(i) * w[2], sin(i) * w[1] + cos(i) * w[2])
        return spin(w, -raan)

    return rot(rp), rot(vp)


def sma(r, v):
    return 1 / (2 / norm(r) - dot(v, v) / MU)


def bound(r, v, emax=0.85, floor=180.0):
    """an Earth orbit the numerical model is meant for: bound, not too eccentric, perigee above the surface"""
    a = sma(r, v)
    if not 0 < a < 400000:
        return False
    h = norm(cross(r, v))
    e = max(0.0, 1 - h * h / (MU * a)) ** 0.5
    return e < emax and a * (1 - e) > RE + floor


# ---------------------------------------------------------------- relative motion


def to_hcw(ro, vo, r, v):
    """curvilinear relative state of (r, v) about (ro, vo)"""
    R, I, C = ric_axes(ro, vo)
    m0 = norm(ro)
    p = (dot(R, r), dot(I, r), dot(C, r))
    w = (dot(R, v), dot(I, v), dot(C, v))
    m = norm(p)
    rho2 = p[0] * p[0] + p[1] * p[1]
    rho = sqrt(rho2)
    lam = atan2(p[1], p[0])
    phi = atan2(p[2], rho)
    rdot = dot(p, w) / m
    lamdot = (p[0] * w[1] - p[1] * w[0]) / rho2
    rhodot = (p[0] * w[0] + p[1] * w[1]) / rho
    phidot = (w[2] * rho - p[2] * rhodot) / (m * m)
    return (
        (m - m0, lam * m0, phi * m0),
        (rdot - dot(R, vo), m0 * (lamdot - dot(I, vo) / m0), m0 * phidot),
    )


def from_hcw(ro, vo, rel, relv):
    """inverse of to_hcw"""
    R, I, C = ric_axes(ro, vo)
    m0 = norm(ro)
    m = m0 + rel[0]
    lam, phi = rel[1] / m0, rel[2] / m0
    rdot = relv[0] + dot(R, vo)
    lamdot = relv[1] / m0 + dot(I, vo) / m0
    phidot = relv[2] / m0
    er = (cos(phi) * cos(lam), cos(phi) * sin(lam), sin(phi))
    el = (-sin(lam), cos(lam), 0.0)
    ep = (-sin(phi) * cos(lam), -sin(phi) * sin(lam), cos(phi))
    p = mul(er, m)
    w = add(add(mul(er, rdot), mul(el, m * cos(phi) * lamdot)), mul(ep, m * phidot))

    def out(q):
        return add(add(mul(R, q[0]), mul(I, q[1])), mul(C, q[2]))

    return out(p), out(w)


def cw_matrix(n, t):
    s, c = sin(n * t), cos(n * t)
    return [
        [4 - 3 * c, 0, 0, s / n, 2 / n * (1 - c), 0],
        [6 * (s - n * t), 1, 0, 2 / n * (c - 1), (4 * s - 3 * n * t) / n, 0],
        [0, 0, c, 0, 0, s / n],
        [3 * n * s, 0, 0, c, 2 * s, 0],
        [6 * n * (c - 1), 0, 0, -2 * s, 4 * c - 3, 0],
        [0, 0, -n * s, 0, 0, c],
    ]


def cw(n, t, x):
    m = cw_matrix(n, t)
    return tuple(sum(m[i][j] * x[j] for j in range(6)) for i in range(6))


# ---------------------------------------------------------------- Kalman filter


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [list(c) for c in zip(*a)]


def madd(a, b, k=1.0):
    return [[x + k * y for x, y in zip(p, q)] for p, q in zip(a, b)]


def mabs(a):
    return [[abs(x) for x in r] for r in a]


def inv(a):
    """Gauss-Jordan with pivoting"""
    n = len(a)
    m = [list(map(float, r)) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(a)]
    for c in range(n):
        p = max(range(c, n), key=lambda i: abs(m[i][c]))
        m[c], m[p] = m[p], m[c]
        d = m[c][c]
        m[c] = [x / d for x in m[c]]
        for i in range(n):
            if i != c and m[i][c] != 0:
                k = m[i][c]
                m[i] = [x - k * y for x, y in zip(m[i], m[c])]
    return [r[n:] for r in m]


def diag(*d):
    return [[float(d[i]) if i == j else 0.0 for j in range(len(d))] for i in range(len(d))]


P0 = diag(0.5, 0.5, 0.5, 5e-5, 5e-5, 5e-5)
Q0 = diag(*([1e-16] * 6))


def spherical(v):
    ra = atan2(v[1], v[0])
    return norm(v), ra + 2 * pi if ra < 0 else ra, atan2(v[2], sqrt(v[0] ** 2 + v[1] ** 2))


def from_spherical(r, ra, dec):
    return (r * cos(dec) * cos(ra), r * cos(dec) * sin(ra), r * sin(dec))


class Kalman:
    """textbook filter with position measurements in the relative frame"""

    def __init__(self, mjd, x, n):
        self.t, self.x, self.n = mjd, list(x), n
        self.P = [r[:] for r in P0]

    def process(self, mjd, ro, vo, los, rerr, aerr, dz=(0, 0, 0), ds=(0, 0, 0), eps=None):
        """dz, ds and eps perturb measurement, its sigmas and the predicted covariance (to gauge rounding)"""
        dt = (mjd - self.t) * DAY
        self.t = mjd
        self.xold, self.Pold = self.x, self.P
        z = add(to_hcw(ro, vo, add(ro, los), vo)[0], dz)
        rng, ra, dec = spherical(los)
        e = sub(from_spherical(rng + rerr, ra + aerr, dec + aerr), los)
        s = add(to_hcw(ro, vo, add(ro, e), vo)[0], ds)
        R = diag(s[0] ** 2, s[1] ** 2, s[2] ** 2)
        F = cw_matrix(self.n, dt)
        x = [sum(F[i][j] * self.x[j] for j in range(6)) for i in range(6)]
        P = madd(mm(mm(F, self.P), tr(F)), Q0)
        if eps:
            m = madd(mm(mm(mabs(F), mabs(self.P)), tr(mabs(F))), Q0)
            P = [[P[i][j] + eps[0] * (1 if (eps[1] >> ((i * 7 + j * 7 + i * j) % 11)) & 1 else -1) * m[i][j] for j in range(6)] for i in range(6)]
        S = [[P[i][j] + R[i][j] for j in range(3)] for i in range(3)]
        K = mm([r[:3] for r in P], inv(S))
        self.x = [x[i] + sum(K[i][j] * (z[j] - x[j]) for j in range(3)) for i in range(6)]
        IKH = [[(1.0 if i == j else 0.0) - (K[i][j] if j < 3 else 0.0) for j in range(6)] for i in range(6)]
        self.P = madd(mm(mm(IKH, P), tr(IKH)), mm(mm(K, R), tr(K)))
        if not (eps or any(dz) or any(ds)):
            # sizes of the terms that are added up, for rounding bounds
            A, aF, aK = mabs(IKH), mabs(F), mabs(K)
            self.magP = madd(mm(mm(A, mm(mm(aF, mabs(self.Pold)), tr(aF))), tr(A)), mm(mm(aK, R), tr(aK)))
            fx = [sum(aF[i][j] * abs(self.xold[j]) for j in range(6)) for i in range(6)]
            inn = [abs(z[j] - x[j]) for j in range(3)]
            self.magx = [sum(A[i][j] * fx[j] for j in range(6)) + sum(aK[i][j] * abs(z[j]) for j in range(3)) for i in range(6)]
            self.maginn = [sum(aK[i][j] * inn[j] for j in range(3)) for i in range(6)]
        return z, R, S


def min_pivot(P):
    """smallest LDL pivot of P scaled to unit diagonal (positive iff P is positive definite)"""
    n = len(P)
    d = [sqrt(abs(P[i][i])) or 1.0 for i in range(n)]
    if any(not P[i][i] > 0 for i in range(n)):
        return -1.0
    a = [[P[i][j] / d[i] / d[j] for j in range(n)] for i in range(n)]
    lo = 1e300
    for k in range(n):
        p = a[k][k]
        lo = min(lo, p)
        if not p > 0:
            return p if p == p else -1.0
        for i in range(k + 1, n):
            f = a[i][k] / p
            for j in range(k, n):
                a[i][j] -= f * a[k][j]
    return lo


# ---------------------------------------------------------------- sensing


def range_error(fov, pixels, r, d):
    return sin(fov) / cos(fov) * r * (0.5 / pixels) / d * r


def phase_term(sun_angle):
    phi = pi - sun_angle
    return sin(phi) + (pi - phi) * cos(phi)


def magnitude(radius, albedo, dist, sun_angle):
    f = (2 / 3) * albedo * radius ** 2 / (pi * dist ** 2) * phase_term(sun_angle)
    return -26.74 - 2.5 * log10(f)
