"""The seams between openspace and the simulator.

Everything nondeterministic a caller can see of this library goes through here: its random draws, the host
clock, the caller's threads, and failures raised inside a command.  openspace is imported from the working
tree under test, without reading or writing bytecode, and is not modified.
"""
import importlib
import math
import os
import random as _random
import sys
import _thread
import threading
import time as _time

SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
PKG = os.path.join(SRC, "openspace") + os.sep


class Injected(BaseException):
    """marker mixed into every exception the simulator injects; an interrupt stays outside Exception, as the real one is"""


class InjectedInterrupt(Injected, KeyboardInterrupt):
    pass


class InjectedMemory(Injected, MemoryError):
    pass


class InjectedOverflow(Injected, OverflowError):
    pass


class InjectedZeroDiv(Injected, ZeroDivisionError):
    pass


INJECTED = {
    "interrupt": InjectedInterrupt,
    "memory": InjectedMemory,
    "overflow": InjectedOverflow,
    "zerodiv": InjectedZeroDiv,
}


class Rand:
    """random-number seam: the simulator says how many sigma and which fraction of the circle each draw is"""

    def __init__(self):
        self.real = {n: getattr(_random, n) for n in ("gauss", "normalvariate", "uniform", "random", "seed")}
        self.draws = 0
        self.script = {}
        self.scripted = True
        _random.gauss = self.gauss
        _random.normalvariate = self.normalvariate
        _random.uniform = self.uniform
        _random.random = self.random

    def set(self, k, u):
        """k: sigmas of this thread's next normal draws (a number, or a list used in turn); u: fraction for its uniform draws"""
        self.script[_thread.get_ident()] = [list(k) if isinstance(k, (list, tuple)) else [k], 0, u]

    def mine(self):
        return self.script.setdefault(_thread.get_ident(), [[0.0], 0, 0.0])

    def next_k(self):
        m = self.mine()
        m[1] += 1
        return m[0][(m[1] - 1) % len(m[0])]

    def use_real(self, seed):
        self.scripted = False
        self.real["seed"](seed)

    def gauss(self, mu=0.0, sigma=1.0):
        self.draws += 1
        return mu + self.next_k() * sigma if self.scripted else self.real["gauss"](mu, sigma)

    def normalvariate(self, mu=0.0, sigma=1.0):
        self.draws += 1
        return mu + self.next_k() * sigma if self.scripted else self.real["normalvariate"](mu, sigma)

    def uniform(self, a, b):
        self.draws += 1
        return a + (b - a) * self.mine()[2] if self.scripted else self.real["uniform"](a, b)

    def random(self):
        self.draws += 1
        return self.mine()[2] if self.scripted else self.real["random"]()


class Openspace:
    """the library's public names, loaded once per process"""

    MODULES = {
        "openspace.time": ["Epoch"],
        "openspace.math.linalg": ["Vector3D", "Vector6D", "Matrix3D", "Matrix6D"],
        "openspace.coordinates.states": ["GCRF", "HCW", "ITRF", "IJK", "StateConvert"],
        "openspace.coordinates.positions": ["LLA", "PositionConvert", "SphericalPosition"],
        "openspace.coordinates.elements": ["ClassicalElements"],
        "openspace.propagators.inertial": ["RK4"],
        "openspace.propagators.relative": ["Hill"],
        "openspace.estimation.filtering": ["RelativeKalman"],
        "openspace.estimation.obs": ["SpaceObservation", "GroundObservation"],
        "openspace.hardware.payloads": ["Camera"],
        "openspace.bodies.celestial": ["Earth", "Sun", "Moon"],
        "openspace.bodies.artificial": ["Spacecraft"],
        "openspace.bodies.terrestrial": ["GroundSite"],
    }

    def __init__(self, rand=True):
        sys.dont_write_bytecode = True
        sys.pycache_prefix = "/nonexistent"
        self.rand = Rand() if rand else None
        if SRC in sys.path:
            sys.path.remove(SRC)
        sys.path.insert(0, SRC)
        for mod, names in self.MODULES.items():
            m = importlib.import_module(mod)
            if not os.path.realpath(m.__file__).startswith(os.path.realpath(PKG)):
                raise ImportError("%s comes from %s" % (mod, m.__file__))
            for n in names:
                setattr(self, n, getattr(m, n))

    # conversions between the library's objects and plain tuples
    def vec(self, t):
        return self.Vector3D(t[0], t[1], t[2])

    def gcrf(self, mjd, r, v):
        return self.GCRF(self.Epoch(mjd), self.vec(r), self.vec(v))


_OS = None


def load(rand=True):
    global _OS
    if _OS is None:
        _OS = Openspace(rand)
    return _OS


def xyz(v):
    return (v.x, v.y, v.z)


def state_tuple(s):
    return (s.epoch.value,) + xyz(s.position) + xyz(s.velocity)


def six(v):
    return (v.x, v.y, v.z, v.vx, v.vy, v.vz)


def mat6(m):
    return [list(six(r)) for r in (m.row1, m.row2, m.row3, m.row4, m.row5, m.row6)]


def in_repo(filename):
    return filename.startswith(PKG) or os.path.realpath(filename).startswith(os.path.realpath(PKG))


_repo_cache = {}


def is_repo_code(code):
    f = code.co_filename
    r = _repo_cache.get(f)
    if r is None:
        r = _repo_cache[f] = in_repo(f)
    return r


# ---------------------------------------------------------------- failing operations inside a command
# A fault strikes as one of the library's numerical operations is entered (vector and matrix arithmetic,
# ephemerides, frame and force evaluations): the place where an allocation fails, an arithmetic error is
# raised or a signal handler runs.
FAULT_DIRS = ("math" + os.sep, "coordinates" + os.sep, "bodies" + os.sep + "celestial")
_fault_cache = {}


def _is_fault_site(code):
    f = code.co_filename
    r = _fault_cache.get(f)
    if r is None:
        p = os.path.realpath(f)
        base = os.path.realpath(PKG)
        r = _fault_cache[f] = p.startswith(base) and p[len(base):].lstrip(os.sep).startswith(FAULT_DIRS)
    return r


def count_sites(fn):
    """how many fault sites fn() passes"""
    n = [0]

    def tr(frame, event, arg):
        if event == "call" and _is_fault_site(frame.f_code):
            n[0] += 1
        return None

    old = sys.gettrace()
    sys.settrace(tr)
    try:
        fn()
    finally:
        sys.settrace(old)
    return n[0]


def with_fault(fn, k, kind, path=None):
    """run fn(), raising the given kind of exception at its k-th fault site; True if it fired.
    path, if given, collects the sites passed: the same k is the same point only if they are the same"""
    n = [0]
    fired = [False]
    exc = INJECTED[kind]

    def tr(frame, event, arg):
        if event == "call" and not fired[0] and _is_fault_site(frame.f_code):
            if n[0] == k:
                fired[0] = True
                raise exc("injected")
            n[0] += 1
            if path is not None:
                path.append(frame.f_code.co_name)
        return None

    old = sys.gettrace()
    sys.settrace(tr)
    try:
        fn()
    except BaseException as e:
        if not fired[0]:
            raise
        if not isinstance(e, Injected):
            # the library turned the failure into another exception: still a failed command
            pass
        return True
    finally:
        sys.settrace(old)
    return fired[0] and "swallowed"


def with_handler(fn, k, handler):
    """run fn(), calling handler() (a signal handler, say) as its k-th fault site is entered"""
    n = [0]

    def tr(frame, event, arg):
        if event == "call" and _is_fault_site(frame.f_code):
            n[0] += 1
            if n[0] == k + 1:
                sys.settrace(None)
                handler()
        return None

    old = sys.gettrace()
    sys.settrace(tr)
    try:
        return fn()
    finally:
        sys.settrace(old)


# ---------------------------------------------------------------- caller threads
class Deadlock(Exception):
    pass


class Baton:
    """Real threads, one running at a time; the simulator decides at each source line of openspace (and at each
    harness yield; with fine, also at each bytecode instruction outside the arithmetic) whether to hand over and
    to whom.  choose(event_no, me, runnable) -> thread index."""

    current = None

    COARSE = ("math" + os.sep, "coordinates" + os.sep + "positions", "bodies" + os.sep + "celestial")

    def __init__(self, choose, max_events=8_000_000, fine=False):
        self.choose = choose
        self.fine = fine
        self.event = ""
        self.at = ("", 0)
        self.events = 0
        self.max_events = max_events
        self.switches = []
        self.locks = []
        self.alive = []
        self.errors = []
        self.sites = set()
        self.ident = {}
        self.spins = 0
        self.where = ""

    def _hand_over(self, me, nxt):
        self.locks[nxt].release()
        self.locks[me].acquire()

    def _point(self, me, where):
        e = self.events
        self.events = e + 1
        self.spins = 0
        if e > self.max_events:
            raise RuntimeError("too many scheduling events")
        run = [i for i, a in enumerate(self.alive) if a]
        if len(run) < 2:
            return
        nxt = self.choose(e, me, run)
        if nxt is None or nxt == me or not self.alive[nxt]:
            return
        self.switches.append((e, nxt))
        self.sites.add(where)
        self._hand_over(me, nxt)

    def block(self):
        """the running thread cannot proceed (a lock is held): let the next one run"""
        me = self.ident[_thread.get_ident()]
        self.spins += 1
        run = [i for i, a in enumerate(self.alive) if a and i != me]
        if not run or self.spins > 1000:
            raise Deadlock("every thread waits for a lock")
        nxt = min(run, key=lambda i: (i - me) % len(self.alive))
        self._hand_over(me, nxt)

    def yield_(self, me):
        self.where = "yield"
        self._point(me, "yield")

    def run(self, bodies):
        n = len(bodies)
        self.locks = [_thread.allocate_lock() for _ in range(n)]
        for k in self.locks:
            k.acquire()
        self.alive = [True] * n
        self.errors = [None] * n
        done = _thread.allocate_lock()
        done.acquire()

        def start(i):
            def line(frame, event, arg):
                if event == "line" or event == "opcode":
                    f = frame.f_code.co_filename
                    self.where = f[len(PKG):] if f.startswith(PKG) else f
                    self.event = event
                    self.at = (self.where, frame.f_lineno)
                    self._point(i, self.at)
                return line

            def tr(frame, event, arg):
                if event == "call" and is_repo_code(frame.f_code):
                    if self.fine and not frame.f_code.co_filename[len(PKG):].startswith(self.COARSE):
                        frame.f_trace_opcodes = True
                    return line
                return None

            self.locks[i].acquire()
            self.ident[_thread.get_ident()] = i
            try:
                sys.settrace(tr)
                bodies[i]()
            except BaseException as ex:  # noqa: BLE001 - reported by the caller
                self.errors[i] = ex
            finally:
                sys.settrace(None)
                self.alive[i] = False
                rest = [j for j, a in enumerate(self.alive) if a]
                if rest:
                    nxt = self.choose(self.events, i, rest)
                    if nxt is None or not self.alive[nxt]:
                        nxt = rest[0]
                    self.switches.append((self.events, nxt))
                    self.events += 1
                    self.locks[nxt].release()
                else:
                    done.release()

        Baton.current = self
        for i in range(n):
            _thread.start_new_thread(start, (i,))
        self.locks[0].release()
        ok = done.acquire(timeout=120)
        Baton.current = None
        if not ok:
            raise RuntimeError("the thread simulation is stuck")


class SimLock:
    """threading.Lock / RLock as the library would get it: waiting hands the baton on instead of blocking"""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if Baton.current is None:
                raise Deadlock("lock taken twice")
            Baton.current.block()
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def own_locks():
    """from here on, locks created by the library are the simulator's"""
    threading.Lock = SimLock
    threading.RLock = SimRLock


# ---------------------------------------------------------------- host clock
class HostClock:
    """the wall clock as the library would see it: offset, rate and jumps chosen by the simulator"""

    NAMES = ("time", "monotonic", "perf_counter", "process_time", "thread_time")

    def __init__(self, offset, rate, jump=0.0):
        self.offset, self.rate, self.jump = offset, rate, jump
        self.real = {n: getattr(_time, n) for n in self.NAMES + tuple(n + "_ns" for n in self.NAMES) + ("gmtime", "localtime")}
        self.reads = 0

    def now(self, n):
        self.reads += 1
        return self.real[n]() * self.rate + self.offset + self.jump * self.reads

    def __enter__(self):
        import datetime
        clock = self
        for n in self.NAMES:
            setattr(_time, n, lambda n=n: self.now(n))
            setattr(_time, n + "_ns", lambda n=n: int(self.now(n) * 1e9))
        _time.gmtime = lambda s=None: self.real["gmtime"](self.now("time") if s is None else s)
        _time.localtime = lambda s=None: self.real["localtime"](self.now("time") if s is None else s)
        self.dt = datetime.datetime

        class Skewed(datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return clock.dt.fromtimestamp(clock.now("time"), tz)

            @classmethod
            def utcnow(cls):
                return clock.dt.fromtimestamp(clock.now("time"), datetime.timezone.utc).replace(tzinfo=None)

            @classmethod
            def today(cls):
                return cls.now()

        datetime.datetime = Skewed
        return self

    def __exit__(self, *a):
        import datetime
        datetime.datetime = self.dt
        for n, f in self.real.items():
            setattr(_time, n, f)


def finite(*xs):
    return all(math.isfinite(x) for x in xs)
