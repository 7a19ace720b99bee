"""writes MANIFEST.json"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over %s"
SEARCH = {
    "C01": ("command histories, clock jumps, interrupted commands and crashes of tracked fleets", "clock model"),
    "C02": ("flight histories with jumps, burns, restarts and interrupted commands", "independent reimplementation of the documented force model and integrator"),
    "C03": ("tick schedules, overshoots and returns", "two schedules of one flight against each other, error bound by step halving"),
    "C04": ("interleavings of independent scenarios, some failing part-way", "each scenario's history alone in a fresh process, bit for bit"),
    "C05": ("thread preemptions at every source line of the library", "each thread's history alone; the states a spacecraft passed through"),
    "C06": ("failures injected at numerical operations inside commands", "the command without the failure, and a fresh spacecraft from the reported state"),
    "C07": ("overwritten snapshots, and process deaths with lost, torn and mid-command saves", "the untouched run, bit for bit"),
    "C08": ("histories of burns and flight", "independent radial/in-track/cross-track transform"),
    "C09": ("histories of finite burns", "independent rocket-equation and powered-flight integration"),
    "C10": ("attitude, flight and burn histories of fleets", "independent pointing geometry"),
    "C11": ("tracking graphs, retargeting and skewed clocks", "model of the tracking graph"),
    "C12": ("attitude commands and irregular ticks around slew ends", "model of the slew timer"),
    "C13": ("flight and attitude histories, sensor limits placed at the edge", "independent sensing geometry and photometry"),
    "C14": ("dictated noise draws over flight histories and geometries", "independent noise model"),
    "C15": ("executions under other processes, threads, host clocks, hash seeds and prior activity", "bit-for-bit comparison of the histories"),
    "C16": ("late, reordered and repeated conversions of observations during flight", "independent frame chain"),
    "C17": ("lossy, reordering, duplicating observation links with failing updates and restarts", "independent Kalman filter"),
    "C18": ("bounded fault prefixes followed by regular observations", "truth trajectory; liveness within 30 observations"),
    "C24": ("delayed, lost, reordered and retransmitted reports of a target in interrupted flight", "independent two-body solution and truth trajectory"),
    "C25": ("delayed, lost, repeated and reordered timelines of calendar-dated commands, with restarts", "the standard library's calendar and the documented sidereal angle"),
    "C26": ("sliced, interrupted and restarted transfer flights", "independent transfer formulas and conservation laws"),
    "C27": ("late, repeated and reordered relative-state handovers between spacecraft in interrupted flight", "independent curvilinear relative frame, its derivative, and the truth flight"),
    "C19": ("tick schedules of the relative propagator", "closed-form relative-motion solution"),
}
NA = {
    "C20": "Frame conversions are pure functions of their arguments: no state, schedule, time source or fault can reach them, so a simulated schedule adds nothing over choosing inputs. Their use during flight is decided inside C02, C14 and C16.",
    "C21": "Element conversions and Kepler's equation are pure functions of their arguments; there is no schedule, fault or history to simulate.",
    "C22": "Vector and matrix operations are pure functions of their operands; there is no schedule, fault or history to simulate. Every simulated flight exercises them against the independent reference.",
    "C23": "Sun and Moon series are pure functions of the epoch, and no precise ephemeris is available offline. That flights use the documented series is decided in C02, C10 and C13.",
}

checks = []
for p, (over, oracle) in sorted(SEARCH.items()):
    checks.append(dict(
        property=p,
        quick_cmd="bash run.sh %s quick" % p,
        thorough_cmd="bash run.sh %s thorough" % p,
        technique=TECH % over,
        level="fault_enumeration" if p == "C06" else "exploration",
        level_note="Real openspace code from /repo's working tree; oracle: %s. Seeded sampling, not exhaustive: what no explored run reached is not decided. "
                   "One seed is one exactly repeatable execution; violations come with a minimised replay file." % oracle))
out = dict(version=1, setup_cmd="bash run.sh --selftest", checks=checks,
           not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
           notes="No hooks in /repo: random draws, host clock, locks, thread scheduling and failing operations are reached through Python's own seams "
                 "(module attributes, trace functions). Known and fixed defects: known_findings.json. Design: DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
