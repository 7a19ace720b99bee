"""C17: the navigation filter is the Kalman filter of its observation stream."""
import copy

from .. import fleet, kal
from .. import gen as G
from .. import ref, seams

RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("A tracker and 1-2 targets; observations are taken, sent over a simulated link that loses, duplicates, delays and reorders them, and delivered "
        "to the tracker's filter between clock movements, burns, restarts of the filter and failures inside an update; after every delivery the "
        "estimate, covariance and epoch are compared with an independent Kalman filter fed the same deliveries.")
STUB = ["random draws inside observations are scripted by the plan", "the link between sensor and filter is simulated (the library has none)"]
shrink = fleet.shrink
LISTS = ("ops",)
SCOPE = ("acquire", "process", "deliver")


def setup():
    seams.load()


gen = kal.gen


def run(plan, ctx):
    kal.World(plan, ctx).go()
