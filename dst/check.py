"""Command line: python -m dst.check C01 quick   |   python -m dst.check --replay FILE"""
import argparse
import importlib
import json
import os
import platform
import sys
import time

from . import engine


def world_for(prop):
    return importlib.import_module("dst.worlds.%s" % prop.lower())


def known_findings():
    path = os.path.join(engine.ROOT, "known_findings.json")
    with open(path) as f:
        return json.load(f)


def replay(path, quiet):
    with open(path) as f:
        body = json.load(f)
    world = world_for(body["property"])
    if hasattr(world, "setup"):
        world.setup()
    res, viol = engine.run_forked(world, body["plan"], keep_log=not quiet)
    if not quiet:
        for line in res["lines"]:
            print(line)
    if viol:
        print("REPLAYED class=%s" % viol["klass"])
        print("  at step %s: %s" % (viol["step"], viol["msg"]))
        print("VIOLATION property=%s replay=%s" % (body["property"], path))
        return 1
    print("replay did not violate the property on this tree")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--quiet", action="store_true")
    ap.add_argument("--selftest", action="store_true", help="import every world and the code under test")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=os.cpu_count() or 8)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--digest", action="store_true", help="print a digest of every run's event log")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        for n in list(range(1, 20)) + [24, 25, 26, 27]:
            world_for("C%02d" % n).setup()
        print("ok")
        return 0
    if a.replay:
        return replay(a.replay, a.quiet)
    prop, tier = a.property, a.tier
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    world = world_for(prop)
    if hasattr(world, "setup"):
        world.setup()
    total = a.runs or world.RUNS[tier]
    wall = {"quick": 600, "thorough": 7200}[tier]
    t0 = time.monotonic()
    print("property %s: %s tier, seed %d, %d simulated runs on %d workers" % (prop, tier, seed, total, a.workers), flush=True)
    recs, trunc, harness = engine.search(world, prop, seed, tier, total, a.workers, wall)
    explore_s = time.monotonic() - t0
    recs.sort(key=lambda r: r[1])
    bad = [r for r in recs if r[3]]
    if bad:
        recs = [r for r in recs if r[1] <= bad[0][1]]
    if a.digest:
        import hashlib
        h = hashlib.sha256()
        for r in recs:
            h.update(("%d %s %s;" % (r[1], r[2]["log"], r[3])).encode())
        print("DIGEST", h.hexdigest())
    for h in harness[:2]:
        print("HARNESS run %s: %s" % (h[1], h[2][-1500:]), file=sys.stderr)

    # evidence
    faults, probes, counts, states, sigs = {}, {}, {}, set(), set()
    sim_s, nontriv, rechecked, reok = 0.0, set(), 0, 0
    findings = {}
    for _, i, res, viol, again, dt, nops, plan in recs:
        engine.add(faults, res["faults"])
        engine.add(probes, res["probes"])
        engine.add(counts, res["counts"])
        states |= res["states"]
        sigs.add(res["sig"])
        sim_s += res["sim_s"]
        if res["counts"].get("effective", 0) >= 2 and (sum(res["faults"].values()) or res["counts"].get("nontrivial")):
            nontriv.add(res["sig"])
        if again is not None:
            rechecked += 1
            reok += bool(again)
        for k, m in res["findings"]:
            findings[k] = m
    known = {f["key"]: f for f in known_findings().get("findings", []) if f["property"] == prop}
    viol = bad[0][3] if bad else None
    for k, m in sorted(findings.items()):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
        elif not viol:
            viol = dict(klass="finding:" + k, msg=m, step=None)
    code, path = 0, None
    if bad:
        rec = bad[0]
        plan = world.gen(engine.rng_for(seed, prop, rec[1]), tier)
        if hasattr(world, "explicit"):
            # write the schedule the run took into the plan, so that it can be minimised
            tag, val = engine.forked(lambda: world.explicit(plan))
            if tag == "ok" and val and (engine.run_forked(world, val)[1] or {}).get("klass") == rec[3]["klass"]:
                plan = val
        small, sv, tries = engine.minimise(world, plan, rec[3], 90)
        path = engine.replay_file(prop, small, sv, seed, rec[1], "minimised in %d tries from %d to %d operations" % (
            tries, len(plan.get("ops", ())), len(small.get("ops", ()))))
        again = engine.fresh_replay(path)
        if again != sv["klass"]:
            path = engine.replay_file(prop, plan, rec[3], seed, rec[1], "not minimised")
            again = engine.fresh_replay(path)
            sv = rec[3]
        print("run %d (seed %d) broke the property: class %s" % (rec[1], seed, sv["klass"]))
        print("  step %s: %s" % (sv["step"], sv["msg"]))
        print("  replay in a fresh process: %s" % ("reproduces exactly" if again == sv["klass"] else "gave %r" % again))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif viol:
        path = engine.replay_file(prop, dict(ops=[]), viol, seed, -1, "finding not listed in known_findings.json")
        print("  %s" % viol["msg"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif harness:
        code = 2
    elif len(recs) < max(1, total // 4):
        print("only %d of %d runs completed in the time limit" % (len(recs), total), file=sys.stderr)
        code = 2
    wall_s = time.monotonic() - t0
    ev = dict(
        property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed,
        level=getattr(world, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=len(recs),
            distinct_nontrivial=len(nontriv),
            rule="One evaluation is one simulated run: a plan drawn from the run's seed (configuration, operations, schedule and faults) "
                 "executed against the real code under the oracle. " + getattr(world, "RULE", "") +
                 " Non-trivial: at least two operations took effect and at least one fault fired (or the world's own "
                 "non-triviality condition held); distinct: by the hash of the sequence of scheduling decisions, operations and fired faults.",
            samples=[engine.jsonable(r[7]) for r in recs if r[7]][:2] or [dict(note="no run")],
            operations=counts,
            faults_injected=faults,
            fault_kinds=sorted(faults),
            probes=probes,
            distinct_interleavings=len(sigs),
            distinct_interleavings_measure="hash of the run's sequence of (operation, party, fired fault, preemption point)",
            distinct_abstract_states=len(states),
            simulated_seconds=round(sim_s, 1),
            simulated_days=round(sim_s / 86400, 3),
            runs_per_hour=round(len(recs) / max(explore_s, 1e-9) * 3600),
            seeds_per_hour=round(len(recs) / max(explore_s, 1e-9) * 3600),
            determinism_rechecked_runs=rechecked,
            determinism_rechecked_identical=reok,
            components_real=getattr(world, "REAL", ["all of src/openspace reached by the scenario, unmodified"]),
            components_stub=getattr(world, "STUB", []),
            truncated_by_time_limit=trunc,
            exhaustive=False,
            python=platform.python_version(),
        ),
        assumptions=getattr(world, "ASSUMPTIONS", []),
        wall_s=round(wall_s, 2),
        violations=1 if code == 1 else 0,
    )
    if not a.no_evidence:
        os.makedirs(os.path.join(engine.ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(engine.ROOT, "evidence", "%s.json" % prop), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
    print("%d runs, %d distinct non-trivial, %d fault events, %.1f simulated days, %.1f s: %s" % (
        len(recs), len(nontriv), sum(faults.values()), sim_s / 86400, wall_s,
        {0: "held", 1: "VIOLATED", 2: "ERROR"}[code]))
    return code


if __name__ == "__main__":
    sys.exit(main())
