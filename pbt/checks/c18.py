"""C18: any rotation of real skills simulates to sane numbers."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import build as B, gen
from ..core import Skip, Suite, Violation, sut
from ..gen import pct


def sane(R, samples=3):
    with sut("simulating"):
        sim = B.DamageSimulator(R.stats, R.inst, samples, save_damage_matrix=True)
        rows = sim.get_per_skill_damage(R.rb)
        times = list(sim.get_damage_time())
        matrix = np.array(sim.get_damage_matrix(), dtype=float)
        raw = np.array(sim.get_raw_damage(), dtype=float)
        dps = np.array(sim.get_dps(), dtype=float)
        rates = [np.array(x, dtype=float).flatten() for x in sim.get_crit_and_dh_rates()]
        exp = list(sim.get_expected_damage_per_damage_instance())
        var = list(sim.get_variance_per_damage_instance())
        total = float(sim.get_expected_damage())
    n = len(R.inst)
    for what, x in (("rows", rows), ("times", times), ("expected damages", exp), ("variances", var)):
        if len(x) != n:
            raise Violation(f"{len(x)} {what} for {n} hits")
    if times != sorted(times) or [x.application_time for x in rows] != sorted(x.application_time for x in rows):
        raise Violation(f"hits are not in time order: {times[:30]}")
    if not np.isfinite(matrix).all() or (matrix < 0).any():
        raise Violation(f"sampled damage that is negative or not finite: {matrix.min()} .. {matrix.max()}")
    if len(raw) != samples or not np.isfinite(raw).all():
        raise Violation(f"totals of {samples} samples: {raw}")
    for x in rates:
        if len(x) != n or not ((x >= 0) & (x <= 1)).all():
            raise Violation(f"chances {x} of {n} hits")
    for i, (e, v, row) in enumerate(zip(exp, var, rows)):
        if not (math.isfinite(e) and e >= 0 and math.isfinite(v) and v >= 0):
            raise Violation(f"hit {i}: expected damage {e}, variance {v}")
        if not (math.isfinite(row.expected_damage) and row.expected_damage >= 0 and math.isfinite(row.standard_deviation)):
            raise Violation(f"row {i}: {row}")
        if row.snapshot_time > row.application_time:
            raise Violation(f"snapshot after application: {row}")
        if row.potency < 0:
            raise Violation(f"negative potency: {row}")
    if abs(total - math.fsum(exp)) > 1e-6 * max(1.0, total):
        raise Violation(f"total {total} of expected damages {math.fsum(exp)}")
    if n and times[-1] > times[0] and not (np.isfinite(dps).all() and (dps >= 0).all()):
        raise Violation(f"dps {dps}")
    return exp


def labels(R):
    out = set()
    if R.inst:
        out.add("hits")
    if any("job" in p for p in R.case["rot"]):
        out.add("party members")
    if any(isinstance(p.get("targets"), list) and len(p["targets"]) > 1 for p in R.case["rot"]):
        out.add("several targets")
    for k in R.case["opts"]:
        out.add("option " + k)
    return sorted(out) if R.inst else []


def run(case):
    try:
        R = B.Run(case, real=True)
    except Skip as e:
        if str(e) != "unknown resource":
            raise
        # a party member's skill, as it is used by default, must not need anything of the player's job.
        with sut("building the rotation"):
            stats = B.r_stats(case["stats"])
            lib = B.real_lib(case["stats"]["version"], case["stats"]["level"])
            timing = B.r_rotation(stats, lib, case["opts"], case["rot"]).get_skill_timing()
            B.DamageBuilder(stats, lib).get_damage_instances(timing)
        raise
    R.check_presses()
    R.check_events(n=5)
    sane(R)
    R.check_hits()
    return labels(R)


def run_monotone(case):
    """More weapon damage or main stat never lowers any hit."""
    c = {k: v for k, v in case.items() if k != "more"}
    R = B.Run(c, real=True)
    lib, stats, inst = R.lib, R.stats, R.inst
    with sut("simulating"):
        exp = list(B.DamageSimulator(stats, inst, 1).get_expected_damage_per_damage_instance())
    out = []
    for wd, main in case["more"]:
        with sut("with more stats"):
            s2 = B.r_stats({**c["stats"], "wd": c["stats"]["wd"] + wd, "main": c["stats"]["main"] + main})
            rb2 = B.r_rotation(s2, lib, c["opts"], c["rot"])
            inst2 = B.DamageBuilder(s2, lib).get_damage_instances(rb2.get_skill_timing())
            exp2 = list(B.DamageSimulator(s2, inst2, 1).get_expected_damage_per_damage_instance())
        key = [(B.r(x[0]), x[1].name, x[5]) for x in inst]
        if key != [(B.r(x[0]), x[1].name, x[5]) for x in inst2]:
            raise Violation("the hits themselves changed with weapon damage or main stat")
        for i, (a, b) in enumerate(zip(exp, exp2)):
            if b < a * (1 - 1e-9):
                raise Violation(f"+{wd} weapon damage, +{main} main stat lower {inst[i][1].name} from {a} to {b}")
        if any(b > a for a, b in zip(exp, exp2)):
            out.append("raised")
    return out


@st.composite
def monotone_cases(draw):
    c = draw(gen.real_scenarios(presses=(1, 10), downtime=10))
    c["more"] = [[draw(st.integers(0, 30)), draw(st.integers(0, 2500))] for _ in range(draw(st.integers(1, 3)))]
    if pct(draw, 40):
        c["more"][0] = [1, 0] if pct(draw, 50) else [0, draw(st.integers(1, 3))]
    return c


@st.composite
def simultaneous(draw):
    """Presses of the same or other skills at one and the same time, on one or several targets."""
    c = draw(gen.real_scenarios(party=20, presses=(2, 8), timed=100, multi=40, autos=10, downtime=5))
    rot = c["rot"]
    for i in range(1, len(rot)):
        if pct(draw, 50):
            rot[i]["t"] = rot[i - 1]["t"]
            if pct(draw, 60):
                rot[i] = {**rot[i - 1], **({"targets": rot[i]["targets"]} if "targets" in rot[i] else {})}
    return c


def short():
    return gen.real_scenarios(party=15, bonus=10)


def long():
    return gen.real_scenarios(party=15, presses=(25, 70), generic=5, mods=10)


SUITES = [
    Suite("rotations", short, run, 550, 90000, "1-20 presses of any job, patch and level; non-trivial: has hits"),
    Suite("long-rotations", long, run, 56, 9000, "25-70 presses; same rule"),
    Suite("simultaneous", simultaneous, run, 300, 40000, "presses at the same time; same rule"),
    Suite("more-stats", monotone_cases, run_monotone, 160, 30000, "same rotation with more weapon damage or main stat; "
          "non-trivial: a hit is raised"),
]
ASSUMPTIONS = ["the order of simultaneous events of one and the same skill is unspecified: cases where it matters are "
               "not judged", "an Automaton Queen without the battery the game requires is not judged", "skills of other jobs are party skills (others depend on resources the player's job lacks)"]
