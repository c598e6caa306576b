"""C21: rotation analysis."""
import math
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from .. import build as B, gen
from ..core import Suite, Violation, sut
from ..gen import pct, pick
from ama_xiv_combat_sim.rotation_analysis.rotation_analysis_utils import RotationAnalysisUtils as RA
from ama_xiv_combat_sim.simulator.damage_simulator import PerInstanceDamage


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def check_report(rows, stamps, interval):
    """rows: [(snapshot ms, expected damage)] in the order of psd."""
    psd = rows
    data = [(F(str(x.snapshot_time)), x.expected_damage) for x in psd]

    def upto(ms):
        return math.fsum(d for s, d in data if s <= ms)

    for t in stamps:
        with sut("damage by a timestamp"):
            got = RA.get_all_damage_snapshots_before_timestamp(psd, t)
        want = upto(F(str(t)) * 1000)
        if not close(got, want):
            raise Violation(f"damage snapshotted by {t} s is {got}, expected {want} of {data[:20]}")
    if not data:
        return
    with sut("interval report"):
        rep = RA.get_dps_at_intervals(psd, interval)
    last = max(s for s, _ in data)
    times = [F(k) for k in range(interval, int(last / 1000) + 2, interval) if k * 1000 < last] + [last / 1000]
    got = list(rep["snapshot_time"])
    if len(got) != len(times) or any(abs(a - float(b)) > 1e-9 for a, b in zip(got, times)):
        raise Violation(f"interval {interval}, last snapshot {float(last)} ms: times {got}, expected {list(map(float, times))}")
    sums = list(rep["total_snapshotted_damage"])
    for t, s in zip(times, sums):
        if abs(s - upto(t * 1000)) > 0.0051 + 1e-9 * abs(s):
            raise Violation(f"by {float(t)} s {s} damage, expected {upto(t * 1000)} of {data[:20]}")
    if sums != sorted(sums) or abs(sums[-1] - math.fsum(d for _, d in data)) > 0.0051 + 1e-9 * abs(sums[-1]):
        raise Violation(f"sums {sums} of {len(data)} hits")


def run_rows(case):
    with sut("rows"):
        psd = [PerInstanceDamage(application_time=s + d, snapshot_time=s, skill_name=f"s{i}", potency=100,
                                 skill_modifier_condition=frozenset(), status_effects=None, expected_damage=e,
                                 standard_deviation=1.0, event_id=i, target="t", damage_class=None)
               for i, (s, d, e) in enumerate(case["rows"])]
    check_report(psd, case["stamps"], case["interval"])
    snaps = [r[0] for r in case["rows"]]
    out = []
    if len(set(snaps)) > 1:
        out.append("several snapshots")
    if any(round(1000 * t) in snaps for t in case["stamps"]):
        out.append("timestamp at a snapshot")
    if snaps and max(snaps) > 1000 * case["interval"]:
        out.append("several intervals")
    return out


@st.composite
def row_cases(draw):
    snap = st.one_of(st.integers(-2000, 40000), st.integers(0, 40).map(lambda k: k * 1000), st.integers(-6000, 400000),
                     st.integers(1000, 1040), st.integers(4000, 4200))
    rows = draw(st.lists(st.tuples(snap, st.integers(0, 3000), st.one_of(
        st.integers(0, 50000).map(float), st.integers(0, 10 ** 7).map(lambda k: k / 1000))).map(list), max_size=12))
    if pct(draw, 70):
        rows.sort(key=lambda r: r[0] + r[1])
    stamps = draw(st.lists(st.one_of(st.integers(-3, 60), st.integers(-3000, 60000).map(lambda k: k / 1000)), max_size=3))
    for _ in range(2):
        if rows and pct(draw, 70):
            stamps.append((pick(draw, rows)[0] + pick(draw, [0, 0, 0, 1, -1])) / 1000)
    return {"rows": rows, "stamps": stamps, "interval": draw(st.one_of(st.integers(1, 5), st.integers(1, 60)))}


def run_rotation(case):
    R = B.Run(case, real=True)
    with sut("simulating"):
        sim = B.DamageSimulator(R.stats, R.inst, 1)
        psd = sim.get_per_skill_damage(R.rb)
        total = float(sim.get_expected_damage())
    B.diff("snapshot times", [(B.r(x.snapshot_time), x.skill_name) for x in psd], [(B.r(h.snap), h.skill.name) for h in R.hits])
    snaps = sorted({x.snapshot_time for x in psd})
    check_report(psd, [s / 1000 for s in snaps[:: max(1, len(snaps) // 5)]] + [1e6], case["interval"])
    with sut("damage by the end"):
        end = RA.get_all_damage_snapshots_before_timestamp(psd, 1e6)
    if not close(end, total):
        raise Violation(f"damage by the end is {end} of {total}")
    return ["rotation"] if len(snaps) > 1 else []


@st.composite
def rotations(draw):
    c = draw(gen.real_scenarios(presses=(1, 10), downtime=0))
    c["interval"] = draw(st.integers(1, 12))
    return c


def exact_max(x, k):
    xs = sorted(x)
    n = len(xs)
    return float(sum(F(v) * (F(i + 1, n) ** k - F(i, n) ** k) for i, v in enumerate(xs)))


def run_max(case):
    x = np.array(case["x"], dtype=float)
    n, k = case["trials"], case["k"]
    np.random.seed(case["seed"])
    with sut("expected maximum"):
        got = float(RA.get_expected_max_in_k_runs(x, k, n))
    np.random.seed()
    if list(x) != [float(v) for v in case["x"]]:
        raise Violation("the results given were changed")
    if not min(x) - 1e-6 <= got <= max(x) + 1e-6:
        raise Violation(f"expected best of {k} runs is {got}, results are {min(x)} to {max(x)}")
    want = exact_max(case["x"], k)
    m2 = exact_max([v * v for v in case["x"]], k) if min(case["x"]) >= 0 else None
    sd = math.sqrt(max(0.0, m2 - want * want)) if m2 is not None else (max(x) - min(x)) / 2
    width = max(x) - min(x)
    tol = 7 * sd / math.sqrt(n) + 30 * width / n + 1e-6 * max(1.0, want)
    if abs(got - want) > tol:
        raise Violation(f"expected best of {k} runs is {got} in {n} trials, expected {want} +- {tol}")
    return ["narrow"] if width > 0 and tol < width / 6 else []


@st.composite
def max_cases(draw):
    x = draw(st.lists(st.one_of(st.integers(0, 100), st.integers(0, 10 ** 6), st.integers(9000, 9100)), min_size=1, max_size=12))
    return {"x": x, "k": draw(st.one_of(st.integers(1, 5), st.integers(1, 40))), "trials": pick(draw, [4000, 2000, 8000]),
            "seed": draw(st.integers(0, 2 ** 31))}


SUITES = [
    Suite("reports", row_cases, run_rows, 3000, 300000, "generated hits with any snapshot times; non-trivial: several "
          "snapshots, timestamps at a snapshot, or several intervals"),
    Suite("rotations", rotations, run_rotation, 200, 20000, "reports of real rotations; non-trivial: several snapshots"),
    Suite("best-of-k", max_cases, run_max, 300, 30000, "against the exact expectation, within 7 standard errors plus 30/n of "
          "the range; non-trivial: this is narrow compared to the range"),
]
ASSUMPTIONS = ["numpy's generator is uniform and independent"]
