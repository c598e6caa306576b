"""C02: the damage formula."""
from hypothesis import strategies as st

from .. import build as B, dmg as D
from ..core import Suite, Violation, sut
from ..gen import pct, pick
from . import hits as H
from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils as CDU


def check_base(stats, ms, h):
    want = D.base_damage(ms, h.dmg, h.mod, h.meffs)
    with sut(f"base damage of {h.d}"):
        got = CDU.get_base_damage(h.skill, h.modifier, stats, h.reffs)
    if got is None or not any(abs(float(got) - float(w)) <= 1e-9 * max(1.0, float(w)) for w in want):
        raise Violation(f"average damage of {h.d}: got {got}, expected {sorted(map(float, want))}")
    return want


def run_formula(case):
    with sut("stats"):
        stats = B.r_stats(case["stats"])
    ms = B.m_stats(case["stats"])
    out = []
    for i, d in enumerate(case["hits"]):
        h = H.Hit(d, i)
        if any(len(D.forced(k, h.dmg, h.mod, h.meffs)) == 2 for k in ("crit", "dh")):
            continue
        want = check_base(stats, ms, h)
        out += H.labels(h, case["stats"])
        if want == {0}:
            out.append("zero potency")
        if want == {1}:
            out.append("clamped to 1")
    return out


@st.composite
def formula_cases(draw):
    return {"stats": H.gen_stats(draw),
            "hits": [H.gen_hit(draw) for _ in range(draw(st.integers(1, 3)))]}


def run_ranges(case):
    """The same through the simulator: the ranges reported for a hit contain the formula's result."""
    with sut("stats"):
        stats = B.r_stats(case["stats"])
    ms = B.m_stats(case["stats"])
    hs = [H.Hit(d, i) for i, d in enumerate(case["hits"])]
    hs = [h for h in hs if not any(len(D.forced(k, h.dmg, h.mod, h.meffs)) == 2 for k in ("crit", "dh"))]
    if not hs:
        return None
    with sut("simulating"):
        sim = B.DamageSimulator(stats, [h.instance(1000 * i, i) for i, h in enumerate(hs)], 2)
        got = sim.get_damage_ranges()
    for h, row in zip(hs, got):
        want = D.outcome_ranges(ms, h.dmg, h.mod, h.meffs)[False, False]
        lo, hi = row[1][1], row[1][2]
        if lo not in want[0] or hi not in want[1]:
            raise Violation(f"plain damage range of {h.d}: got {lo}..{hi}, expected {sorted(map(float, want[0]))}.."
                            f"{sorted(map(float, want[1]))}")
    return sorted({x for h in hs for x in H.labels(h, case["stats"])})


def run_variant(case):
    """Conditional damage: the variant in force decides class, potency and bonuses."""
    with sut("stats"):
        stats = B.r_stats(case["stats"])
    ms = B.m_stats(case["stats"])
    h = H.Hit(case["hit"])
    check_base(stats, ms, h)
    return ["variant of " + str(len(case["hit"]["variants"]))]


@st.composite
def variant_cases(draw):
    keys = pick(draw, [["", "cA"], ["", "cA", "cA, cB"], ["cB", "", "cA, cB", "cA, cB, cC"], ["", "cA, cB"]])
    h = {"variants": [[k, H.gen_dmg_spec(draw)] for k in keys], "effs": [H.gen_eff(draw), H.gen_eff(draw)],
         "mod": {"cond": pick(draw, ["", "cA", "cA, cB", "cB,cA", "cB", "cC", "cC, cA", "cA,cB,cC", "cD"])}}
    if pct(draw, 20):
        h["mod"]["dh"] = "FORCE_YES"
    return {"stats": H.gen_stats(draw), "hit": h}


SUITES = [
    Suite("formula", formula_cases, run_formula, 10000, 900000,
          "hits of any class, job and effects compared with the exact formula; labels: class and role, forced outcomes, "
          "clamping"),
    Suite("simulated", formula_cases, run_ranges, 2500, 150000, "same, observed through DamageSimulator"),
    Suite("variants", variant_cases, run_variant, 4000, 250000, "conditional damage specs"),
]
ASSUMPTIONS = ["a truncation of an exact whole number may lose 1 to floating point: both results are accepted"]
