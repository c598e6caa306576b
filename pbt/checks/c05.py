"""C05: ranges, expectation, variance and the per-hit report."""
import math

from hypothesis import strategies as st

from .. import build as B, dmg as D, gen, model as M
from ..core import Suite, Violation, sut
from ..model import consts
from ..gen import pct, pick
from . import hits as H
from .c04 import usable

NAMES = {"No crit, no DH": (False, False), "Crit, no DH": (True, False), "No crit, DH": (False, True),
         "Crit, DH": (True, True)}


def within(x, lo, hi, tol=1e-9):
    return float(lo) - tol * max(1, abs(float(lo))) <= x <= float(hi) + tol * max(1, abs(float(hi)))


def check_ranges(what, row, want):
    got = {x[0]: x for x in row[1:]}
    if set(got) != set(NAMES) or len(row) != 5:
        raise Violation(f"{what}: outcomes are {[x[0] for x in row[1:]]}")
    for name, cd in NAMES.items():
        _, lo, hi, p = got[name]
        wl, wh, wp = want[cd]
        if lo not in wl or hi not in wh:
            raise Violation(f"{what}: range of '{name}' is {lo}..{hi}, expected {sorted(map(float, wl))}.."
                            f"{sorted(map(float, wh))}")
        if abs(p - float(wp)) > 1e-9:
            raise Violation(f"{what}: probability of '{name}' is {p}, expected {float(wp)}")
        if not lo <= hi:
            raise Violation(f"{what}: range {lo}..{hi}")
    if abs(sum(x[3] for x in row[1:]) - 1) > 1e-9:
        raise Violation(f"{what}: probabilities sum to {sum(x[3] for x in row[1:])}")


def check_moments(what, mean, var, ranges):
    lo, hi = D.mean_bounds(ranges)
    if not within(mean, lo, hi):
        raise Violation(f"{what}: expected damage is {mean}, should be {float(lo)}")
    v = D.variance(ranges)
    if not var >= 0:
        raise Violation(f"{what}: variance is {var}")
    if v is not None and abs(var - float(v)) > 1e-6 * max(1.0, float(v), float(lo) ** 2 * 1e-6):
        raise Violation(f"{what}: variance is {var}, should be {float(v)}")


def run_hits(case):
    with sut("stats"):
        stats = B.r_stats(case["stats"])
    ms = B.m_stats(case["stats"])
    kinds = usable(case)
    use = [u for u in case["uses"] if u[0] < len(kinds)]
    if case.get("repeat"):
        use = [[u[0], u[1] + 7 * k, u[2]] for k in range(case["repeat"]) for u in use]
    inst = [kinds[k].instance(t, i, tg) for i, (k, t, tg) in enumerate(use)]
    rg = [D.outcome_ranges(ms, h.dmg, h.mod, h.meffs) for h in kinds]
    with sut("simulating and reporting"):
        sim = B.DamageSimulator(stats, inst, 1)
        ranges = sim.get_damage_ranges()
        means, vs = list(sim.get_expected_damage_per_damage_instance()), list(sim.get_variance_per_damage_instance())
        total, tvar = float(sim.get_expected_damage()), float(sim.get_damage_variance())
        rows = sim.get_per_skill_damage()
        ids, times = list(sim.get_event_ids()), list(sim.get_damage_time())
    for what, x in (("ranges", ranges), ("expectations", means), ("variances", vs), ("rows", rows), ("event ids", ids),
                    ("times", times)):
        if len(x) != len(use):
            raise Violation(f"{len(x)} {what} for {len(use)} hits")
    if sorted(ids) != list(range(len(use))):
        raise Violation(f"event ids {ids[:20]}")
    for i, row in enumerate(rows):
        k, t, tg = use[row.event_id]
        h = kinds[k]
        what = f"row {i} of {len(rows)} (event {row.event_id}, hit {h.d})"
        want = (t, h.name, h.dmg.potency, frozenset(h.mod.conds), tg, h.dmg.cls)
        got = (row.application_time, row.skill_name, row.potency, frozenset(row.skill_modifier_condition), row.target,
               row.damage_class.name)
        if got != want:
            raise Violation(f"{what}: {got} instead of {want}")
        if tuple(map(B.eff_key, row.status_effects)) != tuple(map(B.eff_key, h.reffs)):
            raise Violation(f"{what}: effects {row.status_effects}")
        if ids[i] != row.event_id or times[i] != t or ranges[i][0] != h.name:
            raise Violation(f"{what}: event id {ids[i]}, time {times[i]}, range of {ranges[i][0]} in the same place")
        check_ranges(what, ranges[i], rg[k])
        check_moments(what, row.expected_damage, row.standard_deviation ** 2, rg[k])
        check_moments(what, means[i], vs[i], rg[k])
    if list(times) != sorted(times):
        raise Violation(f"hits are not in time order: {times[:20]}")
    if not (abs(total - math.fsum(means)) <= 1e-9 * max(1.0, total) and abs(tvar - math.fsum(vs)) <= 1e-9 * max(1.0, tvar)):
        raise Violation(f"totals {total}, {tvar} are not the sums {math.fsum(means)}, {math.fsum(vs)} over hits")
    return ["hits: " + ("0" if not use else "1" if len(use) == 1 else "2-9" if len(use) < 10 else "10-4999"
                        if len(use) < 5000 else ">= 5000")]


@st.composite
def hit_cases(draw):
    kinds = [H.gen_hit(draw) for _ in range(draw(st.integers(1, 4)))]
    for i, h in enumerate(kinds):
        h["name"] = "skill %d" % (i if pct(draw, 80) else 0)
        if pct(draw, 40):
            h["mod"]["cond"] = pick(draw, ["cA", "cA, cB", "cC,cA"])
    n = draw(st.integers(0, 12))
    uses = [[draw(st.integers(0, len(kinds) - 1)), draw(st.integers(-3000, 30000)),
             pick(draw, ["Default Target", "t1", "t2"])] for _ in range(n)]
    return {"stats": H.gen_stats(draw), "hits": kinds, "uses": uses}


@st.composite
def tiny_cases(draw):
    """Hits of so little damage that their outcomes coincide: nothing is left of the spread but rounding."""
    c = draw(hit_cases())
    lo = consts(c["stats"]["version"], c["stats"]["level"])["sub"]
    c["stats"].update(wd=draw(st.integers(1, 12)), main=draw(st.integers(300, 500)), roles=0,
                      crit=draw(st.integers(lo, 2200)))
    for h in c["hits"]:
        h["dmg"]["potency"] = draw(st.integers(0, 6))
        if pct(draw, 50):
            h["effs"] = [{k: e[k] for k in e if k in ("crit", "dh")} for e in h["effs"]]
        if pct(draw, 60):
            h["dmg"]["single"] = pick(draw, [1.1, 1.15, 1.2, 1.3])
    c["uses"] = [[i, i, "t1"] for i in range(len(c["hits"]))]
    return c


def big_cases(tier):
    stats = dict(wd=126, main=2945, det=1620, crit=2377, dh=1048, speed=400, job="SAM", version="7.1", level=100,
                 ten=751, strength=351)
    kinds = [{"dmg": {"potency": 100 + 30 * i}, "effs": [{"mult": 1 + i / 10}, {}], "mod": {}, "name": f"skill {i}"}
             for i in range(5)]
    uses = [[i, 1000 * ((7 * i) % 5), "t%d" % i] for i in range(5)]
    return [{"stats": stats, "hits": kinds, "uses": uses, "repeat": r} for r in (1000, 1001, 1300, 1, 0, 2001, 999,
                                                                                 4100)]


def run_rotation(case):
    """Report of a whole rotation, with snapshot times."""
    R = B.Run(case)
    R.skip_if_ambiguous()
    with sut("simulating and reporting"):
        sim = B.DamageSimulator(R.stats, R.inst, 1)
        rows = sim.get_per_skill_damage(R.rb)
        ranges = sim.get_damage_ranges()
    dmg = lambda h: M.pick(h.skill.dmg, h.mod.conds)  # noqa: E731
    B.diff("rows of the report",
           [(B.r(x.application_time), B.r(x.snapshot_time), x.skill_name, x.target, B.r(x.potency),
             x.damage_class.name, tuple(sorted(x.skill_modifier_condition)), B.eff_key(x.status_effects[0]),
             B.eff_key(x.status_effects[1])) for x in rows],
           [(B.r(h.t), B.r(h.snap), h.skill.name, h.target, B.r(dmg(h).potency), dmg(h).cls,
             tuple(sorted(h.mod.conds)), B.eff_key_m(h.buffs), B.eff_key_m(h.debuffs)) for h in R.hits],
           ["application", "snapshot", "skill", "target", "potency", "class", "conditions", "buffs", "debuffs"])
    # expectation belongs to the row: recompute it from a hit with the same data
    by = {}
    for h in R.hits:
        by.setdefault((B.r(h.t), h.skill.name, h.target, B.r(dmg(h).potency), B.eff_key_m(h.buffs),
                       B.eff_key_m(h.debuffs)), []).append(h)
    for x, rg in zip(rows, ranges):
        hs = by[B.r(x.application_time), x.skill_name, x.target, B.r(x.potency), B.eff_key(x.status_effects[0]),
                B.eff_key(x.status_effects[1])]
        if len({(dmg(h), h.mod.crit, h.mod.dh) for h in hs}) > 1:
            continue
        h = hs[0]
        want = D.outcome_ranges(R.ms, dmg(h), h.mod, (h.buffs, h.debuffs))
        check_ranges(f"hit of {x.skill_name}", rg, want)
        check_moments(f"hit of {x.skill_name}", x.expected_damage, x.standard_deviation ** 2, want)
    ts = [x.application_time for x in rows]
    if ts != sorted(ts):
        raise Violation(f"rows are not in time order: {ts}")
    return ([f"rows: {'1' if len(rows) == 1 else '2+'}"] if rows else ["no hits"]) + (
        ["snapshot before application"] if any(x.snapshot_time != x.application_time for x in rows) else [])


def rotations():
    return gen.scenarios(buff=30, debuff=20, dot=25, fu=20, multi=20, cond=15, mods=30, autos=20, presses=(0, 8),
                         skills=(1, 4), target=10)


SUITES = [
    Suite("hits", hit_cases, run_hits, 2200, 200000,
          "any list of hits in any order of entry, incl. none and more than 5000; non-trivial: all", big_cases),
    Suite("tiny hits", tiny_cases, run_hits, 1200, 60000, "hits of 0 to a few points of damage"),
    Suite("rotations", rotations, run_rotation, 1200, 100000, "reports of generated rotations with snapshot times"),
]
