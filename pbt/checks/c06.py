"""C06: sequences of skills are pressed as early as possible."""
from hypothesis import strategies as st

from .. import build as B, gen, model as M
from ..core import Suite, Violation, sut
from ..gen import pct, pick


def labels(R):
    out = []
    ps = R.tl.presses
    if len(ps) < 2:
        return out
    out.append("2+ presses")
    gaps = {round(b[0] - a[0]) for a, b in zip(ps, ps[1:])}
    if len(gaps) > 1:
        out.append("different gaps")
    if any(g % 10 == 0 and g not in (2500, 650) for g in gaps):
        out.append("scaled gap")
    return out


def run(case):
    R = B.Run(case)
    R.check_presses(conds=False)
    return labels(R)


def run_real(case):
    R = B.Run(case, real=True)
    R.check_presses(conds=False)
    return labels(R)


def scenarios():
    return gen.scenarios(timed=0, mix=0, buff=50, debuff=20, haste=50, flat=25, rich=5, cond=15, mods=25, condeff=10,
                         fight_start=20, fu=10, combo=10, res=10, offclass=10, multi=10, presses=(2, 12), expires=10,
                         cast=50)


def real():
    return gen.real_scenarios(timed=0, presses=(2, 25), autos=0, downtime=0, trailing=0, server_tick=0)


# ---- one pair of presses against the rule itself, with effects of unlimited duration

def run_pair(case):
    """The second GCD comes max(recast, cast + lock) after the first, an off-GCD cast + lock after it."""
    s = case["stats"]
    first, second = case["first"], case["second"]
    eff = case["effs"]
    lib = {"jobs": {s["job"]: {"skills": [
        {"name": "First", "gcd": True, "timing": {"v": first}, "dmg": {"v": {"potency": 100}}},
        {"name": "Second", "gcd": case["gcd"], "timing": {"v": second}, "dmg": {"v": {"potency": 100}}},
        *[{"name": f"Effect {i}", "gcd": False, "timing": {"v": {"lock": 0}}, "buff": {"v": {**e, "duration": "inf"}}}
          for i, e in enumerate(eff)]]}}}
    with sut("building the sequence"):
        rb = B.r_rotation(B.r_stats(s), B.r_lib(lib, s["version"], s["level"]), {"fight_start": 0},
                          [{"skill": f"Effect {i}"} for i in range(len(eff))] + [{"skill": "First"}, {"skill": "Second"}])
        rb.get_skill_timing()
        got = {p[1]: p[0] for p in rb.get_button_press_timing()}
    ms = B.m_stats(s)
    haste = [1 - e["haste"] for e in eff if "haste" in e] + ([1 - ms.trait_haste] if ms.trait_haste else [])
    fcast, fgcd = sum(e.get("fcast", 0) for e in eff), sum(e.get("fgcd", 0) for e in eff)

    def scaled(base, t):
        x = M.scaled_time(base, s["speed"], s["version"], s["level"]) if t.get("spd", True) else base
        return M.trunc10([x, *haste]) if t.get("haste", True) else x

    cast = max(0, scaled(first.get("cast", 0), first) - fcast)
    recast = scaled(first.get("recast", 2500), first) - fgcd
    if first.get("recast", 2500) == 2500:
        recast = max(recast, 1500)
    busy = cast + first.get("lock", 650)
    want = max(busy, recast) if case["gcd"] else busy
    if abs(got["Second"] - got["First"] - want) > 1e-6 or abs(got["First"]) > 1e-6:
        raise Violation(f"pressed {got['Second'] - got['First']} ms after the first (at {got['First']}), expected {want} "
                        f"(cast {cast}, recast {recast})")
    return [("GCD" if case["gcd"] else "off-GCD") + (", limited by recast" if case["gcd"] and recast > busy else
                                                     ", limited by cast and lock")] + (
        ["haste"] if haste else []) + (["minimum recast"] if recast == 1500 else [])


@st.composite
def pairs(draw):
    P = {**gen.DEFAULT, "cast": 50, "delay": 0}
    stats = gen.gen_stats(draw, {**P, "jobs": gen.JOBS, "speed_stat": 80})
    effs = []
    for _ in range(draw(st.integers(0, 3))):
        e = {}
        if pct(draw, 60):
            e["haste"] = pick(draw, [0.13, 0.2, 0.25, 0.15, 0.1, 0.4, 0.04])
        if pct(draw, 20):
            e["fcast"] = pick(draw, [500, 1000, 2500, 10])
        if pct(draw, 20):
            e["fgcd"] = pick(draw, [500, 1000, 100])
        effs.append(e)
    t = gen.gen_timing(P, True)
    return {"stats": stats, "first": t(draw), "second": t(draw), "gcd": pct(draw, 70), "effs": effs}


SUITES = [
    Suite("pairs", pairs, run_pair, 2500, 200000,
          "two presses under permanent effects against the closed formula; labels: what limits the second press"),
    Suite("sequences", scenarios, run, 2500, 200000,
          "generated skills and effects against the reference model; non-trivial: two or more presses"),
    Suite("real-skills", real, run_real, 500, 60000, "sequences of real skills of any job against the reference model"),
]
ASSUMPTIONS = ["truncations decided by floating point error alone are not judged"]
