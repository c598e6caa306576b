"""C22: missed positionals and combos from logged bonus percentages."""
import io
from contextlib import redirect_stdout
from fractions import Fraction as F

from hypothesis import strategies as st

from .. import build as B, gen, model as M
from ..core import Skip, Suite, Violation, sut
from ..gen import pct, pick

COMBOS = ([], ["No Positional"], ["No Combo"], ["No Combo", "No Positional"])
STATS = dict(wd=126, main=2945, det=1620, crit=2377, dh=1048, speed=420, ten=420, strength=351)


def percent(d, low):
    """Bonus the game logs for a hit of this potency."""
    low = d.min_potency or low
    return None if d.potency == 0 else int(F(str(d.potency - low)) * 100 / F(str(d.potency)))


def table_of(skill):
    if len(skill.dmg) > 1:
        return skill.dmg
    if not skill.dmg and len(skill.fu) > 1:
        t = [(k, next((f.skill.dmg[0][1] for f in fus if f.skill.dmg), None)) for k, fus in skill.fu]
        if all(d is not None for _, d in t):
            return t
    return None


def check(case, real):
    R = B.Run(case, real=real)
    R.check_events("conditions of events", n=5)
    R.check_presses()
    R.check_hits((0, 1, 2, 3), "hits with conditions")
    # what the percentages say, whatever the model makes of it
    m = case["rot"][-1].get("mod") or {}
    given = M.parse_conds(m.get("cond", ""))
    skill = R.mlib.skills[R.ms.job][case["rot"][-1]["skill"]]
    got = [e for e in R.tl.events if e.origin == "press" and e.skill.name == skill.name][-1].mod.conds  # as found above
    if not given <= got:
        raise Violation(f"conditions {sorted(given - got)} were lost")
    t = table_of(skill)
    if t is None or not any("No Positional" in k for k, _ in t):
        return None
    if "bonus" not in m:
        if "No Positional" in got - given:
            raise Violation("a missed positional without a percentage")
        return ["no percentage"]
    b = m["bonus"]
    if b == 0:
        if "No Positional" not in got:
            raise Violation("bonus of 0 is a missed positional")
        base = got - set(skill.ign)
        floor = M.pick(t, base | {"No Combo", "No Positional"})
        if percent(floor, floor.potency) == 0 and percent(M.pick(t, base), floor.potency) != 0:
            raise Violation("no bonus, but conditions which give one")
        return ["missed"]
    base = got - set(skill.ign)
    floor = M.pick(t, base | {"No Combo", "No Positional"})
    if not any(percent(M.pick(t, base | set(x)), floor.potency) == b for x in COMBOS):
        buf = io.StringIO()
        with sut("building again"), redirect_stdout(buf):
            B.r_rotation(R.stats, R.lib, case["opts"], case["rot"]).get_skill_timing()
        if skill.name not in buf.getvalue():
            raise Violation(f"{skill.name} with bonus {b}, which no combination gives: nothing is reported")
        return ["impossible percentage"]
    return ["hit" if "No Positional" not in got else "missed"] if "No Combo" not in got else ["combo missed"]


def run_tables(case):
    return check(case, False)


def run_real(case):
    return check(case, True)


def key(*cs):
    return ", ".join(cs)


@st.composite
def tables(draw):
    """A skill whose potency depends on combo, positional and another condition."""
    base = draw(st.integers(5, 30)) * 20
    combo = draw(st.integers(0, 15)) * 20 if pct(draw, 70) else 0
    pos = draw(st.integers(1, 8)) * 10
    other = draw(st.integers(1, 8)) * 25
    rows = []
    for o in pick(draw, [[[]], [[]], [[], ["cX"]], [[], ["cX"]], [[], ["cX"], ["cZ"], ["cX", "cZ"]]]):
        for c in COMBOS:
            if "No Combo" in c and not combo:
                continue
            p = base + (0 if "No Combo" in c else combo) + (0 if "No Positional" in c else pos) + (other if "cX" in o else 0) \
                + (other // 2 + 15 if "cZ" in o else 0)
            rows.append([key(*draw(st.permutations(c + o))), {"potency": p}])
    if pct(draw, 25):
        low = rows[0][1]["potency"] - pick(draw, [20, 40, 60])
        for r in rows:
            if pct(draw, 60) and r[1]["potency"] >= low:
                r[1]["min_potency"] = low
    if pct(draw, 15):
        rows = [r for r in rows if not ("No Positional" in r[0] and "No Combo" in r[0])] or rows
    rows = list(draw(st.permutations(rows)))
    # ties between variants which name as many conditions are not specified
    s = {"name": "a", "gcd": True, "timing": {"v": {"recast": 2500}}}
    if pct(draw, 75):
        s["dmg"] = rows
    else:
        s["fu"] = [[c, [{"skill": {"name": "hit", "dmg": {"v": d}}, "delay": 500}]] for c, d in rows]
    if pct(draw, 30):
        s["ign"] = draw(st.lists(st.sampled_from(["cX", "cY", "cZ"]), min_size=1, max_size=3, unique=True))
    if combo and pct(draw, 40):
        s["combo"] = {"v": [{"actions": ["b"], "group": 0}]}
    b = {"name": "b", "gcd": True, "timing": {"v": {"recast": 2500}}, "dmg": {"v": {"potency": 100}},
         "combo": {"v": [{"group": 0}]}}
    m = {}
    conds = [c for c in ("cX", "cY", "cZ", "No Positional", "No Combo") if pct(draw, 22)]
    if conds:
        m["cond"] = key(*conds)
    if pct(draw, 85):
        lowest = min(r[1]["potency"] for r in rows)
        row = pick(draw, rows)[1]
        low = row.get("min_potency", lowest)
        m["bonus"] = int(F(100 * (row["potency"] - low), row["potency"])) + pick(draw, [0, 0, 0, 0, 0, 1, -1])
        if m["bonus"] < 0 or pct(draw, 10):
            m["bonus"] = draw(st.integers(0, 90))
    rot = ([{"skill": "b"}] if pct(draw, 50) else []) + [{"skill": "a", "mod": m}]
    if pct(draw, 50):
        for i, p in enumerate(rot):
            p["t"] = 2.5 * i
    return {"stats": {**STATS, "job": "RPR", "version": "7.1", "level": 100}, "opts": {},
            "lib": {"jobs": {"RPR": {"skills": [s, b]}}}, "rot": rot}


def real_cases(tier):
    from ..gamedata import VERSIONS
    out = []
    for v, l in VERSIONS if tier != "quick" else [x for x in VERSIONS if x[0] in ("6.55", "7.0", "7.1")]:
        try:
            lib = B.real_model(v, l)
        except (Violation, Skip):
            return [{"stats": {**STATS, "job": "SAM", "version": v, "level": l}, "opts": {}, "rot": [{"skill": "Gekko"}]}]
        for job, skills in lib.skills.items():
            for n, s in skills.items():
                t = table_of(s) if not n.startswith("Wait") else None
                if t is None or not any("No Positional" in k for k, _ in t):
                    continue
                conds = sorted({", ".join(sorted(k - {"No Positional", "No Combo"})) for k, _ in t
                                if not any(x.startswith("Target") for x in k)})
                low = min(d.potency for _, d in t)
                for c in conds:
                    ps = {0, 1, 50} | {percent(d, lo) for _, d in t for lo in {low, *(x.potency for _, x in t)}}
                    for b in [None] + sorted(p for p in ps if p is not None and p >= 0):
                        for before in ([], ["x"]):
                            m = {"cond": c} if c else {}
                            if b is not None:
                                m["bonus"] = b
                            pre = sorted({a for _, cs in s.combo for k in cs or () for a in k.actions})[:1] if before else []
                            if before and not pre:
                                continue
                            out.append({"stats": {**STATS, "job": job, "version": v, "level": l}, "opts": {},
                                        "rot": [{"skill": a} for a in pre] + [{"skill": n, "mod": m}]})
    return out


def real():
    return gen.real_scenarios(jobs=["SAM", "MNK", "DRG", "NIN", "RPR", "VPR"], bonus=45, presses=(1, 8), autos=0, downtime=0,
                              party=3, generic=3)


def run_any(case):
    R = B.Run(case, real=True)
    R.check_events("conditions of events", n=5)
    return ["percentage"] if any("bonus" in (p.get("mod") or {}) for p in case["rot"]) else None


SUITES = [
    Suite("tables", tables, run_tables, 3000, 300000, "generated skills with positional (and combo) variants; non-trivial: "
          "the skill has such variants"),
    Suite("real-positionals", None, run_real, 0, 0, "every skill with a positional, every percentage a combination gives and "
          "some others, with and without combo (enumerated)", real_cases),
    Suite("real-rotations", real, run_any, 300, 40000, "rotations of melee jobs with logged percentages; non-trivial: has one"),
]
