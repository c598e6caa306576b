"""C24: example rotations."""
import functools
import json
import os

from hypothesis import strategies as st

from .. import build as B, gen
from ..core import VERIF, Suite, Violation, internal, sut
from ..gamedata import VERSIONS, WEAPON_DELAY
from ..gen import pct, pick
from .c17 import PATCHES, number
from ama_xiv_combat_sim.example_rotations.get_example_rotations import get_example_rotations

STRENGTH = {"SCH": 351, "WHM": 214, "SGE": 234, "AST": 195, "SMN": 351, "RDM": 214, "BLM": 175, "PCT": 214}
STAT = {"wd": "wd", "main_stat": "main", "det_stat": "det", "crit_stat": "crit", "dh_stat": "dh", "speed_stat": "speed",
        "tenacity": "ten", "job_class": "job", "weapon_delay": "weapon_delay", "healer_or_caster_strength": "strength"}


def data():
    with open(os.path.join(VERIF, "golden", "examples.json")) as f:
        return json.load(f)


def valid(d, version):
    return number(d["start"]) <= number(version) and (d["end"] is None or number(version) <= number(d["end"]))


def expected_names(version, level, table=None):
    return sorted(k for k, ls in (table or data()).items() if str(level) in ls and valid(ls[str(level)], version))


def case_of(d, version, level):
    """The rotation as it is specified."""
    s = {STAT[k]: v for k, v in d["stats"].items()}
    s.setdefault("weapon_delay", WEAPON_DELAY[s["job"]])
    if s["job"] in STRENGTH:
        s.setdefault("strength", STRENGTH[s["job"]])
    opts = {"trailing": True, "server_tick": 0}
    if d["autos"]:
        opts["autos"] = True
    rot = [{"t": p[0], "skill": p[1], "job": p[2], **({"mod": {"cond": p[3]}} if len(p) > 3 else {})} for p in d["party"]]
    rot += [{"skill": x} for x in d["skills"]]
    return {"stats": {**s, "version": version, "level": level}, "opts": opts, "rot": rot}


def check_stats(name, got, s):
    for k, short in STAT.items():
        if k in ("tenacity", "healer_or_caster_strength") and short not in s:
            continue
        if getattr(got, k) != s[short]:
            raise Violation(f"{name}: {k} is {getattr(got, k)}, expected {s[short]}")
    if (got.version, got.level) != (s["version"], s["level"]):
        raise Violation(f"{name}: stats of {got.version}/{got.level} for a library of {s['version']}/{s['level']}")


def check_example(name, rb, d, version, level, lib, positive=True):
    case = case_of(d, version, level)
    R = B.Run(case, real=True)
    with sut(f"stats of {name}"):
        stats = rb.get_stats()
        check_stats(name, stats, case["stats"])
    with sut(f"simulating {name}"):
        timing = rb.get_skill_timing()
        R.q = timing.get_q()
        R.presses = rb.get_button_press_timing()
        R.inst = B.DamageBuilder(stats, lib).get_damage_instances(timing)
        sim = B.DamageSimulator(stats, R.inst, 1)
        total = float(sim.get_expected_damage())
    R.check_presses()
    R.check_events(f"events of {name}", n=5)
    R.check_hits(what=f"hits of {name}")
    if positive and not total > 0:
        raise Violation(f"{name} of {version}/{level} deals {total}")
    n = len([p for p in R.presses])
    if n != len(d["skills"]) + len(d["party"]):
        raise Violation(f"{name}: {n} presses of {len(d['skills'])} skills and {len(d['party'])} party skills")


def run_all(case):
    v, l = case["version"], case["level"]
    lib = B.real_lib(v, l)
    with sut(f"examples of {v}/{l}"):
        ex = get_example_rotations(lib)
    want = expected_names(v, l)
    if sorted(ex) != want:
        raise Violation(f"examples of {v}/{l}: {sorted(ex)}, expected {want}")
    if case["name"] is None:
        return ["names"]
    check_example(case["name"], ex[case["name"]], data()[case["name"]][str(l)], v, l, lib)
    return ["example"]


def all_cases(tier):
    return [{"version": v, "level": l, "name": n} for v, l in VERSIONS for n in [None] + expected_names(v, l)]


def run_history(case):
    """Examples of several libraries, asked for in turn and built in any order."""
    got = []
    for v, l in case["libs"]:
        lib = B.real_lib(v, l)
        with sut(f"examples of {v}/{l}"):
            ex = get_example_rotations(lib)
        if sorted(ex) != expected_names(v, l):
            raise Violation(f"examples of {v}/{l} in a history {case['libs']}: {sorted(ex)}, expected {expected_names(v, l)}")
        got.append((v, l, lib, ex))
    for i, k in case["uses"]:
        v, l, lib, ex = got[i % len(got)]
        if ex:
            n = sorted(ex)[k % len(ex)]
            check_example(n, ex[n], data()[n][str(l)], v, l, lib)
    return ["several libraries"] if len({tuple(x) for x in case["libs"]}) > 1 else []


@st.composite
def histories(draw):
    libs = []
    for _ in range(draw(st.integers(2, 4))):
        v = pick(draw, PATCHES)
        libs.append([v, 90 if v.startswith("6") else pick(draw, [90, 100])])
    uses = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 40)).map(list), min_size=1, max_size=6))
    return {"libs": libs, "uses": uses}


Data = internal("example_rotations.specific_rotations", "SpecificRotations")
ExUtils = internal("example_rotations.example_rotation_utils", "ExampleRotationUtils")


def run_tables(case):
    """Generated example data."""
    with sut("making example data"):
        t = Data()
        for k, ls in case["table"].items():
            vals = {}
            for l, d in ls.items():
                e = {"stats": d["stats"], "skills": tuple(d["skills"]), "start_version": d["start"]}
                if d["end"] is not None:
                    e["end_version"] = d["end"]
                if d["party"]:
                    e["party_skills"] = tuple(tuple(p[:3]) + tuple(B.SkillModifier(with_condition=c) for c in p[3:])
                                              for p in d["party"])
                vals[int(l)] = e
            t.add_rotation_data(k, vals)
    out = set()
    for v, l in case["queries"]:
        lib = B.real_lib(v, l)
        with sut("querying example data"):
            t.set_version(v)
            t.set_level(l)
            got = sorted(k for k in case["table"] if t.rotation_is_valid(k))
        want = expected_names(v, l, case["table"])
        if got != want:
            raise Violation(f"valid at {v}/{l}: {got}, expected {want}")
        for k in want:
            with sut(f"building {k}"):
                name, rb = ExUtils.get_example_rotation(lib, k, t)
            if name != k:
                raise Violation(f"{k} is called {name}")
            check_example(k, rb, case["table"][k][str(l)], v, l, lib, positive=False)
            out.add("with party" if case["table"][k][str(l)]["party"] else "without party")
        if len(want) < len(case["table"]):
            out.add("some not valid")
    return sorted(out)


EXAMPLES = {"WAR": ["Heavy Swing", "Maim", "Storm's Eye", "Fell Cleave", "Tomahawk"], "SAM": ["Hakaze", "Higanbana", "Gekko", "Yukikaze"],
            "WHM": ["Dia", "Glare III", "Presence of Mind"], "BLM": ["Fire III", "Fire IV", "Despair"], "RDM": ["Jolt II", "Fleche"],
            "DRG": ["True Thrust", "Life Surge", "Geirskogul"]}
PARTY = [["Chain Stratagem", "SCH"], ["Battle Litany", "DRG"], ["Arcane Circle", "RPR"], ["Embolden", "RDM"], ["Embolden", "RDM", "Buff Only"],
         ["Chain Stratagem", "SCH", "cQ"], ["Divination", "AST"]]


@functools.lru_cache(maxsize=None)
def common(job):
    """Skills there are in every patch and level."""
    return [x for x in EXAMPLES[job] if all(x in gen.catalogue(v, l)[0][job][0] for v, l in VERSIONS)] or EXAMPLES[job]


@st.composite
def tables(draw):
    vs = PATCHES
    table = {}
    for k in ["A", "B", "C"][: draw(st.integers(1, 3))]:
        ls = {}
        for l in ("90", "100"):
            if not ls or pct(draw, 60):
                job = pick(draw, sorted(EXAMPLES))
                stats = {"wd": draw(st.integers(100, 146)), "main_stat": draw(st.integers(2500, 4900)),
                         "det_stat": draw(st.integers(440, 2500)), "crit_stat": draw(st.integers(420, 3000)),
                         "dh_stat": draw(st.integers(420, 2000)), "speed_stat": draw(st.integers(420, 1200)), "job_class": job}
                if job == "WAR" or pct(draw, 30):
                    stats["tenacity"] = draw(st.integers(420, 900))
                if pct(draw, 20):
                    stats["weapon_delay"] = pick(draw, [2.8, 3.36])
                if pct(draw, 20):
                    stats["healer_or_caster_strength"] = pick(draw, [300, 214])
                party = []
                for _ in range(draw(st.integers(0, 3))):
                    s = [p for p in PARTY if p[1] != job]
                    s = pick(draw, s)
                    party.append([draw(st.integers(0, 100)) / 10, *s])
                ls[l] = {"stats": stats, "skills": [pick(draw, common(job)) for _ in range(draw(st.integers(1, 6)))],
                         "party": party, "start": pick(draw, vs), "end": pick(draw, [None, *vs]), "autos": True}
        table[k] = ls
    qs = []
    for _ in range(draw(st.integers(1, 3))):
        v = pick(draw, vs)
        qs.append([v, 90 if v.startswith("6") else pick(draw, [90, 100])])
    return {"table": table, "queries": qs}


SUITES = [
    Suite("all-examples", None, run_all, 0, 0, "every example of every patch and level against the recorded examples, the "
          "timeline and hits against the reference model (enumerated)", all_cases),
    Suite("histories", histories, run_history, 60, 4000, "examples of 2-4 libraries in turn; non-trivial: different libraries"),
    Suite("tables", tables, run_tables, 300, 30000, "generated example data and patches; non-trivial: one is valid"),
]
ASSUMPTIONS = ["the recorded examples (golden/examples.json) are those of the repository at its pinned commit (and its fixes)"]
