"""C17: a patch and level select that patch's skills and numbers."""
import json

from hypothesis import strategies as st

from .. import build as B, golden
from ..core import Suite, Violation, internal, sut
from ..gamedata import JOBS, VERSIONS
from ..gen import pct, pick

PATCHES = ("6.55", "7.0", "7.01", "7.05", "7.1")
BETWEEN = ("7.06", "7.08", "7.11", "7.15", "7.2")  # data is complete for the patches listed and from 7.05 on


def floor(version, level):
    """The newest patch with data which is not newer."""
    ps = [v for v, l in VERSIONS if l == level and number(v) <= number(version)]
    return max(ps, key=number)


def number(v):
    a, b = v.split(".")
    return int(a), b


def check_job(lib, version, level, job):
    at = floor(version, level)
    if job not in golden.jobs(at, level):
        return 0
    want, waits, other = golden.expected(at, level, job)
    with sut(f"reading {job} of {version}/{level}"):
        got, gw, go = golden.dump_job(lib, job)
    what = f"{job} of {version}/{level}"
    if set(got) != set(want):
        raise Violation(f"{what}: skills added {sorted(set(got) - set(want))[:5]}, missing {sorted(set(want) - set(got))[:5]}")
    for n in sorted(want):
        if got[n] != want[n]:
            ks = [k for k in {**got[n], **want[n]} if got[n].get(k) != want[n].get(k)]
            raise Violation(f"{what}/{n}: " + "; ".join(
                f"{k} is {json.dumps(got[n].get(k))[:300]}, expected {json.dumps(want[n].get(k))[:300]}" for k in ks))
    if gw != waits:
        raise Violation(f"{what}: other waits ({len(gw)} instead of {len(waits)})")
    for k in other:
        if go[k] != other[k]:
            raise Violation(f"{what}: {k} is {go[k]}, expected {other[k]}")
    return len(want)


def check_waits(lib, job, names):
    for n in names:
        with sut(f"{n} of {job}"):
            t = B.from_timing(lib.get_skill(n, job).get_timing_spec(B.SkillModifier()))
        ms = round(1000 * float(n.split()[1][:-1]))
        if t.lock != ms or t.cast != 0 or t.delay != 0:
            raise Violation(f"{job}/{n} takes {t}, expected {ms} ms")


def run_all(case):
    lib = B.real_lib(case["version"], case["level"])
    with sut("jobs"):
        jobs = sorted(lib.get_jobs())
        v, l = lib.get_version(), lib.get_level()
    if jobs != golden.jobs(case["version"], case["level"]):
        raise Violation(f"jobs of {case['version']}/{case['level']}: {jobs}")
    if (v, l) != (case["version"], case["level"]):
        raise Violation(f"library says it is {v}/{l}, not {case['version']}/{case['level']}")
    n = check_job(lib, case["version"], case["level"], case["job"])
    check_waits(lib, case["job"], golden.load()["waits"][:: 37 if case["version"] != "7.1" else 1])
    return "whole job" if n else None


def all_cases(tier):
    return [{"version": v, "level": l, "job": j} for v, l in VERSIONS for j in golden.jobs(v, l)]


def run_history(case):
    """Libraries made one after another; each keeps its own numbers."""
    libs = []
    for v, l in case["made"]:
        with B.big_objects(), sut(f"creating the library {v}/{l}"):
            libs.append(B.create_skill_library(version=v, level=l))
        for i, job in case["between"]:
            i %= len(libs)
            check_job(libs[i], *case["made"][i], job)
    for i, job in case["after"]:
        i %= len(libs)
        if check_job(libs[i], *case["made"][i], job):
            check_waits(libs[i], job, golden.load()["waits"][::97])
    out = ["several libraries"] if len({tuple(x) for x in case["made"]}) > 1 else []
    if any(v in BETWEEN for v, _ in case["made"]):
        out.append("patch without data of its own")
    return out


@st.composite
def histories(draw):
    made = []
    for _ in range(draw(st.integers(1, 3))):
        v = pick(draw, BETWEEN) if pct(draw, 35) else pick(draw, PATCHES)
        l = 90 if v.startswith("6") else pick(draw, [90, 100])
        made.append([v, l])
    jobs = st.tuples(st.integers(0, 2), st.sampled_from(JOBS)).map(list)
    return {"made": made, "between": draw(st.lists(jobs, max_size=3)), "after": draw(st.lists(jobs, min_size=2, max_size=6))}


Data = internal("simulator.game_data.specific_skills", "SpecificSkills")


def run_lookup(case):
    """The tables behind: newest entry not newer than the patch, at the level asked for."""
    with sut("making the tables"):
        d = Data()
        for n, t in case["tables"]:
            d.add_skill_data(n, {int(l): p for l, p in t.items()})
    out = set()
    for v, l, n, p in case["queries"]:
        t = dict(case["tables"]).get(n, {}).get(str(l), {}).get(p)
        if t is None:
            continue
        ok = [x for x in t if number(x) <= number(v)]
        want = t[max(ok, key=number)] if ok else None
        with sut("lookup"):
            d.set_version(v)
            d.set_level(l)
            got = d.get_skill_data(n, p)
        if got != want:
            raise Violation(f"{p} of {n} at {v}/{l}: {got}, expected {want} from {t}")
        out.add("found" if ok else "nothing that old")
    return sorted(out)


@st.composite
def lookups(draw):
    vs = PATCHES + BETWEEN
    tables = []
    for n in ["A", "B", "C"][:draw(st.integers(1, 3))]:
        t = {}
        for l in ("90", "100"):
            t[l] = {p: {v: draw(st.integers(0, 1000)) for v in sorted(draw(st.sets(st.sampled_from(PATCHES), min_size=1)),
                                                                      reverse=pct(draw, 30))}
                    for p in ("potency", "delay")}
        tables.append([n, t])
    q = st.tuples(st.sampled_from(vs), st.sampled_from([90, 100]), st.sampled_from("ABC"),
                  st.sampled_from(["potency", "delay"])).map(list)
    return {"tables": tables, "queries": draw(st.lists(q, min_size=1, max_size=8))}


SUITES = [
    Suite("all-skills", None, run_all, 0, 0, "every job of every patch and level (enumerated): all skills and settings "
          "against the recorded data", enumerate_cases=all_cases),
    Suite("histories", histories, run_history, 40, 3000, "one to three libraries made one after another, also of patches "
          "without data of their own; non-trivial: different libraries or such a patch"),
    Suite("lookup", lookups, run_lookup, 1500, 60000, "generated patch tables; non-trivial: a query with data"),
]
ASSUMPTIONS = ["the recorded data (golden/skills.json.gz) is what the repository's data was at its pinned commit"]
