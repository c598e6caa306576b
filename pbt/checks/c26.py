"""C26: what a skill library stores, and summary flags of skills."""
from hypothesis import strategies as st

from .. import build as B, gen
from ..core import Suite, Violation, sut
from ..gen import pct, pick

JOBS = ["WAR", "SAM", "AST"]
NAMES = ["A", "B", "C", "Wait 1.00s", "AA"]


class Bundle:
    """All that a job adds at once."""

    def __init__(self, job, d, skills):
        self.job, self.d, self.skills = job, d, skills

    def get_job_class(self):
        return self.job

    def get_status_effect_priority(self):
        return None if self.d["prio"] is None else tuple(self.d["prio"])

    def get_combo_breakers(self):
        return None if self.d["brk"] is None else tuple((g, tuple(b)) for g, b in self.d["brk"])

    def get_skills(self):
        return self.skills

    def get_resources(self):
        return [(n, setting(x)) for n, x in self.d["res"]]


def setting(x):
    return B.JobResourceSettings(max_value=x, skill_allowlist=(f"s{x}",))


def make(name, potency):
    return B.r_skill({"name": name, "timing": {"v": {}}, "dmg": {"v": {"potency": potency}}})


def refused(what, f, kinds):
    try:
        f()
    except kinds:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: raised {type(e).__name__}: {e}") from None
    raise Violation(f"{what}: was accepted")


def verify(lib, model, when):
    with sut(f"looking up {when}"):
        jobs = list(lib.get_jobs())
        if sorted(jobs) != sorted(model) or len(jobs) != len(set(jobs)):
            raise Violation(f"{when}: jobs {jobs}, expected {sorted(model)}")
        for j in JOBS:
            if lib.has_job_class(j) != (j in model):
                raise Violation(f"{when}: has_job_class({j}) is {lib.has_job_class(j)}")
        for j, m in model.items():
            names = B.skill_names(lib, j)
            if sorted(names) != sorted(m["skills"]):
                raise Violation(f"{when}: skills of {j} are {names}, expected {sorted(m['skills'])}")
            for n in NAMES:
                if lib.has_skill(n, j) != (n in m["skills"]):
                    raise Violation(f"{when}: has_skill({n}, {j}) is {lib.has_skill(n, j)}")
            for n, s in m["skills"].items():
                got = lib.get_skill(n, j)
                if got is not s and not (got == s and got.name == n):
                    raise Violation(f"{when}: get_skill({n}, {j}) is another skill")
            if tuple(lib.get_status_effect_priority(j)) != tuple(m["prio"]):
                raise Violation(f"{when}: priorities of {j} are {lib.get_status_effect_priority(j)}, expected {m['prio']}")
            brk = {g: tuple(b) for g, b in lib.get_all_combo_breakers(j).items()}
            if brk != m["brk"]:
                raise Violation(f"{when}: combo breakers of {j} are {brk}, expected {m['brk']}")
            res = lib.get_all_resource_settings(j)
            if set(res) != set(m["res"]) or any((res[n].max_value, tuple(res[n].skill_allowlist)) != (x, (f"s{x}",))
                                                for n, x in m["res"].items()):
                raise Violation(f"{when}: resources of {j} are {res}, expected {m['res']}")


def run(case):
    with sut("making a library"):
        version, level = case["made"]
        lib = B.SkillLibrary(version) if level is None else B.SkillLibrary(version=version, level=level)
        if (lib.get_version(), lib.get_level()) != (version, 100 if level is None else level):
            raise Violation(f"a library of version {version}, level {level or 'by default'}, says it is of version "
                            f"{lib.get_version()}, level {lib.get_level()}")
    model, cur, out = {}, None, set()
    blank = lambda: {"skills": {}, "prio": (), "brk": {}, "res": {}}  # noqa: E731
    for i, op in enumerate(case["ops"]):
        when = f"after {i + 1} operations"
        k = op[0]
        if k == "job":
            with sut("setting the job"):
                lib.set_current_job_class(op[1])
            cur = model.setdefault(op[1], blank())
            continue
        if k == "look":
            verify(lib, model, when)
            continue
        if k == "unknown":
            for what, f in ((f"get_skill({op[1]}, {op[2]})", lambda: lib.get_skill(op[1], op[2])),):
                if op[1] not in model.get(op[2], blank())["skills"]:
                    refused(f"{when}: {what}", f, LookupError)
                    out.add("unknown name")
            continue
        if k == "mutate":
            for j in model:
                with sut("looking up"):
                    a, b = lib.get_all_combo_breakers(j), lib.get_all_resource_settings(j)
                    a[99] = (1, 2)
                    for g in list(a)[:1]:
                        del a[g]
                    for r in list(b)[:1]:
                        object.__setattr__(b[r], "max_value", -1)
                    b["junk"] = None
                    for n in list(b)[1:]:
                        del b[n]
                out.add("returned values changed")
            verify(lib, model, when + " and changing what was returned")
            continue
        if k == "all":
            job, d = op[1], op[2]
            have = model.get(job, blank())["skills"]
            d = {**d, "skills": [s for i, s in enumerate(d["skills"]) if s[0] not in have
                                 and s[0] not in [x[0] for x in d["skills"][:i]]]}
            skills = [make(*s) for s in d["skills"]]
            with sut("adding all of a job"):
                lib.add_all_skills_from(Bundle(job, d, skills))
            cur = model.setdefault(job, blank())
            for s in skills:
                cur["skills"][s.name] = s
            if d["prio"] is not None:
                cur["prio"] = tuple(d["prio"])
            cur["brk"].update({g: tuple(b) for g, b in d["brk"] or ()})
            cur["res"].update(dict(d["res"]))
            out.add("whole job")
            continue
        if cur is None:
            continue
        if k == "skill":
            with sut("making a skill"):
                s = make(op[1], op[2])
            if op[1] in cur["skills"]:
                refused(f"{when}: duplicate {op[1]}", lambda: lib.add_skill(s), Exception)
                out.add("duplicate")
            else:
                with sut("adding a skill"):
                    lib.add_skill(s)
                cur["skills"][op[1]] = s
        elif k == "res":
            with sut("adding a resource"):
                lib.add_resource(op[1], setting(op[2]))
            cur["res"][op[1]] = op[2]
        elif k == "prio":
            with sut("setting priorities"):
                lib.set_status_effect_priority(tuple(op[1]))
            cur["prio"] = tuple(op[1])
        elif k == "brk":
            with sut("adding a combo breaker"):
                lib.add_combo_breaker(op[1], tuple(op[2]))
            cur["brk"][op[1]] = tuple(op[2])
    verify(lib, model, "at the end")
    if len(model) > 1:
        out.add("several jobs")
    return sorted(out)


@st.composite
def histories(draw):
    job, name = st.sampled_from(JOBS), st.sampled_from(NAMES)
    brk = st.tuples(st.integers(0, 2), st.lists(st.integers(0, 3), max_size=3)).map(list)
    res = st.tuples(st.sampled_from(["Gauge", "Stack"]), st.integers(1, 100)).map(list)
    skill = st.tuples(name, st.integers(1, 500)).map(list)
    prio = st.lists(st.sampled_from(["x", "y", "z"]), max_size=3, unique=True)
    everything = st.fixed_dictionaries({"prio": st.none() | prio, "brk": st.none() | st.lists(brk, max_size=2),
                                        "skills": st.lists(skill, max_size=3), "res": st.lists(res, max_size=2)})
    op = st.one_of(
        job.map(lambda j: ["job", j]), skill.map(lambda s: ["skill", *s]), skill.map(lambda s: ["skill", *s]),
        res.map(lambda r: ["res", *r]), prio.map(lambda p: ["prio", p]), brk.map(lambda b: ["brk", *b]),
        st.tuples(job, everything).map(lambda x: ["all", *x]), st.just(["look"]), st.just(["mutate"]),
        st.tuples(name, job).map(lambda x: ["unknown", *x]))
    return {"made": [pick(draw, ["7.1", "6.55", "7.0"]), pick(draw, [100, None, 90, 70])], "ops": [["job", draw(job)]] * pct(draw, 80) + draw(st.lists(op, min_size=1, max_size=16))}


# ---------------------------------------------------------------------------------------------
# flags


def specs(d, kind):
    v = d.get(kind)
    if v is None:
        return []
    return [v["v"]] if isinstance(v, dict) else [s for _, s in v if s is not None]


def follow_ups(d):
    v = d.get("fu")
    if v is None:
        return []
    return v["v"] if isinstance(v, dict) else [f for _, fs in v for f in fs or ()]


def run_flags(case):
    d = case["skill"]
    with sut("making a skill"):
        s = B.r_skill(d)
    want = {}
    for kind, flag in (("buff", "has_buff"), ("debuff", "has_debuff")):
        own = specs(d, kind)
        all_ = own + [x for f in follow_ups(d) for x in specs(f["skill"], kind)]
        want[flag] = bool(all_)
        want[flag.replace("has_", "has_party_")] = any(x.get("party") for x in all_)
    got = {k: getattr(s, k, None) for k in want}
    if None in got.values():
        raise Violation(f"flags {got}")
    if {k: bool(v) for k, v in got.items()} != want:
        raise Violation(f"flags of {d}: {got}, expected {want}")
    return sorted(k for k, v in want.items() if v)


@st.composite
def skills(draw):
    P = {**gen.DEFAULT, "cond": 25, "condeff": 0}
    names = ["A", "B"]

    def status(name):
        def f(dr):
            s = gen.gen_status(dr, P, name, names)
            s.pop("party", None)
            if pct(dr, 40):
                s["party"] = True
            return s
        return f

    def table(f, share):
        if not pct(draw, share):
            return None
        if pct(draw, 55):
            return {"v": f(draw)}
        cs = draw(st.lists(st.sampled_from(["", "cA", "cB", "cA, cB"]), min_size=1, max_size=3, unique=True))
        return [[c, None if pct(draw, 40) else f(draw)] for c in cs]

    def fu(dr):
        out = []
        for i in range(dr(st.integers(0, 3))):
            s = {"name": f"f{i}"}
            for kind in ("buff", "debuff"):
                t = table(status(f"e{i}"), 30)
                if t is not None:
                    s[kind] = t
            out.append({"skill": s, "delay": 0})
        return out

    d = {"name": "A", "timing": {"v": {}}}
    for kind in ("buff", "debuff"):
        t = table(status("e"), 25)
        if t is not None:
            d[kind] = t
    t = table(fu, 65)
    if t is not None:
        d["fu"] = t if isinstance(t, dict) else [[c, x or []] for c, x in t]
    return {"skill": d}


def run_real_flags(case):
    lib = B.real_lib(case["version"], case["level"])
    m = B.real_model(case["version"], case["level"]).skills[case["job"]]
    n = 0
    for name in list(m):
        if name.startswith("Wait"):
            continue
        with sut("flags of a real skill"):
            s = lib.get_skill(name, case["job"])
            got = (bool(s.has_buff), bool(s.has_debuff), bool(s.has_party_buff), bool(s.has_party_debuff))
        every = [m[name]] + [f.skill for _, fs in m[name].fu for f in fs or ()]
        effs = [[v for x in every for _, v in getattr(x, k) if v is not None] for k in ("buff", "debuff")]
        want = (bool(effs[0]), bool(effs[1]), any(v.party for v in effs[0]), any(v.party for v in effs[1]))
        if got != want:
            raise Violation(f"{case['job']}/{name}: flags (buff, debuff, party buff, party debuff) {got}, expected {want}")
        n += any(want)
    return ["job with effects"] if n else []


def real_jobs(tier):
    from .. import golden
    from ..gamedata import VERSIONS
    return [{"version": v, "level": l, "job": j} for v, l in VERSIONS for j in golden.jobs(v, l)
            if tier != "quick" or (v, l) in (("6.55", 90), ("7.1", 100), ("7.0", 90))]


SUITES = [
    Suite("histories", histories, run, 3000, 300000, "1-17 operations on a library against a dictionary model; non-trivial: "
          "several jobs, duplicates, unknown names, or changed return values"),
    Suite("flags", skills, run_flags, 3000, 300000, "summary flags of generated skills; non-trivial: a flag is set"),
    Suite("real-flags", None, run_real_flags, 0, 0, "summary flags of all real skills (enumerated)", real_jobs),
]
