"""C11: job resources."""
from hypothesis import strategies as st

from .. import build as B, gen, model as M
from ..core import Suite, Violation, internal, sut
from ..gen import pct, pick, some

JobResourceTracker = internal("simulator.trackers.job_resource_tracker", "JobResourceTracker")


def about(resources):
    def f(conds):
        return tuple(sorted(c for c in conds if any(c == r or c.endswith(" " + r) for r in resources)))
    return f


def compare(R, resources):
    f = about(resources)
    got = [B.inst_key(x)[:3] + (f(x[2].with_condition),) for x in R.inst]
    want = [B.hit_key(h)[:3] + (f(h.mod.conds),) for h in R.hits]
    try:
        B.diff("resource conditions of hits", got, want, ["time", "skill", "target", "resources"])
    except Violation:
        R.skip_if_ambiguous()
        raise
    return sorted({"hit with a resource condition" for h in R.hits if f(h.mod.conds)})


def run(case):
    return compare(B.Run(case), gen.RES)


def run_real(case):
    R = B.Run(case, real=True)
    return compare(R, list(R.mlib.resources.get(case["stats"]["job"], {})))


def settings(d):
    return B.JobResourceSettings(max_value=d["cap"], skill_allowlist=tuple(d.get("allow", ())),
                                 expiry_from_last_gain=B.num(d.get("expiry", "inf")),
                                 add_number_to_conditional=d.get("number", True))


def run_tracker(case):
    skills = [B.r_skill(s) for s in case["skills"]]
    ms = [B.m_skill(s) for s in case["skills"]]
    with sut("tracker"):
        tr = JobResourceTracker({n: settings(d) for n, d in case["res"].items()})
    mt = M.Resources({n: M.ResSettings(d["cap"], tuple(d.get("allow", ())), B.num(d.get("expiry", "inf")),
                                       d.get("number", True)) for n, d in case["res"].items()})
    out = set()
    for kind, t, i, cond in case["ops"]:
        if kind == "add":
            with sut(f"gain of {ms[i].name}"):
                tr.add_resource(t, skills[i], B.r_modifier({"cond": cond}))
            mt.add(t, ms[i], M.parse_conds(cond))
        else:
            want = mt.conds_at(t, ms[i])
            for again in (0, 1):
                with sut(f"resources of {ms[i].name}"):
                    got = tr.compile_job_resources(t, skills[i])
                if M.parse_conds(got) != want:
                    raise Violation(f"resources seen by {ms[i].name} at {t}: '{got}', expected {sorted(want)}"
                                    + (" (asked twice)" if again else ""))
            if want:
                out.add("resource seen")
            if len(want) > 1:
                out.add("two resources seen")
    return sorted(out)


@st.composite
def histories(draw):
    P = {**gen.DEFAULT, "res_clear": 8, "cond": 10}
    names = gen.SKILLS[:draw(st.integers(1, 5))]
    skills = [{"name": n, **({"res": gen.variants(draw, P, gen.gen_res(P))} if pct(draw, 80) else {})} for n in names]
    res = {}
    for rn in gen.RES:
        d = {"cap": pick(draw, [3, 1, 5, 10, 100]), "allow": some(draw, names, 5)}
        if pct(draw, 50):
            d["expiry"] = pick(draw, [10000, 5000, 15000, 2500])
        if pct(draw, 30):
            d["number"] = False
        res[rn] = d
    ops, t = [], 0
    expiries = [d["expiry"] for d in res.values() if "expiry" in d]
    for _ in range(draw(st.integers(1, 22))):
        t += pick(draw, expiries) if expiries and pct(draw, 12) else gen.gen_gap(draw, P)
        i = draw(st.integers(0, len(names) - 1))
        kind = "add" if pct(draw, 55) else "get"
        # gains may be entered before their time has come (follow-ups), and queries look at the past of others
        when = t + (pick(draw, [500, 1000, 3000, 10000]) if kind == "add" and pct(draw, 20) else 0)
        ops.append([kind, when, i, pick(draw, ["", "", "", "cA", "cB"])])
    return {"skills": skills, "res": res, "ops": ops}


def scenarios():
    return gen.scenarios(res=80, dmg=90, cond=10, mods=15, fu=20, delay=50, cast=40, buff=10, multi=10, presses=(2, 14),
                         skills=(2, 5), far=60, timed=65, combo=10)


def real():
    return gen.real_scenarios(presses=(2, 30), autos=0, downtime=0, party=3, multi=5, far=50,
                              jobs=("BLM", "BRD", "MCH", "NIN", "PCT", "AST", "SAM", "RPR", "SMN", "DNC", "VPR", "SGE",
                                    "DRK"))


SUITES = [
    Suite("tracker", histories, run_tracker, 6000, 450000,
          "histories of gains, uses and queries; non-trivial: a query sees a resource"),
    Suite("rotations", scenarios, run, 2000, 160000, "non-trivial: a hit is conditioned on a resource"),
    Suite("real-skills", real, run_real, 500, 60000, "jobs with resources; same rule"),
]
