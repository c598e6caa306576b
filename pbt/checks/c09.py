"""C09: buffs and debuffs of each hit."""
from hypothesis import strategies as st

from .. import build as B, gen, model as M
from ..core import Skip, Suite, Violation, internal, sut
from ..gen import pct, pick, some

StatusEffectTracker = internal("simulator.trackers.status_effect_tracker", "StatusEffectTracker")


def labels(R):
    out = set()
    for h in R.hits:
        if h.buffs.names:
            out.add("buffed hit")
        if h.debuffs.names:
            out.add("hit on a debuffed target")
        if len(h.buffs.names) > 1:
            out.add("several buffs")
        if h.snap != h.t and (h.buffs.names or h.debuffs.names):
            out.add("effects at a snapshot before the application")
    return sorted(out)


def run(case):
    R = B.Run(case)
    R.check_hits((0, 1, 2, 4, 5), "effects of hits")
    return labels(R)


def run_real(case):
    R = B.Run(case, real=True)
    R.check_hits((0, 1, 2, 4, 5), "effects of hits")
    return labels(R)


# ---- the tracker itself, driven by histories of applications and queries


def run_tracker(case):
    skills = [B.r_skill(s) for s in case["skills"]]
    ms = [B.m_skill(s) for s in case["skills"]]
    with sut("tracker"):
        tr = StatusEffectTracker(tuple(case["prio"]))
    mt = M.Statuses(case["prio"])
    out = set()
    for op in case["ops"]:
        kind, t, i = op[0], op[1], op[2]
        mod = B.r_modifier({"cond": op[4]})
        if kind == "add":
            with sut(f"applying {op}"):
                tr.expire_status_effects(t)
                tr.add_to_status_effects(t, skills[i], mod, tuple(op[3]))
            mt.expire(t)
            mt.apply(t, ms[i], M.parse_conds(op[4]), tuple(op[3]))
        else:
            mt.expire(t)
            with sut(f"expiring before {op}"):
                tr.expire_status_effects(t)
            want_b = mt.buffs_at(t, ms[i])
            want_d = mt.debuffs_at(t, ms[i], op[3][0])
            with sut(f"compiling {op}"):
                got_b = tr.compile_buffs(t, skills[i])
                got_d = tr.compile_debuffs(t, skills[i], op[3][0])
            for what, g, w in (("buffs", got_b, want_b), ("debuffs", got_d, want_d)):
                if B.eff_key(g[0]) != B.eff_key_m(w[0]) or M.parse_conds(g[1]) != w[1]:
                    raise Violation(f"{what} at {t} on {ms[i].name} (target {op[3][0]}): {g}, expected {w}")
                if w[0].names:
                    out.add(f"{what} active")
                if len(w[0].names) > 1:
                    out.add(f"several {what} active")
    return sorted(out)


@st.composite
def histories(draw):
    P = {**gen.DEFAULT, "rich": 50, "haste": 15, "autoeff": 15, "flat": 15, "condeff": 15, "clear": 6, "uses": 30,
         "expires": 25, "allow": 20, "extend": 40, "forced": 4, "cond": 12}
    names = gen.SKILLS[:draw(st.integers(1, 6))]
    skills = []
    for n in names:
        s = {"name": n, "timing": {"v": {}}}
        if pct(draw, 65):
            s["buff"] = gen.variants(draw, P, lambda d: gen.gen_status(d, P, n, names), none_ok=True)
        if pct(draw, 50):
            s["debuff"] = gen.variants(draw, P, lambda d: gen.gen_status(d, P, n, names, True), none_ok=True)
        if pct(draw, 20):
            s["deny"] = some(draw, names, 2)
        skills.append(s)
    ops, t = [], 0
    for _ in range(draw(st.integers(1, 25))):
        t += gen.gen_gap(draw, P)
        cond = pick(draw, ["", "", "cA", "cB", "cA, cB"])
        i = draw(st.integers(0, len(names) - 1))
        if pct(draw, 50):
            ops.append(["add", t, i, pick(draw, [["Default Target"], ["t1"], ["t1", "t2"], ["t2"]]), cond])
        else:
            ops.append(["get", t, i, [pick(draw, ["Default Target", "t1", "t2"])], cond])
    return {"skills": skills, "prio": some(draw, names, 4) if pct(draw, 50) else [], "ops": ops}


def scenarios():
    return gen.scenarios(buff=60, debuff=50, uses=25, expires=20, allow=20, deny=15, condeff=10, prio=40, clear=4,
                         extend=35, multi=25, fu=20, cond=8, mods=15, delay=50, presses=(1, 12), skills=(2, 5), timed=65,
                         offclass=12, forced=3)


def limited():
    return gen.scenarios(buff=70, debuff=40, uses=80, allow=30, multi=15, fu=15, delay=60, cast=50, presses=(2, 10),
                         skills=(2, 4), timed=60, rich=60)


def real():
    return gen.real_scenarios(presses=(2, 25), party=30, autos=20, downtime=5, multi=20)


SUITES = [
    Suite("tracker", histories, run_tracker, 3500, 280000,
          "histories of applications and queries; non-trivial: an effect was active at a query"),
    Suite("rotations", scenarios, run, 1800, 150000, "non-trivial: a hit had buffs or debuffs"),
    Suite("limited-uses", limited, run, 900, 80000, "effects with limited uses; same rule"),
    Suite("real-skills", real, run_real, 500, 60000, "real skills of any job and party; same rule"),
]
ASSUMPTIONS = ["the order of simultaneous events of one and the same skill is unspecified: cases where it matters are "
               "not judged", "two simultaneous effects forcing the same outcome are rejected by design"]
assert Skip
