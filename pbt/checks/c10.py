"""C10: combos."""
from hypothesis import strategies as st

from .. import build as B, gen, model as M
from ..core import Suite, Violation, internal, sut
from ..gen import pct, pick

ComboTracker = internal("simulator.trackers.combo_tracker", "ComboTracker")


def combo_only(key):
    return key[:3] + ("No Combo" in key[3],)


def compare(R, what):
    got = [combo_only(B.inst_key(x)) for x in R.inst]
    want = [combo_only(B.hit_key(h)) for h in R.hits]
    try:
        B.diff(what, got, want, ["time", "skill", "target", "combo failed"])
    except Violation:
        R.skip_if_ambiguous()
        raise
    out = set()
    for h in R.hits:
        need = [c for _, cs in h.skill.combo for c in cs or () if c.actions]
        if need:
            out.add("failed combo" if "No Combo" in h.mod.conds else "continued combo")
    return sorted(out)


def run(case):
    return compare(B.Run(case), "combos of hits")


def run_real(case):
    return compare(B.Run(case, real=True), "combos of hits")


def run_tracker(case):
    skills = [B.r_skill(s) for s in case["skills"]]
    ms = [B.m_skill(s) for s in case["skills"]]
    with sut("tracker"):
        tr = ComboTracker({g: tuple(by) for g, by in case["brk"]})
    mt = M.Combos({g: tuple(by) for g, by in case["brk"]})
    out = set()
    for k, (t, i, force, cond) in enumerate(case["ops"]):
        with sut(f"combo of {ms[i].name}"):
            got = tr.compile_and_update_combo(t, skills[i], B.r_modifier({"force_combo": force, "cond": cond}))
        want = mt.use(t, ms[i], M.Mod(conds=M.parse_conds(cond), force_combo=force))
        if M.parse_conds(got) != want:
            raise Violation(f"press {k} ({ms[i].name} at {t}): combo condition is '{got}', expected {set(want)}")
        if any(c.actions for _, cs in ms[i].combo for c in cs):
            out.add("failed" if want else "forced" if force else "continued")
    return sorted(out)


@st.composite
def histories(draw):
    P = {**gen.DEFAULT, "brk": 30, "auto_combo": 20, "cond": 10}
    names = gen.SKILLS[:draw(st.integers(1, 5))]
    skills = [{"name": n, **({"combo": gen.variants(draw, P, gen.gen_combo(P, names))} if pct(draw, 85) else {})}
              for n in names]
    brk = [[g, gen.some(draw, [0, 1, 2], 2)] for g in gen.some(draw, [0, 1, 2], 3)] if pct(draw, 50) else []
    ops, t = [], 0
    for _ in range(draw(st.integers(1, 20))):
        t += pick(draw, [2500, 0, 1000, 29999, 30000, 30001, 15000, 60000]) if pct(draw, 40) else 2500
        ops.append([t, draw(st.integers(0, len(names) - 1)), pct(draw, 8), pick(draw, ["", "", "", "cA", "cB"])])
    return {"skills": skills, "brk": brk, "ops": ops}


def scenarios():
    return gen.scenarios(combo=85, brk=35, dmg=90, cond=10, mods=25, fu=10, buff=10, multi=10, presses=(2, 14),
                         skills=(2, 5), far=60, timed=65, delay=40)


def real():
    return gen.real_scenarios(presses=(2, 30), autos=0, downtime=0, party=3, multi=5, far=50,
                              jobs=("SAM", "DRG", "NIN", "RPR", "VPR", "PLD", "WAR", "GNB", "DRK", "MCH", "DNC", "RDM",
                                    "MNK"))


SUITES = [
    Suite("tracker", histories, run_tracker, 6000, 500000,
          "histories of presses; non-trivial: a skill with required predecessors is used"),
    Suite("rotations", scenarios, run, 2200, 180000, "same rule"),
    Suite("real-skills", real, run_real, 500, 60000, "real combo jobs; same rule"),
]
