"""C13: auto-attacks."""
from .. import build as B, gen, model as M
from ..core import Suite, Violation, sut

AUTO = ("Auto", "Shot")


def events(q):
    return [B.q_key(e) for e in q]


def blocked(R):
    """Periods in which no auto may start: casts and channels of skills pressed at given times."""
    return R.tl.windows + sorted(R.tl.ch.windows)


def labels(R):
    autos = sorted(e.snap for e in R.tl.events if e.origin == "auto")
    if not autos:
        return None
    out = {"autos"}
    gaps = {round(b - a, 3) for a, b in zip(autos, autos[1:])}
    if len(gaps) > 1:
        out.add("uneven autos")
    if blocked(R) and any(abs(w[1] - R.tl.shift - t) < 1e-6 for w in blocked(R) for t in autos):
        out.add("auto right after a cast or channel")
    if R.case["opts"].get("downtime"):
        out.add("with downtime")
    if len({e.targets for e in R.tl.events if e.origin == "auto"}) > 1:
        out.add("autos on several targets")
    return sorted(out)


def check(R, case, real):
    def want_autos(tl):
        return [B.event_key(e)[:4] for e in tl.events if e.origin == "auto"]

    pressed = {p["skill"] for p in case["rot"]} & set(AUTO)
    if pressed:
        return None  # a press of the auto skill itself is not an auto-attack
    got = [B.q_key(e)[:4] for e in R.q if e.skill.name in AUTO]
    try:
        B.diff("autos", got, want_autos(R.tl), B.EVENT_FIELDS[:4])
    except Violation:
        # the known findings: should they be mended, this is what is expected.
        for mended in ({"seq_blocks": True}, {"new_target": True}, {"seq_blocks": True, "new_target": True}):
            tl = M.Timeline(R.mlib, R.ms, B.m_rot(case["rot"]), M.replace(R.mo, **mended))
            try:
                B.diff("autos", got, want_autos(tl))
            except Violation:
                continue
            return labels(R)
        raise
    with sut("building without autos"):
        rb = B.r_rotation(R.stats, R.lib, {**case["opts"], "autos": False}, case["rot"])
        q0 = rb.get_skill_timing().get_q()
        p0 = rb.get_button_press_timing()
    rest = [B.q_key(e) for e in R.q if e.skill.name not in AUTO]
    B.diff("other events, with autos rather than without", rest, [B.q_key(e) for e in q0], B.EVENT_FIELDS)
    B.diff("presses, with autos rather than without", [B.bp_key(p) for p in R.presses], [B.bp_key(p) for p in p0])
    return labels(R)


def run(case):
    R = B.Run(case)
    out = check(R, case, False)
    R.check_hits((0, 1, 2, 4, 5), "effects of hits")
    return out


def run_real(case):
    return check(B.Run(case, real=True), case, True)


def scenarios():
    return gen.scenarios(autos=100, autoeff=45, haste=20, buff=45, debuff=40, allow=30, deny=20, expires=30, cast=60, delay=40, multi=25, presses=(1, 9),
                         skills=(1, 4), timed=75, far=35, fu=10, dot=15, trailing=20, fight_start=15, target=15, uses=10,
                         jobs=("SAM", "MNK", "NIN", "PLD", "DNC", "WHM", "BLM", "BRD", "MCH", "AST", "VPR", "PCT"),
                         prio=10, clear=6)


def blocks():
    """Casts, channels and downtime."""
    return gen.scenarios(autos=100, cast=80, chan=35, downtime=60, fight_start=25, multi=30, presses=(1, 9), skills=(1, 4),
                         timed=90, far=35, dmg=90, cond=10, mods=25, buff=15, autoeff=30, target=15, trailing=10)


def real():
    return gen.real_scenarios(autos=100, presses=(1, 20), downtime=30, generic=3)


FINDING = {
    "stats": dict(wd=126, main=2945, det=1620, crit=2377, dh=1048, speed=400, job="PLD", version="6.55", level=90,
                  ten=751, weapon_delay=2.24),
    "lib": {"jobs": {"PLD": {"skills": [
        {"name": "Hit", "timing": {"v": {"lock": 650}}, "dmg": {"v": {"potency": 100}}},
        {"name": "Cast", "gcd": True, "timing": {"v": {"cast": 5000, "lock": 100}}, "dmg": {"v": {"potency": 100}}},
        {"name": "Auto", "timing": {"v": {"lock": 0, "delay": 0}}, "dmg": {"v": {"potency": 90, "cls": "AUTO"}}}]}}},
    "opts": {"autos": True}, "rot": [{"skill": "Hit"}, {"skill": "Cast"}]}


FINDING_TARGET = {**FINDING, "opts": {"autos": True, "fight_start": 0, "downtime": {"A": [[1, 9]]}},
                  "rot": [{"skill": "Hit", "t": 0, "targets": "A"}, {"skill": "Hit", "t": 1, "targets": "B"},
                          {"skill": "Hit", "t": 12, "targets": "B"}]}


def autos_of(case):
    with sut("finding"):
        rb = B.r_rotation(B.r_stats(case["stats"]), B.r_lib(case["lib"], "6.55", 90), case["opts"], case["rot"])
        return [e.event_times.primary for e in rb.get_skill_timing().get_q() if e.skill.name == "Auto"]


def known_finding_lines(known):
    out = []
    for k in known:
        if k["id"] == "D5":
            bad = [t for t in autos_of(FINDING) if 650 < t < 5600]
            out += [f"{k['what']} (auto at {bad[0]} ms during the cast from 650 to 5650 ms)"] if bad else []
        if k["id"] == "D17":
            got = sorted(autos_of(FINDING_TARGET))
            out += [f"{k['what']} (the next auto after 0 is at {got[1]} ms on B, as A is gone until 9000 ms)"] if got[1] == 9000 else []
    return out


SUITES = [
    Suite("speed", scenarios, run, 1800, 150000, "weapon delays, traits, auto and haste effects, targets; non-trivial: "
          "there are autos"),
    Suite("blocked", blocks, run, 1500, 120000, "casts, channels, downtime; same rule"),
    Suite("real-skills", real, run_real, 600, 60000, "real skills of any job; same rule"),
]
ASSUMPTIONS = ["casts and channels of skills entered in sequence do not delay autos (known finding); both outcomes are "
               "accepted there"]
