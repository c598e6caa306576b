"""C08: damage over time."""
from hypothesis import strategies as st

from .. import build as B, gen
from ..core import Suite, Violation, sut
from ..gen import pct, pick


def labels(R):
    out = set()
    dots = [e for e in R.tl.events if e.origin == "dot"]
    if dots:
        out.add("ticks")
    for apps in R.tl.dots.values():
        if len(apps) > 1:
            out.add("reapplied")
            a = sorted(apps, key=lambda x: x[0])
            if any(y[0] - x[0] < x[3].dot for x, y in zip(a, a[1:])):
                out.add("reapplied while ticking")
            if len({x[3].dot for x in a}) > 1:
                out.add("replaced by another of the same name")
    if len({t for t, _ in R.tl.dots}) > 1:
        out.add("several targets")
    if dots and R.case["opts"].get("server_tick") is not None:
        out.add("server ticks")
    if dots and R.case["opts"].get("trailing"):
        out.add("trailing ticks ignored")
    return sorted(out)


def compare(R, is_dot):
    R.check_events("ticks", lambda e: e.origin == "dot", lambda e: is_dot(e.skill.name))
    got = [B.inst_key(x) for x in R.inst if is_dot(x[1].name)]
    want = [B.hit_key(h) for h in R.hits if is_dot(h.skill.name)]
    try:
        B.diff("damage of ticks", got, want, B.FIELDS)
    except Violation:
        R.skip_if_ambiguous()
        raise
    return labels(R)


def run(case):
    return compare(B.Run(case), lambda n: n.startswith("dot "))


def run_real(case):
    R = B.Run(case, real=True)
    names = {name for _, name in R.tl.dots}
    others = {e.skill.name for e in R.tl.events if e.origin != "dot"}
    return compare(R, lambda n: n in names and n not in others)


def scenarios():
    return gen.scenarios(dot=75, fu=30, buff=25, debuff=15, multi=30, server_tick=35, trailing=35, cond=10, mods=20,
                         delay=40, cast=40, timed=65, presses=(1, 9), skills=(1, 5), far=60, autos=10, fight_start=10)


def real():
    return gen.real_scenarios(multi=25, presses=(1, 15), far=60, server_tick=40, trailing=40)


def run_single(case):
    """One dot, applied at given times to given targets: closed formula for its ticks."""
    s = dict(wd=126, main=2945, det=1620, crit=2377, dh=1048, speed=400, job="SAM", version="6.55", level=90, ten=751)
    lib = {"jobs": {"SAM": {"skills": [
        {"name": "Dot", "timing": {"v": {"lock": 0, "delay": case["delay"]}}, "dmg": {"v": {"potency": 10}},
         "fu": {"v": [{"skill": {"name": "tick", "dmg": {"v": {"potency": 50, "cls": "PHYSICAL_DOT"}}},
                       "dot": case["duration"], "pto": False}]}},
        {"name": "Other", "timing": {"v": {"lock": 0, "delay": case["delay"]}}, "dmg": {"v": {"potency": 10}},
         "fu": {"v": [{"skill": {"name": "tick", "dmg": {"v": {"potency": 40, "cls": "PHYSICAL_DOT"}}},
                       "dot": case["other"], "pto": False}]}},
        {"name": "Last", "timing": {"v": {"lock": 0}}, "dmg": {"v": {"potency": 10}}}]}}}
    rot = [{"skill": name, "t": t / 1000, "targets": ",".join(tg)} for t, tg, name in case["apps"]]
    if case["last"] is not None:
        rot.append({"skill": "Last", "t": case["last"] / 1000})
    opts = {"fight_start": 0, "trailing": case["trailing"]}
    if case["tick"] is not None:
        opts["server_tick"] = case["tick"] / 1000
    with sut("building"):
        rb = B.r_rotation(B.r_stats(s), B.r_lib(lib, "6.55", 90), opts, rot)
        q = rb.get_skill_timing().get_q()
    got = [(B.q_key(e)[1], e.targets[0], e.skill.get_damage_spec(e.skill_modifier).potency) for e in q if e.skill.name == "tick"]
    if any(len(e.targets) != 1 for e in q if e.skill.name == "tick"):
        raise Violation("a tick hits several targets")
    apps = {}
    for t, tg, name in case["apps"]:
        for x in tg:
            apps.setdefault(x, {})[t + case["delay"]] = (case["duration"], 50) if name == "Dot" else (case["other"], 40)
    last = max([t + case["delay"] for t, _, _ in case["apps"]] + [case["last"] if case["last"] is not None else -10**9])
    want = []
    for x, ts in apps.items():
        which, ts = ts, sorted(ts)
        for i, a in enumerate(ts):
            end = min([a + which[a][0], *ts[i + 1:]])
            t = a if case["tick"] is None else a + (case["tick"] - a) % 3000
            while t < end:
                if not case["trailing"] or t <= last:
                    want.append((float(t), x, which[a][1]))
                t += 3000
    B.diff("ticks (time, target, potency)", got, want)
    if got:
        return ["server tick" if case["tick"] is not None else "from application"] + (
            ["trailing ignored"] if case["trailing"] else []) + (["reapplied"] if len(case["apps"]) > 1 else []) + (
                ["replaced by another of the same name"] if len({a[2] for a in case["apps"]}) > 1 else [])


@st.composite
def singles(draw):
    n = draw(st.integers(1, 5))
    t, apps = 0, []
    for _ in range(n):
        t += draw(st.one_of(st.sampled_from([3000, 15000, 30000, 1000, 2999, 3001, 9000, 500]),
                            st.integers(1, 40000)))
        tg = pick(draw, [["a"], ["b"], ["a", "b"], ["b", "a"], ["a", "b", "c"]])
        apps.append([t, tg, "Other" if pct(draw, 30) else "Dot"])
    return {"delay": pick(draw, [0, 620, 1000]), "duration": pick(draw, [30000, 15000, 9000, 3000, 10000, 500]),
            "other": pick(draw, [18000, 30000, 24000, 6000, 3000]), "apps": apps, "tick": pick(draw, [None, None, 0, 1000, 2500, 500, 3000, 12250]),
            "trailing": pct(draw, 40), "last": draw(st.integers(0, 60000)) if pct(draw, 50) else None}


SUITES = [
    Suite("one-dot", singles, run_single, 4000, 300000, "closed formula for the ticks; non-trivial: it ticks"),
    Suite("rotations", scenarios, run, 2200, 180000, "reference model; labels say what happens to the dots"),
    Suite("real-skills", real, run_real, 500, 60000, "real skills of any job; same rule"),
]
