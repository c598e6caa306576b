"""C25: the fight clock starts with the first damage."""
from hypothesis import strategies as st

from .. import build as B, gen
from ..core import Suite, Violation, sut
from ..gen import pct, pick


def results(stats, lib, opts, rot):
    with sut("building the rotation"):
        rb = B.r_rotation(stats, lib, opts, rot)
        tm = rb.get_skill_timing()
        q = tm.get_q()
        inst = B.DamageBuilder(stats, lib).get_damage_instances(tm)
        presses = rb.get_button_press_timing()
        firsts = []
        for e in q:
            if e.skill.get_damage_spec(e.skill_modifier) is not None:
                p, s = e.event_times.primary, e.event_times.secondary
                firsts.append(p if s is None else s)
    return ([B.q_key(e) for e in q], [B.bp_key(p) for p in presses], [B.inst_key(x) for x in inst],
            min(firsts, default=None))


def moved(res, d):
    """All times d ms later."""
    q, p, h, _ = res
    return ([(B.r(a + d), B.r(b + d), *x) for a, b, *x in q], [(B.r(t + d), *x) for t, *x in p],
            [(B.r(t + d), *x) for t, *x in h])


def same(what, a, b):
    for n, x, y in zip(("events", "presses", "hits"), a, b):
        B.diff(f"{n} {what}", x, y)


def setting(case, real):
    st_ = case["stats"]
    with sut("stats and library"):
        lib = B.real_lib(st_["version"], st_["level"]) if real else B.r_lib(case["lib"], st_["version"], st_["level"])
        return B.r_stats(st_), lib


def later(rot, ms):
    return [{**p, "t": round(1000 * p["t"] + ms) / 1000} if p.get("t") is not None else p for p in rot]


def run(case, real=False):
    R = B.Run(case, real=real)  # also skips what no one may judge
    R.skip_if_ambiguous()
    stats, lib = setting(case, real)
    base = results(stats, lib, case["opts"], case["rot"])
    first = base[3]
    if first is not None and abs(first) > 1e-6:
        raise Violation(f"the first damage applies at {first} ms")
    if base[2] and min(h[0] for h in base[2]) != 0:
        raise Violation(f"the first hit is at {min(h[0] for h in base[2])} ms")
    out = set()
    if first is not None and R.tl.shift:
        out.add("moved")
        e = min((e for e in R.tl.events if e.app == 0 and e.skill.dmg), key=lambda e: e.snap, default=None)
        if e is not None:
            out.add("first damage is a " + e.origin)
    timed = all(p.get("t") is not None for p in case["rot"])
    if timed and first is not None:
        for d in case["delays"]:
            same(f"after entering everything {d} ms later", results(stats, lib, case["opts"], later(case["rot"], d)), base)
            out.add("delayed")
    # with a fight start given: as entered, and the same apart from the clock
    opts = {**case["opts"], "fight_start": case["start"]}
    given = results(stats, lib, opts, case["rot"])
    if timed:
        B.diff("press times with a fight start given", [p[:2] for p in given[1]],
               [(B.r(round(1000 * p["t"])), p["skill"]) for p in case["rot"]])
    elif all(p.get("t") is None for p in case["rot"]) and given[1]:
        if min(p[0] for p in given[1]) != case["start"]:
            raise Violation(f"sequence starts at {given[1][0]}, fight at {case['start']}")
    if first is not None and (timed or all(p.get("t") is None for p in case["rot"])):
        same("with and without a fight start", moved(given, -given[3]), base[:3])
    return sorted(out)


def run_real(case):
    return run(case, True)


@st.composite
def with_delays(draw, scenarios):
    c = draw(scenarios)
    c["opts"].pop("fight_start", None)
    c["delays"] = [pick(draw, [1000, 1, 12345, -3000, 60000, 333, draw(st.integers(-5000, 100000))]) for _ in range(2)]
    c["start"] = pick(draw, [0, 0, 1000, 5000, -2000])
    return c


def scenarios():
    return with_delays(gen.scenarios(fu=35, dot=30, delay=60, cast=40, buff=20, debuff=10, timed=70, autos=25, multi=15,
                                     presses=(1, 8), skills=(1, 4), server_tick=0, downtime=0, fight_start=0, cond=10, mods=25,
                                     combo=8, res=8, chan=5, trailing=15, haste=5))


def real():
    return with_delays(gen.real_scenarios(timed=70, server_tick=0, downtime=0, fight_start=0, presses=(1, 10), multi=10))


SUITES = [
    Suite("rotations", scenarios, run, 800, 100000, "first damage at zero; entered later, or with a fight start; non-trivial: "
          "the clock had to be moved, or the rotation is delayed"),
    Suite("real-skills", real, run_real, 140, 25000, "the same with real skills"),
]
ASSUMPTIONS = ["without server ticks and downtime, which refer to the clock (C08, C14)"]
