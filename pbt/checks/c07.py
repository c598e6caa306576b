"""C07: snapshot and application times, follow-ups."""
from .. import build as B, gen
from ..core import Suite


def labels(R):
    out = set()
    for e in R.tl.events:
        if e.origin == "follow":
            out.add("follow-up" + ("" if all(e.status) or e.at_once else " with its own snapshot"))
        if e.origin == "press" and not e.at_once:
            out.add("snapshot before application")
        if e.mod.no_cast or e.mod.no_delay:
            out.add("ignores cast or delay")
    if len({id(e.skill) for e in R.tl.events}) and len(R.case["rot"]) > 1 and any("t" in p for p in R.case["rot"]):
        ts = [p["t"] for p in R.case["rot"] if p.get("t") is not None]
        if ts != sorted(ts):
            out.add("times entered out of order")
        if len(set(ts)) < len(ts):
            out.add("simultaneous presses")
    return sorted(out)


def run(case):
    R = B.Run(case)
    R.check_presses(conds=False)
    R.check_events("snapshot and application times")
    R.check_hits((0, 1, 2), "hits")
    return labels(R)


def run_order(case):
    """Which follow-up sees the effects of which other one, and of its parent."""
    R = B.Run(case)
    R.check_events("snapshot and application times")
    R.check_hits((0, 1, 2, 4, 5), "hits with effects")
    return labels(R)


def run_real(case):
    R = B.Run(case, real=True)
    R.check_events("snapshot and application times")
    return labels(R)


def times():
    return gen.scenarios(fu=55, cast=50, delay=55, mods=35, cond=20, condeff=5, buff=20, debuff=12, haste=20, flat=7, rich=0, timed=65,
                         mix=10, multi=10, presses=(1, 9), skills=(1, 5), fight_start=20, combo=10, res=10, offclass=15)


def order():
    return gen.scenarios(fu=70, fu_status=60, buff=25, debuff=15, cast=40, delay=50, timed=65, presses=(1, 6),
                         skills=(1, 3), uses=25, mods=15)


def real():
    return gen.real_scenarios(autos=0, downtime=0, presses=(1, 15))


SUITES = [
    Suite("times", times, run, 2500, 200000,
          "non-trivial: has follow-ups, casts, delays, ignored casts or delays, simultaneous or unordered presses"),
    Suite("follow-up-order", order, run_order, 2000, 160000, "follow-ups with effects; same rule"),
    Suite("real-skills", real, run_real, 500, 60000, "real skills of any job; same rule"),
]
ASSUMPTIONS = ["the order of simultaneous events of one and the same skill is unspecified: cases where it matters are "
               "not judged"]
