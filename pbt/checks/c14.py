"""C14: downtime."""
import copy

from .. import build as B, gen, model as M
from ..core import Suite, Violation, sut


def down(case, t, target, cls):
    d = case["opts"].get("downtime") or ()
    ws = d.get(target, ()) if isinstance(d, dict) else d
    return any(w[0] * 1000 <= t < w[1] * 1000 and (len(w) < 3 or w[2] in (None, cls)) for w in ws)


def filtered(case, q):
    """What must be left of the events without downtime. (Autos are judged by C13.)"""
    out, removed = [], 0
    for e in q:
        snap, app, name, targets, conds = B.q_key(e)
        with sut("damage of an event"):
            spec = e.skill.get_damage_spec(e.skill_modifier)
        if spec is not None:
            left = ()
            for x in targets:  # the first target left is hit first, each other 135 ms after the one before
                if not down(case, snap, x, spec.damage_class.name) and \
                        not down(case, app + 135 * len(left), x, spec.damage_class.name):
                    left += (x,)
            removed += len(targets) - len(left)
            if not left:
                continue
            targets = left
        out.append((snap, app, name, targets, conds))
    return out, removed


def labels(R, removed):
    out = set()
    if removed:
        out.add("hits removed")
        if R.hits:
            out.add("some removed, some left")
        d = R.case["opts"]["downtime"]
        if isinstance(d, dict):
            out.add("windows by target")
        if any(len(w) > 2 for ws in (d.values() if isinstance(d, dict) else [d]) for w in ws):
            out.add("windows by damage class")
        if any(e.targets and len(e.targets) > 1 for e, _ in R.tl.removed):
            out.add("some targets of an event removed")
    return sorted(out)


def meta(R, case):
    with sut("building without downtime"):
        opts = {k: v for k, v in case["opts"].items() if k != "downtime"}
        rb = B.r_rotation(R.stats, R.lib, opts, case["rot"])
        q0 = rb.get_skill_timing().get_q()
        p0 = rb.get_button_press_timing()
    names = {"Auto", "Shot"} if case["opts"].get("autos") else set()
    want, removed = filtered(case, [e for e in q0 if e.skill.name not in names])
    got = [B.q_key(e) for e in R.q if e.skill.name not in names]
    B.diff("events with downtime", got, want, B.EVENT_FIELDS)
    B.diff("presses with downtime", [B.bp_key(p) for p in R.presses], [B.bp_key(p) for p in p0])
    return removed


def run(case):
    R = B.Run(case)
    removed = meta(R, case)
    R.check_hits((0, 1, 2, 4, 5), "hits with downtime")
    return labels(R, removed)


def run_real(case):
    R = B.Run(case, real=True)
    removed = meta(R, case)
    R.check_hits((0, 1, 2, 4, 5), "hits with downtime")
    return labels(R, removed)


def run_caller(case):
    """The caller's windows stay as they are, and windows without targets hold for all targets, old and new."""
    d = B.r_downtime(case["opts"]["downtime"])
    before = copy.deepcopy(d)
    st = case["stats"]
    with sut("building"):
        lib = B.r_lib(case["lib"], st["version"], st["level"])
        stats = B.r_stats(st)
        opts = {k: v for k, v in case["opts"].items() if k != "downtime"}
        rb = B.RotationBuilder(stats, lib, downtime_windows=d, **B.r_opts(opts))
    done = []
    out = None
    for p in case["rot"]:
        done.append(p)
        with sut("adding"):
            B.r_press(rb, p)
            q = rb.get_skill_timing().get_q()
        tl = M.Timeline(B.m_lib(case["lib"]), B.m_stats(st), B.m_rot(done), B.m_opts(case["opts"]))
        B.diff(f"events after {len(done)} presses", [B.q_key(e)[:4] for e in q], [B.event_key(e)[:4] for e in tl.events],
               B.EVENT_FIELDS[:4])
        if d != before or type(d) is not type(before):
            raise Violation(f"the caller's downtime windows were changed to {d}")
        if tl.removed:
            out = "hits removed"
    return out


def scenarios():
    return gen.scenarios(downtime=100, overlap=50, dot=35, fu=25, multi=40, buff=20, debuff=15, delay=50, cast=40, presses=(1, 12),
                         skills=(1, 5), timed=75, fight_start=25, target=20, server_tick=10, trailing=15, autos=25, combo=8,
                         cond=8, mods=15)


def kinds():
    """Skills which deal different kinds of damage depending on what holds."""
    return gen.scenarios(downtime=100, overlap=50, cls=75, cond=60, mods=60, dot=15, fu=25, multi=30, delay=40, presses=(1, 8),
                         skills=(1, 4), timed=80, fight_start=10, target=15, combo=20, buff=20, condeff=50, classes=60)


def callers():
    return gen.scenarios(downtime=100, overlap=50, dot=25, fu=15, multi=60, delay=40, presses=(2, 6), skills=(1, 3), timed=80,
                         fight_start=20, target=20)


def real():
    return gen.real_scenarios(downtime=100, overlap=40, presses=(1, 25), multi=25)


SUITES = [
    Suite("rotations", scenarios, run, 2000, 170000,
          "the events without downtime, minus those in a window; non-trivial: a hit is removed"),
    Suite("kinds-of-damage", kinds, run, 700, 60000,
          "the same for skills whose kind of damage depends on what holds, in windows of one kind; same rule"),
    Suite("callers-windows", callers, run_caller, 700, 60000,
          "windows given as in the API, presses added one by one and the timeline built after each; same rule"),
    Suite("real-skills", real, run_real, 500, 50000, "real skills of any job; same rule"),
]
