"""C16: timelines are repeatable, and leave their inputs alone."""
import contextlib
import copy
import io

import numpy as np
from hypothesis import strategies as st

from .. import build as B, gen, model as M
from ..core import Skip, Suite, Violation, sut
from ..gen import pct, pick


def public(o):
    """The visible state of an object passed in."""
    return {k: copy.deepcopy(v) for k, v in vars(o).items() if not k.startswith("_")}


def lib_state(lib, jobs):
    return {j: ({n: lib.get_skill(n, j) for n in names}, lib.get_status_effect_priority(j),
                lib.get_all_resource_settings(j), lib.get_all_combo_breakers(j)) for j, names in jobs.items()}


def result(rb, stats, lib, db=None):
    """All a user sees of a rotation: events, presses, hits and their expected damage."""
    timing = rb.get_skill_timing()
    events = sorted(B.q_key(e) for e in timing.get_q())
    presses = [B.bp_key(p) for p in rb.get_button_press_timing()]
    inst = (db or B.DamageBuilder(stats, lib)).get_damage_instances(timing)
    hits = sorted(B.inst_key(x) for x in inst)
    sim = B.DamageSimulator(stats, inst, 2)
    dmg = [float(x) for x in sim.get_expected_damage_per_damage_instance()]
    rows = [(r.application_time, r.skill_name, r.target, round(r.expected_damage, 6)) for r in sim.get_per_skill_damage()]
    return {"events": events, "presses": presses, "hits": hits, "damage": [B.sig(x) for x in dmg], "report": rows}


def fresh(case, i, mods, presses):
    st_ = case["stats"][i]
    lib = B.r_lib(case["lib"], st_["version"], st_["level"])
    stats = B.r_stats(st_)
    opts = {**case["opts"][i], **mods}
    return result(B.r_rotation(stats, lib, opts, presses), stats, lib), opts


def same(what, got, want):
    for k in want:
        if got[k] != want[k]:
            a = [x for x in got[k] if x not in want[k]][:1]
            b = [x for x in want[k] if x not in got[k]][:1]
            raise Violation(f"{what}: {k} differ from those of a freshly made identical rotation: "
                            f"{len(got[k])} instead of {len(want[k])}, e.g. {a} instead of {b}")


def run(case):
    with sut("setting up"):
        lib = B.r_lib(case["lib"], case["stats"][0]["version"], case["stats"][0]["level"])
        ref = B.r_lib(case["lib"], case["stats"][0]["version"], case["stats"][0]["level"])
        stats = [B.r_stats(s) for s in case["stats"]]
        before = [public(s) for s in stats]
        windows = [B.r_downtime(o["downtime"]) if o.get("downtime") else None for o in case["opts"]]
        wbefore = copy.deepcopy(windows)
        rbs, dbs = [], []
        for s, o, w in zip(stats, case["opts"], windows):
            kw = B.r_opts({k: v for k, v in o.items() if k != "downtime"})
            if w is not None:
                kw["downtime_windows"] = w
            rbs.append(B.RotationBuilder(s, lib, **kw))
            dbs.append(B.DamageBuilder(s, lib))
        mods = [B.r_modifier(m) for m in case["mods"]]
        mbefore = [None if m is None else public(m) for m in mods]
    presses = [[], []]
    toggles = [{}, {}]
    jobs = {j: [s["name"] for s in v["skills"]] for j, v in case["lib"]["jobs"].items()}
    out, built = set(), [0, 0]

    def compare(i, db=None):
        with sut("building"):
            got = result(rbs[i], stats[i], lib, db)
            want, opts = fresh(case, i, toggles[i], presses[i])
        same(f"rotation {i} after {len(presses[i])} presses and {built[i]} earlier builds", got, want)
        if built[i]:
            out.add("built again")
        built[i] += 1
        if got["hits"]:
            out.add("hits")
        return opts

    for op in case["ops"]:
        kind, i = op[0], op[1]
        if kind == "add":
            p = dict(op[2])
            m = p.pop("m")
            if case["mods"][m] is not None:
                p["mod"] = case["mods"][m]
            presses[i].append(p)
            kw = dict(skill_modifier=mods[m], job_class=p.get("job"), targets=p.get("targets"))
            with sut("adding"):
                if p.get("t") is None:
                    rbs[i].add_next(p["skill"], **kw)
                else:
                    rbs[i].add(p["t"], p["skill"], **kw)
            if built[i]:
                out.add("added after building")
        elif kind == "build":
            compare(i)
        elif kind == "same builder":
            compare(i, dbs[i])
        elif kind == "sim":
            with sut("simulating"):
                sim = B.DamageSimulator(stats[i], dbs[i].get_damage_instances(rbs[i].get_skill_timing()), 3,
                                        save_damage_matrix=True)
                sim.get_per_skill_damage(rbs[i])
                sim.get_damage_ranges()
                if len(sim.get_damage_time()):
                    np.sum(sim.get_damage_matrix())
            built[i] += 1
        elif kind == "print":
            with sut("printing"), contextlib.redirect_stdout(io.StringIO()):
                rbs[i].print_button_press_timings_as_csv()
        elif kind == "mutate":
            # what was handed out belongs to the user
            with sut("reading"):
                got = rbs[i].get_button_press_timing()
                for p in got:
                    p[0] += 12345
                got.clear()
                q = rbs[i].get_skill_timing().get_q()
                q.clear()
            built[i] += 1
        elif kind == "autos":
            toggles[i]["autos"] = op[2]
            with sut("switching autos"):
                rbs[i].set_enable_autos(op[2])
        elif kind == "trailing":
            toggles[i]["trailing"] = op[2]
            with sut("switching trailing dots"):
                rbs[i].set_ignore_trailing_dots(op[2])
    for i in (0, 1):
        if not presses[i]:
            continue
        opts = compare(i)
        # and the freshly made one is right to begin with
        mlib = B.m_lib(case["lib"])
        tl = M.Timeline(mlib, B.m_stats(case["stats"][i]), B.m_rot(presses[i]), B.m_opts(opts))
        with sut("building"):
            q = rbs[i].get_skill_timing().get_q()
        B.diff("events", [B.q_key(e)[:4] for e in q], [B.event_key(e)[:4] for e in tl.events], B.EVENT_FIELDS[:4])
    for s, b in zip(stats, before):
        now = public(s)
        if any(now.get(k) != v for k, v in b.items()):
            raise Violation(f"the stats were changed: {b} to {now}")
    for m, b in zip(mods, mbefore):
        if m is not None and any(public(m).get(k) != v for k, v in b.items()):
            raise Violation(f"a skill modifier passed in was changed: {b} to {public(m)}")
    if windows != wbefore:
        raise Violation(f"the downtime windows passed in were changed: {wbefore} to {windows}")
    if lib_state(lib, jobs) != lib_state(ref, jobs):
        raise Violation("the skill library was changed")
    if all(built):
        out.add("two rotations")
    return sorted(out)


@st.composite
def histories(draw, **over):
    P = {**gen.DEFAULT, **dict(buff=30, debuff=20, dot=30, fu=25, multi=25, delay=40, cast=40, combo=15, res=20, chan=10,
                               cond=20, haste=15, autoeff=10, uses=20, condeff=5, dropoff=15, prio=10, skills=(2, 4),
                               autos=35, downtime=35, server_tick=15, trailing=20, fight_start=15, target=10, mods=100,
                               deny=5, allow=10, clear=3, past=20), **over}
    s0 = gen.gen_stats(draw, P)
    s1 = {**s0, "speed": draw(st.integers(420, 3500)), "wd": 120}
    jobs = {s0["job"]: gen.gen_job(draw, P)}
    jobs[s0["job"]]["skills"].append({
        "name": "Shot" if s0["job"] == "DNC" else "Auto", "timing": {"v": {"lock": 0, "delay": 532}},
        "dmg": {"v": {"potency": 90, "cls": "AUTO"}}})
    names = [s["name"] for s in jobs[s0["job"]]["skills"][:-1]]
    opts = [gen.gen_opts(draw, P), gen.gen_opts(draw, P)]
    mods = [None] + [gen.gen_mod(draw, P) for _ in range(draw(st.integers(0, 2)))]
    ops, t = [], [0, 0]
    style = [pct(draw, 65), pct(draw, 65)]
    for _ in range(draw(st.integers(2, 14))):
        i = 1 if pct(draw, 35) else 0
        k = draw(st.integers(0, 99))
        if k < 55:
            p = {"skill": pick(draw, names), "m": draw(st.integers(0, len(mods) - 1))}
            tg = gen.gen_targets(draw, P, opts[i].get("target", "Default Target"))
            if tg is not None:
                p["targets"] = tg
            if style[i]:
                # in any order, but never two of one skill at one time
                t[i] += max(1, gen.gen_gap(draw, P))
                p["t"] = (t[i] if not pct(draw, P["past"]) else t[i] % 7919) / 1000
                if any(o[0] == "add" and o[1] == i and o[2].get("t") == p["t"] for o in ops):
                    p["t"] += 0.001 * (len(ops) + 1)
                    p["t"] = round(p["t"], 3)
            ops.append(["add", i, p])
        elif k < 72:
            ops.append(["build", i])
        elif k < 80:
            ops.append(["same builder", i])
        elif k < 86:
            ops.append(["sim", i])
        elif k < 89:
            ops.append(["print", i])
        elif k < 94:
            ops.append(["mutate", i])
        elif k < 97:
            ops.append(["autos", i, pct(draw, 50)])
        else:
            ops.append(["trailing", i, pct(draw, 50)])
    return {"stats": [s0, s1], "lib": {"jobs": jobs}, "opts": opts, "mods": mods, "ops": ops}


def changed_past():
    """What is added later changes the times of what was there (a speed effect before a cast), as well as its conditions."""
    return histories(haste=70, flat=30, cast=95, dot=70, buff=70, debuff=20, fu=10, past=60, autos=30, downtime=5, combo=5,
                     res=10, chan=5, rich=5, mods=60, condeff=15, skills=(2, 3), server_tick=5, far=10)


def run_order(case):
    """Timed skills entered in another order."""
    rot = case["rot"]
    keys = [(round(1000 * p["t"]), p["skill"]) for p in rot]
    if len(set(keys)) < len(keys):
        raise Skip("one skill twice at one time")
    st_ = case["stats"]
    res = []
    for r in (rot, [rot[i] for i in case["perm"]], sorted(rot, key=lambda p: p["t"])):
        with sut("building"):
            lib = B.r_lib(case["lib"], st_["version"], st_["level"])
            stats = B.r_stats(st_)
            rb = B.r_rotation(stats, lib, case["opts"], r)
            x = result(rb, stats, lib)
            x["presses"].sort()
            x["report"].sort()
            x["damage"].sort()
        res.append(x)
    for x in res[1:]:
        same("entered in another order", x, res[0])
    return "reordered" if case["perm"] != sorted(case["perm"]) and res[0]["hits"] else None


@st.composite
def orders(draw):
    case = draw(gen.scenarios(timed=100, buff=35, debuff=25, dot=25, fu=20, combo=25, res=25, multi=20, cast=40, delay=40,
                              haste=10, presses=(2, 8), skills=(2, 4), autos=25, chan=15, uses=20, server_tick=10,
                              trailing=15, fight_start=15, clear=5))
    case["perm"] = list(draw(st.permutations(range(len(case["rot"])))))
    return case


def run_real(case):
    """Rotations of real skills on one library: A, B, A again, each as the model of the unused library says."""
    runs = [B.Run(c, real=True) for c in case]
    first = runs[0]
    with sut("building again"):
        a = result(first.rb, first.stats, first.lib)
        b = result(first.rb, first.stats, first.lib, B.DamageBuilder(first.stats, first.lib))
        fr = B.r_rotation(B.r_stats(case[0]["stats"]), first.lib, case[0]["opts"], case[0]["rot"])
        c = result(fr, first.stats, first.lib)
    same("built again", a, c)
    same("built a third time", b, c)
    again = B.Run(case[0], real=True)
    again.check_events("events of the first rotation after the others", n=4)
    again.check_hits((0, 1, 2, 4, 5), "hits of the first rotation after the others")
    return "hits" if c["hits"] else None


@st.composite
def reals(draw):
    v, l = pick(draw, gen.VERSIONS)
    n = draw(st.integers(1, 2))
    return [draw(gen.real_scenarios(versions=[(v, l)], presses=(2, 12))) for _ in range(n)]


SUITES = [
    Suite("histories", histories, run, 1200, 100000,
          "histories of adding, building, simulating and switching options on two rotations sharing library, stats and "
          "modifiers; each build is compared with a freshly made rotation; labels say what was met"),
    Suite("changed-past", changed_past, run, 500, 50000, "what is added later changes the times of what was there; same rule"),
    Suite("entry-order", orders, run_order, 700, 60000, "timed skills in another order; non-trivial: hits, and reordered"),
    Suite("real-skills", reals, run_real, 200, 24000, "rotations of real skills on one shared library"),
]
