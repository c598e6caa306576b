"""C27: specifications keep what they were given, and malformed ones and wrong calls are refused."""
import math

from hypothesis import strategies as st

from .. import build as B, gen
from ..core import Suite, Violation, sut
from ..gen import pct, pick

INF = math.inf
F = B.ForcedCritOrDH
NONE = "<none>"

ms = st.integers(0, 60000) | st.sampled_from([0, 1, 650, 2500, 30000])
ms_inf = ms | st.just("inf")
flag = st.booleans()
names = st.lists(st.sampled_from(["A", "B", "Wait 1.00s"]), max_size=3).map(lambda x: {"t": x})
rate = st.sampled_from([0, 0.02, 0.1, 0.2, 1])
mult = st.sampled_from([1, 1.05, 1.1, 0.9, 2, 1.25])
forced = st.sampled_from(["DEFAULT", "FORCE_YES", "FORCE_NO"]).map(lambda x: {"f": x})
text = st.sampled_from(["", "A", "Gauge", "B, C"])

# field: (well-formed values, documented default, malformed values)
SECONDS = [2.5, 0.65, "2500", [1], {"t": [1]}]
NO_TUPLE = ["A", "AB", ["A"], 3]
SPECS = {
    "TimingSpec": {
        "base_cast_time": (ms, None, SECONDS + [NONE]), "gcd_base_recast_time": (ms, 2500, SECONDS),
        "animation_lock": (ms, 650, SECONDS + [NONE]), "application_delay": (ms, 0, SECONDS + [NONE]),
        "affected_by_speed_stat": (flag, True, ()), "affected_by_haste_buffs": (flag, True, ())},
    "StatusEffectSpec": {
        "duration": (ms_inf, 0, SECONDS), "max_duration": (ms_inf, "=duration", SECONDS),
        "num_uses": (st.integers(1, 9) | st.just("inf"), INF, ()), "max_num_uses": (st.integers(1, 9) | st.just("inf"), "=num_uses", ()),
        "crit_rate_add": (rate, 0, ()), "dh_rate_add": (rate, 0, ()), "damage_mult": (mult, 1, ()),
        "main_stat_add": (st.integers(0, 500), 0, ()), "main_stat_mult": (mult, 1, ()),
        "auto_attack_delay_reduction": (rate, 0, ()), "haste_time_reduction": (rate, 0, ()),
        "flat_cast_time_reduction": (ms_inf, 0, SECONDS), "flat_gcd_recast_time_reduction": (ms, 0, ()),
        "extends_existing_duration": (flag, True, ()), "expires_status_effects": (names, (), NO_TUPLE + [NONE]),
        "skill_allowlist": (names, None, NO_TUPLE), "guaranteed_crit": (forced, F.DEFAULT, ()),
        "guaranteed_dh": (forced, F.DEFAULT, ()), "add_to_skill_modifier_condition": (flag, False, ()),
        "extend_only": (flag, False, ()), "is_party_effect": (flag, False, ()), "clear_all_status_effects": (flag, False, ())},
    "ChannelingSpec": {"duration": (ms_inf, 0, SECONDS + [NONE]), "skill_allowlist": (names, (), NO_TUPLE + [NONE]),
                       "num_uses": (st.integers(1, 9) | st.just("inf"), INF, ())},
    "ComboSpec": {"combo_actions": (names, (), ()), "combo_group": (st.integers(0, 5), 0, ()),
                  "combo_auto_succeed": (flag, False, ()), "break_all_combos_only": (flag, False, ())},
    "DamageSpec": {
        "potency": (st.integers(1, 2000), None, ()),
        "damage_class": (st.sampled_from(["DIRECT", "PET", "AUTO", "MAGICAL_DOT", "PHYSICAL_DOT"]).map(lambda x: {"c": x}), B.DamageClass.DIRECT, ()),
        "guaranteed_crit": (forced, F.DEFAULT, ()), "guaranteed_dh": (forced, F.DEFAULT, ()),
        "trait_damage_mult_override": (mult, None, ()), "pet_job_mod_override": (st.integers(50, 130), None, ()),
        "pet_scalar": (mult, 1.0, ()), "use_min_potency": (st.integers(1, 500), None, ()), "single_damage_mult": (mult, 1, ())},
    "FollowUp": {"skill": (st.just({"s": "x"}), None, ()),
                 "delay_after_parent_application": (ms, None, [-1, -3000, 2.5, "0", [0], NONE]),
                 "snapshot_buffs_with_parent": (flag, True, ()), "snapshot_debuffs_with_parent": (flag, True, ()),
                 "dot_duration": (ms, None, SECONDS), "primary_target_only": (flag, True, ())},
    "JobResourceSettings": {"max_value": (st.integers(0, 100), 0, ()), "skill_allowlist": (names, (), NO_TUPLE + [NONE]),
                            "expiry_from_last_gain": (ms_inf, INF, ()), "add_number_to_conditional": (flag, True, ())},
    "JobResourceSpec": {"name": (text, "", ()), "change": (st.integers(-100, 100), 0, ()), "duration": (ms_inf, INF, ()),
                        "refreshes_duration_of_last_gained": (flag, False, ()), "clear_all_resources_only": (flag, False, ())},
    "Skill": {
        "name": (text, None, [3, NONE, ["A"], {"t": ["A"]}]),
        "is_GCD": (flag, None, ()), "has_aoe": (flag, False, ()), "job_resources_snapshot": (flag, True, ()),
        "aoe_dropoff": (rate, None, ()),
        "status_effect_denylist": (names, (), NO_TUPLE + [NONE]), "off_class_default_condition": (text, "", ()),
        "ignored_conditions_for_bonus_potency": (names, (), ()),
        "timing_spec": (st.just({"x": "TimingSpec"}), None, ()), "damage_spec": (st.just({"x": "DamageSpec"}), None, ()),
        "buff_spec": (st.just({"x": "StatusEffectSpec"}), None, ()), "debuff_spec": (st.just({"x": "StatusEffectSpec"}), None, ()),
        "channeling_spec": (st.just({"x": "ChannelingSpec"}), None, ()),
        **{k: (st.sampled_from([0, 1, 2]).map(lambda n, c=c: {"t": [{"x": c}] * n}), (),
               [[{"x": c}], {"x": c}, "A", {"t": [{"x": c}, {"x": other}]}, {"t": [{"x": other}]}, {"t": ["A"]}, {"d": {"x": c}},
                {"d": [{"x": c}]}, {"d": "A"}, {"e": {"x": c}}, {"e": [{"x": c}]}, {"e": "A"}])
           for k, c, other in (("follow_up_skills", "FollowUp", "ComboSpec"), ("combo_spec", "ComboSpec", "JobResourceSpec"),
                               ("job_resource_spec", "JobResourceSpec", "FollowUp"))}},
}
REQUIRED = {"TimingSpec": ["base_cast_time"], "FollowUp": ["skill", "delay_after_parent_application"], "Skill": ["name"]}


def real(v):
    if isinstance(v, dict):
        if "t" in v:
            return tuple(real(x) for x in v["t"])
        if "f" in v:
            return F[v["f"]]
        if "c" in v:
            return B.DamageClass[v["c"]]
        if "s" in v:
            return B.Skill(name=v["s"])
        if "d" in v:
            return {"": real(v["d"]), "cA": ()}
        if "e" in v:
            return {"": (), "cA": (), "cA, cB": real(v["e"])}
        kw = {"TimingSpec": {"base_cast_time": 0}, "FollowUp": {"skill": B.Skill(name="x"), "delay_after_parent_application": 0},
              "DamageSpec": {"potency": 100}}.get(v["x"], {})
        return getattr(B, v["x"])(**kw)
    if isinstance(v, list):
        return [real(x) for x in v]
    return INF if v == "inf" else None if v == NONE else v


def run_spec(case):
    cls, table = getattr(B, case["cls"]), SPECS[case["cls"]]
    with sut("making parts"):
        kw = {k: real(v) for k, v in case["kw"].items()}
    shown = ", ".join(f"{k}={v!r}" for k, v in case["kw"].items())
    if case["bad"]:
        try:
            cls(**kw)
        except Exception:  # noqa: BLE001
            return ["malformed"]
        raise Violation(f"{case['cls']}({shown}) was accepted although {case['bad']} is malformed")
    with sut(f"{case['cls']}({shown})"):
        o = cls(**kw)
        want = {}
        for k, (_, default, _bad) in table.items():
            if k in kw:
                want[k] = kw[k]
            elif isinstance(default, str) and default.startswith("="):
                want[k] = want[default[1:]]
            else:
                want[k] = default
        for k, w in want.items():
            g = getattr(o, k)
            if g != w or isinstance(g, bool) != isinstance(w, bool):
                raise Violation(f"{case['cls']}({shown}).{k} is {g!r}, expected {w!r}")
        if o != cls(**kw):
            raise Violation(f"{case['cls']}({shown}) differs from another made alike")
    k = sorted(table)[case["freeze"] % len(table)]
    try:
        setattr(o, k, want[k])
    except Exception:  # noqa: BLE001
        pass
    else:
        raise Violation(f"{case['cls']}.{k} can be assigned to: skills shared by all rotations can be changed")
    return ["omitted fields"] if len(kw) < len(table) else ["all fields"]


@st.composite
def specs(draw):
    cls = pick(draw, list(SPECS))
    table = SPECS[cls]
    req = REQUIRED.get(cls, [])
    share = pick(draw, [15, 50, 90])
    kw = {k: draw(v) for k, (v, _, _) in table.items() if k in req or pct(draw, share)}
    bad = None
    fields = [k for k, (_, _, b) in table.items() if b]
    if fields and pct(draw, 55):
        bad = pick(draw, fields)
        kw[bad] = pick(draw, list(table[bad][2]))
    return {"cls": cls, "kw": kw, "bad": bad, "freeze": draw(st.integers(0, 30))}


def every_malformed(tier):
    fill = {"base_cast_time": 0, "skill": {"s": "x"}, "delay_after_parent_application": 0, "name": "A"}
    out = []
    for cls, table in SPECS.items():
        req = {k: fill[k] for k in REQUIRED.get(cls, [])}
        out.append({"cls": cls, "kw": req, "bad": None, "freeze": 0})
        for i, (k, (_, _, bad)) in enumerate(table.items()):
            out.append({"cls": cls, "kw": req, "bad": None, "freeze": i})
            out += [{"cls": cls, "kw": {**req, k: v}, "bad": k, "freeze": 0} for v in bad]
    return out


# ---------------------------------------------------------------------------------------------
# refused calls leave everything as it was

def refuse(what, f, kinds=Exception):
    try:
        f()
    except kinds:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: raised {type(e).__name__}: {e}") from None
    raise Violation(f"{what}: was accepted")


def wrong_call(rb, lib, op, skill, job, t):
    k = op[0]
    if k == "targets":
        bad = {"tuple": ("A", "B"), "list": ["A"], "number": 3}[op[1]]
        if op[2]:
            refuse(f"add(..., targets={bad!r})", lambda: rb.add(t, skill, job_class=job, targets=bad))
        else:
            refuse(f"add_next(..., targets={bad!r})", lambda: rb.add_next(skill, job_class=job, targets=bad))
    elif k == "skill":
        name = {"case": skill.lower() + "x", "space": skill + " ", "none": "No such skill", "empty": ""}[op[1]]
        if op[2]:
            refuse(f"add({t}, {name!r})", lambda: rb.add(t, name, job_class=job), KeyError)
        else:
            refuse(f"add_next({name!r})", lambda: rb.add_next(name, job_class=job), KeyError)
    elif k == "job":
        if op[2]:
            refuse("add(..., job_class='XYZ')", lambda: rb.add(t, skill, job_class=op[1]), KeyError)
        else:
            refuse("add_next(..., job_class='XYZ')", lambda: rb.add_next(skill, job_class=op[1]), KeyError)
    elif k == "target-of-builder":
        refuse("RotationBuilder(default_target=('A',))",
               lambda: B.RotationBuilder(rb.get_stats(), lib, default_target=("A",)))
    elif k == "prio":
        lib.set_current_job_class(rb.get_stats().job_class)
        bad = op[1] if isinstance(op[1], str) else list(op[1])
        refuse(f"set_status_effect_priority({bad!r})", lambda: lib.set_status_effect_priority(bad))
    elif k == "brk":
        lib.set_current_job_class(rb.get_stats().job_class)
        refuse(f"add_combo_breaker(0, {op[1]!r})", lambda: lib.add_combo_breaker(0, op[1]))
    elif k == "dup":
        lib.set_current_job_class(job)
        refuse(f"add_skill of a second {skill}", lambda: lib.add_skill(B.Skill(name=skill)))


def outcome(rb, stats, lib):
    timing = rb.get_skill_timing()
    events = sorted(B.q_key(e) for e in timing.get_q())
    presses = [B.bp_key(p) for p in rb.get_button_press_timing()]
    hits = sorted(B.inst_key(x) for x in B.DamageBuilder(stats, lib).get_damage_instances(timing))
    return {"events": events, "presses": presses, "hits": hits}


def run_calls(case):
    if not case["rot"]:
        return None
    res = []
    for wrong in (False, True):
        with sut("setting up"):
            stats = B.r_stats(case["stats"])
            lib = B.r_lib(case["lib"], case["stats"]["version"], case["stats"]["level"])
            rb = B.r_rotation(stats, lib, case["opts"], [])
        todo = list(case["wrong"])
        for i in range(len(case["rot"]) + 1):
            if wrong:
                for at, which, op in todo:
                    if at == i:
                        p = case["rot"][which % len(case["rot"])]
                        with sut("a wrong call"):
                            wrong_call(rb, lib, op, p["skill"], p.get("job") or case["stats"]["job"], 1.5)
            if i < len(case["rot"]):
                with sut("adding a skill"):
                    B.r_press(rb, case["rot"][i])
        with sut("building"):
            res.append(outcome(rb, stats, lib))
    for k in res[0]:
        if res[0][k] != res[1][k]:
            a = [x for x in res[1][k] if x not in res[0][k]][:1]
            b = [x for x in res[0][k] if x not in res[1][k]][:1]
            raise Violation(f"after refused calls {case['wrong']} the {k} differ: {len(res[1][k])} instead of {len(res[0][k])}, "
                            f"e.g. {a} instead of {b}")
    n = sum(1 for at, _, _ in case["wrong"] if at <= len(case["rot"]))
    return ["refused calls"] if n and res[0]["hits"] else []


@st.composite
def calls(draw):
    case = draw(gen.scenarios(presses=(1, 5), skills=(1, 4), downtime=30, autos=25, dot=20, fu=20, target=25, multi=25, timed=50,
                              offclass=10))
    op = st.one_of(
        st.tuples(st.just("targets"), st.sampled_from(["tuple", "list", "number"]), flag),
        st.tuples(st.just("skill"), st.sampled_from(["case", "space", "none", "empty"]), flag),
        st.tuples(st.just("job"), st.sampled_from(["XYZ", "", "war"]), flag),
        st.just(("target-of-builder",)),
        st.tuples(st.just("prio"), st.sampled_from(["a", ["a", "b"]])),
        st.tuples(st.just("brk"), st.sampled_from(["0", [1], 1])),
        st.just(("dup",)),
    ).map(list)
    case["wrong"] = draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5), op).map(list), min_size=1, max_size=4))
    return case


# ---------------------------------------------------------------------------------------------
# rotations that mean nothing: refused, never a wrong number

def damage(stats, lib, rb):
    sim = B.DamageSimulator(stats, B.DamageBuilder(stats, lib).get_damage_instances(rb.get_skill_timing()), 2)
    return sim.get_per_skill_damage()


def run_meaningless(case):
    k, job = case["kind"], case["stats"]["job"]
    lb = case["lb"]
    skills = [{"name": "A", "timing": {"v": {}}, "dmg": {"v": {"potency": 100}}}]
    mod = None
    if k == "strength":
        skills.append({"name": "Q", "timing": {"v": {}}, "dmg": {"v": {"potency": 90, "cls": "AUTO"}}})
    elif k == "resource":
        skills.append({"name": "Q", "timing": {"v": {}}, "dmg": {"v": {"potency": 90}}, "res": {"v": [{"name": "Nowhere", "change": 1}]}})
    elif k == "lb":
        skills.append({"name": lb, "timing": {"v": {}}, "dmg": {"v": {"potency": 90}}})
        mod = {"cond": case["cond"]} if case["cond"] else None
    with sut("setting up"):
        stats = B.r_stats({**case["stats"], "strength": None if case["wrong"] else 400})
        res = {"Gauge": {"cap": 100}} if k == "resource" else {}
        if k == "resource" and not case["wrong"]:
            res["Nowhere"] = {"cap": 5}
        lib = B.r_lib({"jobs": {job: {"skills": skills, "res": res}}}, case["stats"]["version"], case["stats"]["level"])
        rb = B.r_rotation(stats, lib, {}, [])
        for i in range(case["n"]):
            rb.add(3.0 * i, "A")
        if k == "lb" and not case["wrong"]:
            mod = {"cond": ", ".join(x for x in (case["cond"], "Exact Damage: 1000") if x)}
        rb.add(3.0 * case["at"] + 1, lb if k == "lb" else "Q", skill_modifier=B.r_modifier(mod))

    def go():
        if k == "lb":
            from ama_xiv_combat_sim.kill_time_estimator.kill_time_estimator import KillTimeEstimator
            e = KillTimeEstimator(10 ** 6)
            e.add_rotation(rb)
            e.estimate_kill_time(num_samples=3, verbose=False)
        else:
            damage(stats, lib, rb)

    if not case["wrong"]:
        with sut({"strength": "autos of a healer with strength", "resource": "a resource of the job", "lb": "a stated limit break"}[k]):
            go()
        return []
    with sut("a meaningless rotation"):
        refuse({"strength": f"autos of {job} without strength", "resource": "a resource which the job does not have",
                "lb": f"kill time of {lb} whose damage is not stated ({case['cond']!r})"}[k], go)
    return [k]


@st.composite
def meaningless(draw):
    k = pick(draw, ["strength", "resource", "lb"])
    P = {**gen.DEFAULT}
    jobs = list(gen.CASTERS) + list(gen.HEALERS) if k == "strength" else None
    s = gen.gen_stats(draw, P, job=pick(draw, jobs) if jobs else None)
    n = draw(st.integers(0, 4))
    return {"kind": k, "stats": s, "n": n, "at": draw(st.integers(0, 5)), "wrong": pct(draw, 70),
            "lb": pick(draw, ["LB 1", "LB 2", "LB 3"]),
            "cond": pick(draw, ["", "cA", "Damage: 1000", "Mean Damage", "Exact Damage: ", "1000", "cA, cB"])}


SUITES = [
    Suite("specs", specs, run_spec, 6000, 500000, "a specification with any subset of fields, possibly one malformed; non-trivial: "
          "all of them; every malformed value of every field alone is enumerated", every_malformed),
    Suite("calls", calls, run_calls, 600, 60000, "a rotation built with and without refused calls in between; non-trivial: calls "
          "were refused and something hit"),
    Suite("meaningless", meaningless, run_meaningless, 800, 60000, "autos without strength, unknown resources, limit breaks without "
          "damage; non-trivial: must be refused"),
]
