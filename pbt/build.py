"""Turns JSON descriptions into objects of /repo and of the model, and compares their results.

A case ("scenario"):
 {"stats": {...}, "lib": {"jobs": {JOB: {"skills": [...], "prio": [...], "res": {...}, "brk": [...]}}},
  "opts": {...}, "rot": [press, ...]}
"""
import contextlib
import functools
import gc
import io
import json
import math
import random
from types import SimpleNamespace as NS

from . import core, model as M
from .core import Skip, Violation, sut
from .gamedata import WEAPON_DELAY, trait_damage, trait_haste

with contextlib.redirect_stdout(io.StringIO()):
    from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
    from ama_xiv_combat_sim.simulator.calcs.forced_crit_or_dh import ForcedCritOrDH
    from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator
    from ama_xiv_combat_sim.simulator.skills.create_skill_library import create_skill_library
    from ama_xiv_combat_sim.simulator.skills.skill import Skill
    from ama_xiv_combat_sim.simulator.skills.skill_library import SkillLibrary
    from ama_xiv_combat_sim.simulator.skills.skill_modifier import SkillModifier
    from ama_xiv_combat_sim.simulator.specs.channeling_spec import ChannelingSpec
    from ama_xiv_combat_sim.simulator.specs.combo_spec import ComboSpec
    from ama_xiv_combat_sim.simulator.specs.damage_spec import DamageSpec
    from ama_xiv_combat_sim.simulator.specs.follow_up import FollowUp
    from ama_xiv_combat_sim.simulator.specs.job_resource_settings import JobResourceSettings
    from ama_xiv_combat_sim.simulator.specs.job_resource_spec import JobResourceSpec
    from ama_xiv_combat_sim.simulator.specs.status_effect_spec import StatusEffectSpec
    from ama_xiv_combat_sim.simulator.specs.timing_spec import TimingSpec
    from ama_xiv_combat_sim.simulator.stats import Stats
    from ama_xiv_combat_sim.simulator.timeline_builders.damage_builder import DamageBuilder
    from ama_xiv_combat_sim.simulator.timeline_builders.rotation_builder import RotationBuilder

INF = math.inf


def num(x):
    return INF if x == "inf" else x


def forced(x):
    return ForcedCritOrDH[x]


# ------------------------------------------------------------------------------------------
# JSON -> /repo

_STATUS = {
    "duration": "duration", "max_duration": "max_duration", "uses": "num_uses", "max_uses": "max_num_uses",
    "crit": "crit_rate_add", "dh": "dh_rate_add", "mult": "damage_mult", "add": "main_stat_add",
    "smult": "main_stat_mult", "auto": "auto_attack_delay_reduction", "haste": "haste_time_reduction",
    "fcast": "flat_cast_time_reduction", "fgcd": "flat_gcd_recast_time_reduction",
    "extends": "extends_existing_duration", "cond": "add_to_skill_modifier_condition",
    "extend_only": "extend_only", "party": "is_party_effect", "clear": "clear_all_status_effects",
}
_DMG = {"potency": "potency", "trait": "trait_damage_mult_override", "pet_mod": "pet_job_mod_override",
        "pet_scalar": "pet_scalar", "min_potency": "use_min_potency", "single": "single_damage_mult"}
_TIMING = {"cast": "base_cast_time", "recast": "gcd_base_recast_time", "lock": "animation_lock",
           "delay": "application_delay", "spd": "affected_by_speed_stat", "haste": "affected_by_haste_buffs"}


def r_status(d):
    kw = {_STATUS[k]: num(v) for k, v in d.items() if k in _STATUS}
    for k, n in (("gcrit", "guaranteed_crit"), ("gdh", "guaranteed_dh")):
        if k in d:
            kw[n] = forced(d[k])
    if "allow" in d:
        kw["skill_allowlist"] = tuple(d["allow"])
    if "expires" in d:
        kw["expires_status_effects"] = tuple(d["expires"])
    return StatusEffectSpec(**kw)


def r_dmg(d):
    kw = {_DMG[k]: v for k, v in d.items() if k in _DMG}
    if "cls" in d:
        kw["damage_class"] = DamageClass[d["cls"]]
    if "crit" in d:
        kw["guaranteed_crit"] = forced(d["crit"])
    if "dh" in d:
        kw["guaranteed_dh"] = forced(d["dh"])
    return DamageSpec(**kw)


def r_timing(d):
    return TimingSpec(**{"base_cast_time": 0, **{_TIMING[k]: v for k, v in d.items()}})


def r_chan(d):
    return ChannelingSpec(duration=num(d["duration"]), skill_allowlist=tuple(d.get("allow", ())),
                          num_uses=num(d.get("uses", "inf")))


def r_res(d):
    if d.get("clear"):
        return JobResourceSpec(clear_all_resources_only=True)
    return JobResourceSpec(name=d["name"], change=d["change"], duration=num(d.get("duration", "inf")),
                           refreshes_duration_of_last_gained=d.get("refresh", False))


def r_combo(d):
    return ComboSpec(combo_actions=tuple(d.get("actions", ())), combo_group=d.get("group", 0),
                     combo_auto_succeed=d.get("auto", False), break_all_combos_only=d.get("break_all", False))


def r_fu(d):
    return FollowUp(skill=r_skill(d["skill"]), delay_after_parent_application=d.get("delay", 0),
                    snapshot_buffs_with_parent=d.get("sb", True), snapshot_debuffs_with_parent=d.get("sd", True),
                    dot_duration=d.get("dot"), primary_target_only=d.get("pto", True))


def _tup(f):
    return lambda xs: tuple(f(x) for x in xs)


def r_variants(v, f, absent):
    """v: None | {"v": spec} | [[condition, spec], ...]"""
    if v is None:
        return absent
    if isinstance(v, dict):
        return f(v["v"])
    return {c: (None if s is None else f(s)) for c, s in v}


def r_skill(d):
    return Skill(
        name=d["name"], is_GCD=d.get("gcd", False),
        damage_spec=r_variants(d.get("dmg"), r_dmg, None),
        timing_spec=r_variants(d.get("timing"), r_timing, None),
        buff_spec=r_variants(d.get("buff"), r_status, None),
        debuff_spec=r_variants(d.get("debuff"), r_status, None),
        channeling_spec=r_variants(d.get("chan"), r_chan, None),
        job_resource_spec=r_variants(d.get("res"), _tup(r_res), ()),
        combo_spec=r_variants(d.get("combo"), _tup(r_combo), ()),
        follow_up_skills=r_variants(d.get("fu"), _tup(r_fu), ()),
        status_effect_denylist=tuple(d.get("deny", ())),
        ignored_conditions_for_bonus_potency=tuple(d.get("ign", ())),
        job_resources_snapshot=d.get("res_snap", True),
        aoe_dropoff=d.get("dropoff"), has_aoe=d.get("dropoff") is not None,
        off_class_default_condition=d.get("off_class", ""),
    )


def r_lib(lib, version, level):
    out = SkillLibrary(version=version, level=level)
    for job, j in lib["jobs"].items():
        out.set_current_job_class(job)
        out.set_status_effect_priority(tuple(j.get("prio", ())))
        for n, s in j.get("res", {}).items():
            out.add_resource(n, JobResourceSettings(
                max_value=s["cap"], skill_allowlist=tuple(s.get("allow", ())),
                expiry_from_last_gain=num(s.get("expiry", "inf")), add_number_to_conditional=s.get("number", True)))
        for g, by in j.get("brk", ()):
            out.add_combo_breaker(g, tuple(by))
        for s in j["skills"]:
            out.add_skill(r_skill(s))
    return out


_STATS = dict(wd="wd", weapon_delay="weapon_delay", main="main_stat", det="det_stat", dh="dh_stat", crit="crit_stat",
              speed="speed_stat", job="job_class", version="version", level="level", ten="tenacity",
              roles="num_roles_in_party", strength="healer_or_caster_strength")


def r_stats(s):
    return Stats(**{_STATS[k]: v for k, v in s.items()})


def r_modifier(m):
    if m is None:
        return None
    return SkillModifier(
        with_condition=m.get("cond", ""), guaranteed_crit=forced(m.get("crit", "DEFAULT")),
        guaranteed_dh=forced(m.get("dh", "DEFAULT")), force_combo=m.get("force_combo", False),
        ignore_cast_times=m.get("no_cast", False), ignore_application_delay=m.get("no_delay", False),
        bonus_percent=m.get("bonus"))


def r_window(w):
    return tuple(w[:2]) + ((DamageClass[w[2]],) if len(w) > 2 and w[2] else ())


def r_downtime(d):
    if isinstance(d, dict):
        return {k: tuple(r_window(w) for w in ws) for k, ws in d.items()}
    return tuple(r_window(w) for w in d)


def r_opts(o):
    kw = {}
    if o.get("server_tick") is not None:
        kw["snap_dots_to_server_tick_starting_at"] = o["server_tick"]
    if "autos" in o:
        kw["enable_autos"] = o["autos"]
    if "trailing" in o:
        kw["ignore_trailing_dots"] = o["trailing"]
    if o.get("fight_start") is not None:
        kw["fight_start_time"] = o["fight_start"]
    if o.get("downtime"):
        kw["downtime_windows"] = r_downtime(o["downtime"])
    if "target" in o:
        kw["default_target"] = o["target"]
    return kw


def r_press(rb, p):
    kw = dict(skill_modifier=r_modifier(p.get("mod")), job_class=p.get("job"), targets=p.get("targets"))
    if p.get("t") is None:
        if p.get("n", 1) != 1:
            kw["num_times"] = p["n"]
        rb.add_next(p["skill"], **kw)
    else:
        rb.add(p["t"], p["skill"], **kw)


def r_rotation(stats, lib, opts, rot):
    rb = RotationBuilder(stats, lib, **r_opts(opts))
    for p in rot:
        r_press(rb, p)
    return rb


# ------------------------------------------------------------------------------------------
# JSON -> model


def m_status(d):
    kw = {k: num(v) for k, v in d.items()}
    kw.setdefault("max_duration", kw.get("duration", 0))
    kw.setdefault("max_uses", kw.get("uses", INF))
    for k in ("allow", "expires"):
        if k in kw:
            kw[k] = tuple(kw[k])
    return M.Status(**kw)


def m_dmg(d):
    return M.Dmg(**d)


def m_timing(d):
    return M.Timing(**d)


def m_chan(d):
    return M.Channel(num(d["duration"]), tuple(d.get("allow", ())), num(d.get("uses", "inf")))


def m_res(d):
    return M.Res(**{k: num(v) for k, v in d.items()})


def m_combo(d):
    return M.Combo(actions=tuple(d.get("actions", ())), group=d.get("group", 0), auto=d.get("auto", False),
                   break_all=d.get("break_all", False))


def m_fu(d):
    return M.FollowUp(m_skill(d["skill"]), d.get("delay", 0), d.get("sb", True), d.get("sd", True), d.get("dot"),
                      d.get("pto", True), ident=json.dumps(d, sort_keys=True))


def m_variants(v, f):
    if v is None:
        return []
    if isinstance(v, dict):
        return [(frozenset(), f(v["v"]))]
    out = {}
    for c, s in v:
        out[M.parse_conds(c)] = None if s is None else f(s)
    return list(out.items())


def dropped(variants, dropoff):
    out = list(variants)
    for k, d in variants:
        for n in range(2, 11):
            out.append((k | {f"Target {n}"}, M.replace(d, potency=(1 - dropoff) * d.potency)))
    return out


def m_skill(d):
    dmg = m_variants(d.get("dmg"), m_dmg)
    if d.get("dropoff") is not None and isinstance(d["dmg"], list):
        dmg = dropped(dmg, d["dropoff"])
    return M.Skill(
        name=d["name"], gcd=d.get("gcd", False), dmg=dmg, timing=m_variants(d.get("timing"), m_timing),
        buff=m_variants(d.get("buff"), m_status), debuff=m_variants(d.get("debuff"), m_status),
        chan=m_variants(d.get("chan"), m_chan),
        res=m_variants(d.get("res"), _tup(m_res)), combo=m_variants(d.get("combo"), _tup(m_combo)),
        fu=m_variants(d.get("fu"), _tup(m_fu)), deny=tuple(d.get("deny", ())), ign=tuple(d.get("ign", ())),
        res_snap=d.get("res_snap", True), off_class=d.get("off_class", ""))


def m_lib(lib):
    jobs = lib["jobs"]
    return M.Lib(
        skills={j: {s["name"]: m_skill(s) for s in v["skills"]} for j, v in jobs.items()},
        prio={j: tuple(v.get("prio", ())) for j, v in jobs.items()},
        resources={j: {n: M.ResSettings(s["cap"], tuple(s.get("allow", ())), num(s.get("expiry", "inf")),
                                        s.get("number", True)) for n, s in v.get("res", {}).items()}
                   for j, v in jobs.items()},
        breakers={j: {g: tuple(by) for g, by in v.get("brk", ())} for j, v in jobs.items()})


def m_stats(s):
    d = dict(s)
    d.setdefault("level", 90)
    d.setdefault("roles", 5)
    if d.get("weapon_delay") is None:
        d["weapon_delay"] = WEAPON_DELAY[d["job"]]
    h = trait_haste(d["job"], d["version"], d["level"])
    return NS(trait_haste=h, trait_auto=h, trait=trait_damage(d["job"]), **d)


def m_mod(m):
    if m is None:
        return None
    return M.Mod(M.parse_conds(m.get("cond", "")), m.get("crit", "DEFAULT"), m.get("dh", "DEFAULT"),
                 m.get("force_combo", False), m.get("no_cast", False), m.get("no_delay", False), m.get("bonus"))


def m_targets(t):
    return None if t is None else tuple(x.strip() for x in t.split(","))


def m_rot(rot):
    out = []
    for p in rot:
        q = M.Press(p["skill"], p.get("job"), m_mod(p.get("mod")), m_targets(p.get("targets")), p.get("t"))
        out += [q] * (p.get("n", 1) if p.get("t") is None else 1)
    return out


def m_opts(o):
    return M.Options(server_tick=o.get("server_tick"), autos=o.get("autos", False),
                     ignore_trailing=o.get("trailing", False), fight_start=o.get("fight_start"),
                     downtime=o.get("downtime", ()), default_target=o.get("target", M.DEFAULT_TARGET))


def order_matters(lib, stats, events, tries=100):
    """Whether the order of simultaneous events of one skill, which is unspecified, has an effect."""
    def key(h):
        return hit_key(h) + (h.mod.crit, h.mod.dh)

    ref = sorted(map(key, M.build_hits(lib, stats, events)))
    return any(sorted(map(key, M.build_hits(lib, stats, events, random.Random(i)))) != ref
               for i in range(tries))


# ------------------------------------------------------------------------------------------
# /repo objects -> model (for the real skill libraries)


def from_status(s):
    return M.Status(s.duration, s.max_duration, s.num_uses, s.max_num_uses, s.crit_rate_add, s.dh_rate_add,
                    s.damage_mult, s.main_stat_add, s.main_stat_mult, s.auto_attack_delay_reduction,
                    s.haste_time_reduction, s.flat_cast_time_reduction, s.flat_gcd_recast_time_reduction,
                    s.extends_existing_duration, tuple(s.expires_status_effects),
                    None if s.skill_allowlist is None else tuple(s.skill_allowlist), s.guaranteed_crit.name,
                    s.guaranteed_dh.name, s.add_to_skill_modifier_condition, s.extend_only, s.is_party_effect,
                    s.clear_all_status_effects)


def from_dmg(s):
    return M.Dmg(s.potency, s.damage_class.name, s.guaranteed_crit.name, s.guaranteed_dh.name,
                 s.trait_damage_mult_override, s.pet_job_mod_override, s.pet_scalar, s.use_min_potency,
                 s.single_damage_mult)


def from_timing(s):
    return M.Timing(s.base_cast_time, s.gcd_base_recast_time, s.animation_lock, s.application_delay,
                    s.affected_by_speed_stat, s.affected_by_haste_buffs)


def from_chan(s):
    return M.Channel(s.duration, tuple(s.skill_allowlist), s.num_uses)


def from_res(s):
    return M.Res(s.name, s.change, s.duration, s.refreshes_duration_of_last_gained, s.clear_all_resources_only)


def from_combo(s):
    return M.Combo(tuple(s.combo_actions), s.combo_group, s.combo_auto_succeed, s.break_all_combos_only)


def from_variants(v, f):
    if v is None or v == ():
        return []
    if isinstance(v, dict):
        return [(frozenset(k) - {""}, None if s is None else f(s)) for k, s in v.items()]
    return [(frozenset(), f(v))]


WAITS = ("Wait 0.00s", "Wait 0.50s", "Wait 1.00s", "Wait 5.00s")


class Skills(dict):
    """The thousand waits of each job are converted when they are asked for."""

    def __init__(self, d, make):
        super().__init__(d)
        self.make = make

    def __missing__(self, name):
        self[name] = self.make(name)
        return self[name]


class FromLib:
    """A real skill library as model data. `spoil` may alter it (used for known findings)."""

    def __init__(self, lib):
        self.fus = []
        self.skills, self.prio, self.resources, self.breakers = {}, {}, {}, {}
        for job in lib.get_jobs():
            self.prio[job] = tuple(lib.get_status_effect_priority(job))
            self.resources[job] = {
                n: M.ResSettings(s.max_value, tuple(s.skill_allowlist), s.expiry_from_last_gain,
                                 s.add_number_to_conditional)
                for n, s in lib.get_all_resource_settings(job).items()}
            self.breakers[job] = {g: tuple(b) for g, b in lib.get_all_combo_breakers(job).items()}
            self.skills[job] = Skills(
                {n: self.skill(lib.get_skill(n, job)) for n in skill_names(lib, job)
                 if not n.startswith("Wait ") or n in WAITS},
                lambda n, job=job: self.skill(lib.get_skill(n, job)))

    def fu(self, f):
        for i, g in enumerate(self.fus):
            if g == f:
                break
        else:
            i = len(self.fus)
            self.fus.append(f)
        return M.FollowUp(self.skill(f.skill), f.delay_after_parent_application, f.snapshot_buffs_with_parent,
                          f.snapshot_debuffs_with_parent, f.dot_duration, f.primary_target_only, ident=i)

    def skill(self, s):
        return M.Skill(
            s.name, bool(s.is_GCD), from_variants(s.damage_spec, from_dmg), from_variants(s.timing_spec, from_timing),
            from_variants(s.buff_spec, from_status), from_variants(s.debuff_spec, from_status),
            from_variants(s.channeling_spec, from_chan), from_variants(s.job_resource_spec, _tup(from_res)),
            from_variants(s.combo_spec, _tup(from_combo)), from_variants(s.follow_up_skills, _tup(self.fu)),
            tuple(s.status_effect_denylist), tuple(s.ignored_conditions_for_bonus_potency),
            s.job_resources_snapshot, s.off_class_default_condition)


@contextlib.contextmanager
def big_objects():
    """Keeps the garbage collector away from the large, lasting libraries."""
    gc.disable()
    try:
        yield
    finally:
        gc.freeze()
        gc.enable()


def skill_names(lib, job):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        lib.print_skill_names(job)
    return [x for x in buf.getvalue().split("\n") if x]


@functools.lru_cache(maxsize=None)
def real_lib(version, level):
    with big_objects(), sut(f"creating the skill library {version}/{level}"):
        return create_skill_library(version=version, level=level)


@functools.lru_cache(maxsize=None)
def real_model(version, level):
    lib = real_lib(version, level)
    with big_objects():
        return FromLib(lib)


# ------------------------------------------------------------------------------------------
# results in comparable form


def r(x):
    """Times and rates rounded for comparison."""
    if x is None or isinstance(x, str):
        return x
    x = float(x)
    if math.isinf(x):
        return x
    return round(x, 6) + 0.0


def sig(x):
    x = float(x)
    return x if x == 0 or math.isinf(x) else float(f"{x:.9g}")


def eff_key(e):
    """Effect of /repo (StatusEffects)."""
    return (sig(e.crit_rate_add), sig(e.dh_rate_add), sig(e.damage_mult), sig(e.main_stat_add), sig(e.main_stat_mult),
            sig(e.auto_attack_delay_mult), sig(e.haste_time_mult), sig(e.flat_cast_time_reduction),
            sig(e.flat_gcd_recast_time_reduction), e.guaranteed_crit.name, e.guaranteed_dh.name,
            tuple(sorted(e.status_effects)))


def eff_key_m(e):
    return (sig(e.crit), sig(e.dh), sig(e.mult), sig(e.add), sig(e.smult), sig(e.auto), sig(math.prod(e.haste)),
            sig(e.fcast), sig(e.fgcd), e.gcrit, e.gdh, tuple(sorted(e.names)))


def hit_key(h):
    return (r(h.t), h.skill.name, h.target, tuple(sorted(h.mod.conds)), eff_key_m(h.buffs), eff_key_m(h.debuffs))


def inst_key(x):
    return (r(x[0]), x[1].name, x[5], tuple(sorted(x[2].with_condition)), eff_key(x[3][0]), eff_key(x[3][1]))


def event_key(e):
    return (r(e.snap), r(e.app), e.skill.name, tuple(e.targets), tuple(sorted(e.mod.conds)))


def q_key(e):
    p, s = e.event_times.primary, e.event_times.secondary
    return (r(p), r(p if s is None else s), e.skill.name, tuple(e.targets),
            tuple(sorted(e.skill_modifier.with_condition)))


def press_key(p):
    return (r(p[0]), p[1], p[2], tuple(sorted(p[3])))


def bp_key(p):
    return (r(p[0]), p[1], p[2], tuple(sorted(M.parse_conds(p[3]))))


FIELDS = ("time", "skill", "target", "conditions", "buffs", "debuffs")
EVENT_FIELDS = ("snapshot", "application", "skill", "targets", "conditions")


def diff(what, got, want, fields=None):
    """Multiset comparison; raises Violation naming the first differences."""
    from collections import Counter
    a, b = Counter(got), Counter(want)
    if a == b:
        return
    extra = sorted((a - b).elements(), key=repr)
    missing = sorted((b - a).elements(), key=repr)
    raise Violation(f"{what}: {len(got)} found, {len(want)} expected"
                    + (f" (fields: {', '.join(fields)})" if fields else "")
                    + f"; unexpected {extra[:2]}; missing {missing[:2]}")


class Run:
    """One scenario, built with /repo and with the model."""

    def __init__(self, case, real=None):
        self.case = case
        st, opts = case["stats"], case.get("opts", {})
        self.ms = m_stats(st)
        self.mo = m_opts(opts)
        mrot = m_rot(case["rot"])
        if real:
            self.mlib = real_model(st["version"], st["level"])
        else:
            self.mlib = m_lib(case["lib"])
        self.tl = M.Timeline(self.mlib, self.ms, mrot, self.mo)
        self.ties = []
        self.hits = M.build_hits(self.mlib, self.ms, self.tl.events, note=self.ties)
        with sut("building the rotation"):
            self.lib = real_lib(st["version"], st["level"]) if real else r_lib(case["lib"], st["version"], st["level"])
            self.stats = r_stats(st)
            self.rb = r_rotation(self.stats, self.lib, opts, case["rot"])
            self.timing = self.rb.get_skill_timing()
            self.q = self.timing.get_q()
            self.presses = self.rb.get_button_press_timing()
            self.inst = DamageBuilder(self.stats, self.lib).get_damage_instances(self.timing)

    def skip_if_ambiguous(self):
        if self.ties and order_matters(self.mlib, self.ms, self.tl.events):
            raise Skip("order of simultaneous events matters")

    def check_presses(self, conds=True):
        n = None if conds else 3
        diff("presses", [bp_key(p)[:n] for p in self.presses], [press_key(p)[:n] for p in self.tl.presses])
        ts = [p[0] for p in self.presses]
        if ts != sorted(ts):
            raise Violation(f"presses are not in time order: {self.presses}")

    def check_events(self, what="events", pick=lambda e: True, rpick=None, n=4):
        """pick/rpick choose the events to compare on both sides; n=5 compares conditions, too."""
        got = [q_key(e)[:n] for e in self.q if rpick is None or rpick(e)]
        want = [event_key(e)[:n] for e in self.tl.events if pick(e)]
        diff(what, got, want, EVENT_FIELDS[:n])

    def check_hits(self, keep=(0, 1, 2, 3, 4, 5), what="hits"):
        got = [tuple(inst_key(x)[i] for i in keep) for x in self.inst]
        want = [tuple(hit_key(h)[i] for i in keep) for h in self.hits]
        try:
            diff(what, got, want, [FIELDS[i] for i in keep])
        except Violation:
            self.skip_if_ambiguous()
            raise
        ts = [x[0] for x in self.inst]
        if ts != sorted(ts):
            raise Violation(f"hits are not in time order: {ts}")


__all__ = ["core"]
