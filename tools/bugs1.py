RB = "simulator/timeline_builders/rotation_builder.py"
DB = "simulator/timeline_builders/damage_builder.py"
SE = "simulator/trackers/status_effect_tracker.py"
CD = "simulator/calcs/compute_damage_utils.py"
DT = "simulator/trackers/damage_tracker.py"
BUGS = [
dict(id="c01-tank-ap-level90", property="C01", needs="a tank of level 90 in a patch after the level cap was raised",
  breaks="the attack power multiplier of level 90 tanks uses the constant of level 100",
  edits=[("simulator/game_data/game_consts.py", "        return GameConsts.__FAP_TANK_CONSTS[level]", "        # the constants were changed for everybody by the expansion\n        return GameConsts.__FAP_TANK_CONSTS[level if version < \"7.0\" else 100]")],
  demo="""
expect(float(StatFns.fAP(2000, True, "7.05", 90)), float(156 * (2000 - 390) // 390 + 100))
expect(float(StatFns.fAP(2000, True, "6.55", 90)), float(156 * (2000 - 390) // 390 + 100))
"""),
dict(id="c02-magical-dot-potion-party-bonus", property="C02", needs="a magical damage over time under an effect that adds main stat (potion)",
  breaks="the party bonus is not applied to main stat added by effects for magical dots",
  edits=[(CD, """        main_stat += status_effects[0].main_stat_add + status_effects[1].main_stat_add
        main_stat = np.floor(main_stat * (1 + 0.01 * stats.num_roles_in_party))

        damage_spec = skill.get_damage_spec(skill_modifier)

        potency = damage_spec.potency
        spd = StatFns.fSpd(stats.speed_stat, stats.version, stats.level)
        ap = StatFns.fAP(main_stat, is_tank, stats.version, stats.level)
        wd = StatFns.fWD(
            stats.wd, stats.processed_stats.job_mod, stats.version, stats.level
        )

        forced_dh = ComputeDamageUtils.__get_forced_dh_status(
            damage_spec, skill_modifier, status_effects
        )
        det_dh = (
            StatFns.fDetDH(stats.det_stat, stats.dh_stat, stats.version, stats.level)
            if forced_dh
            else stats.processed_stats.det_bonus
        )

        # INVESTIGATE ROUNDING- THIS SHOULD FOLLOW THE SAME TRUNCATIONS AS THE OTHER DAMAGE FORMULAS, PROBABLY
        base_damage = np.floor(np.floor(potency * wd) / 100)
""", """        main_stat = np.floor(main_stat * (1 + 0.01 * stats.num_roles_in_party))
        main_stat += status_effects[0].main_stat_add + status_effects[1].main_stat_add

        damage_spec = skill.get_damage_spec(skill_modifier)

        potency = damage_spec.potency
        spd = StatFns.fSpd(stats.speed_stat, stats.version, stats.level)
        ap = StatFns.fAP(main_stat, is_tank, stats.version, stats.level)
        wd = StatFns.fWD(
            stats.wd, stats.processed_stats.job_mod, stats.version, stats.level
        )

        forced_dh = ComputeDamageUtils.__get_forced_dh_status(
            damage_spec, skill_modifier, status_effects
        )
        det_dh = (
            StatFns.fDetDH(stats.det_stat, stats.dh_stat, stats.version, stats.level)
            if forced_dh
            else stats.processed_stats.det_bonus
        )

        # INVESTIGATE ROUNDING- THIS SHOULD FOLLOW THE SAME TRUNCATIONS AS THE OTHER DAMAGE FORMULAS, PROBABLY
        base_damage = np.floor(np.floor(potency * wd) / 100)
""")],
  demo="""
sk = Skill(name="d", damage_spec=DamageSpec(potency=70, damage_class=DamageClass.MAGICAL_DOT))
st = stats_of("SCH", main_stat=4000)
a = ComputeDamageUtils.get_base_damage(sk, SkillModifier(), st, (StatusEffects(main_stat_add=400), StatusEffects()))
b = ComputeDamageUtils.get_base_damage(sk, SkillModifier(), stats_of("SCH", main_stat=4400), (StatusEffects(), StatusEffects()))
expect(a, b)
"""),
dict(id="c03-debuff-forces-no-crit", property="C03", needs="an effect on the target (debuff) that forces no critical hits",
  breaks="a debuff that rules out critical hits is ignored",
  edits=[(CD, """            or skill_modifier.guaranteed_crit is ForcedCritOrDH.FORCE_NO
            or status_effects[0].guaranteed_crit is ForcedCritOrDH.FORCE_NO
            or status_effects[1].guaranteed_crit is ForcedCritOrDH.FORCE_NO
""", """            or skill_modifier.guaranteed_crit is ForcedCritOrDH.FORCE_NO
            or status_effects[0].guaranteed_crit is ForcedCritOrDH.FORCE_NO
            or status_effects[0].guaranteed_crit is ForcedCritOrDH.FORCE_NO
""")],
  demo="""
sk = Skill(name="d", damage_spec=DamageSpec(potency=70))
r = ComputeDamageUtils.compute_crit_rates_and_bonuses(stats_of(), sk, SkillModifier(), (StatusEffects(), StatusEffects(guaranteed_crit=ForcedCritOrDH.FORCE_NO)))
expect(r[1], 0)
"""),
dict(id="c04-shared-variance-roll", property="C04", needs="looking at the joint distribution of several hits",
  breaks="all hits of a sample share one damage roll, so rolls are not independent and total damage varies too much",
  edits=[(DT, "                + base_damage_range * np.random.rand(num_damage_instances, num_samples)\n", "                + base_damage_range * np.random.rand(1, num_samples)\n")],
  demo="""
sk = Skill(name="d", damage_spec=DamageSpec(potency=700, guaranteed_crit=ForcedCritOrDH.FORCE_YES, guaranteed_dh=ForcedCritOrDH.FORCE_YES))
se = (StatusEffects(), StatusEffects())
sim = DamageSimulator(stats_of(), [(1000 * i, sk, SkillModifier(), se, i, "x") for i in range(3)], 4000, save_damage_matrix=True)
m = sim.get_damage_matrix()
if abs(np.corrcoef(m[0], m[1])[0][1]) > 0.2: raise SystemExit("rolls of different hits are correlated")
"""),
dict(id="c05-range-not-truncated", property="C05", needs="a hit whose 105% roll is not a whole number",
  breaks="upper end of the ranges: the roll is not truncated before critical multipliers, giving damage that cannot be rolled",
  edits=[(DT, "        high_init_base_damage = np.floor(1.05 * self.base_damage)\n", "        high_init_base_damage = np.ceil(1.05 * self.base_damage)\n")],
  demo="""
bad = 0
for pot in range(100, 160):
    sk = Skill(name="d", damage_spec=DamageSpec(potency=pot))
    se = (StatusEffects(), StatusEffects())
    st = stats_of("WAR")
    base = ComputeDamageUtils.get_base_damage(sk, SkillModifier(), st, se)
    sim = DamageSimulator(st, [(0, sk, SkillModifier(), se, 0, "x")], 1)
    r = sim.get_damage_ranges()[0][1]
    expect(r[2], float(int(base * 105) // 100))
"""),
dict(id="c06-flat-reduction-before-haste", property="C06", needs="a flat recast reduction and a haste effect at once",
  breaks="flat recast reduction is scaled by haste, so the next skill is pressed late",
  edits=[(RB, """                recast_time = (
                    Utils.truncate_to_digit(
                        recast_time
                        * curr_buffs.haste_time_mult
""", """                recast_time -= curr_buffs.flat_gcd_recast_time_reduction
                recast_time = (
                    Utils.truncate_to_digit(
                        recast_time
                        * curr_buffs.haste_time_mult
"""), (RB, """                recast_time -= curr_buffs.flat_gcd_recast_time_reduction
                # default (2500 ms""", """                # default (2500 ms""")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(haste=True), damage_spec=DamageSpec(potency=100))
h = Skill(name="H", is_GCD=False, timing_spec=T(), buff_spec=StatusEffectSpec(duration=60000, haste_time_reduction=0.2))
f = Skill(name="F", is_GCD=False, timing_spec=T(), buff_spec=StatusEffectSpec(duration=60000, flat_gcd_recast_time_reduction=300))
lib = lib_of([g, h, f]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
for n in "HFGG": rb.add_next(n)
rb.get_skill_timing()
expect([p[0] for p in rb.get_button_press_timing()], [0, 0, 0, 1700])
"""),
dict(id="c07-short-casts", property="C07", needs="a cast of at most half a second (e.g. after a flat cast time reduction)",
  breaks="skills with very short casts apply half a second late",
  edits=[(RB, "            if cast_time > 1e-6:\n", "            if cast_time > GameConsts.DAMAGE_SNAPSHOT_TIME_BEFORE_CAST_FINISHES:\n")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(cast=400, app=800), damage_spec=DamageSpec(potency=100))
lib = lib_of([g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(1, "G")
q = rb.get_skill_timing().get_q()
expect((q[0].event_times.primary, q[0].event_times.secondary), (1000, 1700))
"""),
dict(id="c08-dot-applications-unsorted", property="C08", needs="the same dot applied by skills in sequence and by skills at given times, so that applications are not entered in time order",
  breaks="an application of a dot does not end the one before it on that target, both tick",
  edits=[(RB, "        return sorted(app_times, key=lambda x: x[0])\n", "        return app_times\n")],
  demo="""
dot = Skill(name="D (dot)", damage_spec=DamageSpec(potency=50, damage_class=DamageClass.PHYSICAL_DOT))
d = Skill(name="D", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100),
          follow_up_skills=(FollowUp(skill=dot, delay_after_parent_application=0, dot_duration=12000),))
w = Skill(name="W", is_GCD=False, timing_spec=T(lock=7000))
lib = lib_of([d, w]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add_next("W"); rb.add_next("D")
rb.add(1, "D")
t = [h[0] for h in hits(rb, st, lib) if h[1].name == "D (dot)"]
expect(t, [1000, 4000, 7000, 10000, 13000, 16000])
"""),
dict(id="c09-inapplicable-effect-suppresses", property="C09", needs="prioritised effects of which the highest does not apply to the skill used",
  breaks="an effect that does not apply to a skill still suppresses lower priority effects for it",
  edits=[(SE, """        valid_status_effects = self.__get_valid_status_effects(
            curr_t, status_effects, status_effect_denylist, skill_name
        )
        valid_and_prioritized_status_effects = (
            self.__delete_lower_priority_status_effects(valid_status_effects)
        )
""", """        prioritized_status_effects = self.__delete_lower_priority_status_effects(
            status_effects.keys()
        )
        valid_status_effects = self.__get_valid_status_effects(
            curr_t, status_effects, status_effect_denylist, skill_name
        )
        valid_and_prioritized_status_effects = tuple(
            x for x in valid_status_effects if x in prioritized_status_effects
        )
""")],
  demo="""
a = Skill(name="A", is_GCD=False, timing_spec=T(), buff_spec=StatusEffectSpec(duration=30000, damage_mult=1.5, skill_allowlist=("X",)))
b = Skill(name="B", is_GCD=False, timing_spec=T(), buff_spec=StatusEffectSpec(duration=30000, damage_mult=1.25))
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
lib = lib_of([a, b, g], prio=("A", "B")); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "A"); rb.add(1, "B"); rb.add(2, "G")
expect(hits(rb, st, lib)[0][3][0].damage_mult, 1.25)
"""),
dict(id="c09-use-cap-of-old-variant", property="C09", needs="an effect with limited uses reapplied by another variant with a different cap",
  breaks="stacks are capped by the replaced variant's cap",
  edits=[(SE, """                prev_num_uses + status_effect_spec.num_uses,
                status_effect_spec.max_num_uses,
""", """                prev_num_uses + status_effect_spec.num_uses,
                prev_status_effect_spec.max_num_uses,
""")],
  demo="""
a = Skill(name="A", is_GCD=False, timing_spec=T(), buff_spec={"": StatusEffectSpec(duration=30000, num_uses=1, damage_mult=1.5, skill_allowlist=("G",)), "big": StatusEffectSpec(duration=30000, num_uses=2, max_num_uses=3, damage_mult=1.5, skill_allowlist=("G",))})
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
lib = lib_of([a, g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "A"); rb.add(1, "A", skill_modifier=SkillModifier(with_condition="big"))
for i in range(5): rb.add(2 + i, "G")
expect([h[3][0].damage_mult for h in hits(rb, st, lib)], [1.5, 1.5, 1.5, 1.0, 1.0])
"""),
dict(id="c10-failed-combos-do-not-interrupt", property="C10", needs="two combo groups, and a failed combo skill of the interrupting group in the middle of the other's combo",
  breaks="a failed combo skill does not interrupt the other combo groups",
  edits=[("simulator/trackers/combo_tracker.py", "    for combo_group_to_be_broken, breakers in self.combo_breakers.items():\n      if combo_spec.combo_group in breakers:", "    for combo_group_to_be_broken, breakers in self.combo_breakers.items():\n      if combo_succeeded and combo_spec.combo_group in breakers:")],
  demo="""
def sk(n, grp, acts): return Skill(name=n, is_GCD=True, timing_spec=T(), damage_spec={"": DamageSpec(potency=200), "No Combo": DamageSpec(potency=100)}, combo_spec=(ComboSpec(combo_group=grp, combo_actions=acts),))
lib = lib_of([sk("A1", 0, ()), sk("A2", 0, ("A1",)), sk("B2", 1, ("B1",))], breakers=[(0, (1,))]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "A1"); rb.add(3, "B2"); rb.add(6, "A2")
expect(["No Combo" in h[2].with_condition for h in hits(rb, st, lib)], [False, True, True])
"""),
dict(id="c11-cap-at-the-end", property="C11", needs="gaining more than the cap, then spending some",
  breaks="overcapped resources are still there after spending",
  edits=[("simulator/trackers/job_resource_tracker.py", "                total_resource = min(total_resource, job_resource_config.max_value)\n                total_resource = max(0, total_resource)\n", "                total_resource = max(0, total_resource)\n            total_resource = min(total_resource, job_resource_config.max_value)\n")],
  demo="""
gain = Skill(name="Gain", is_GCD=False, timing_spec=T(), job_resource_spec=(JobResourceSpec(name="R", change=2),))
use = Skill(name="Use", is_GCD=False, timing_spec=T(), job_resource_spec=(JobResourceSpec(name="R", change=-1),))
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec={"": DamageSpec(potency=100), "2 R": DamageSpec(potency=300)})
lib = lib_of([gain, use, g], resources=[("R", JobResourceSettings(max_value=3, skill_allowlist=("G",)))]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "Gain"); rb.add(1, "Gain"); rb.add(2, "Gain"); rb.add(3, "Use"); rb.add(4, "G")
h = hits(rb, st, lib)[0]
expect(h[1].get_damage_spec(h[2]).potency, 300)
"""),
dict(id="c12-conditions-without-space", property="C12", needs="several conditions given with commas but without spaces between them",
  breaks="conditions separated by a comma without a space are taken as one unknown condition",
  edits=[("simulator/utils.py", "        tmp = [x.strip() for x in condition.split(\",\")]\n", "        tmp = [x.strip() for x in condition.split(\", \")]\n")],
  demo="""
g = Skill(name="G", damage_spec={"": DamageSpec(potency=100), "a, b": DamageSpec(potency=300)})
expect(g.get_damage_spec(SkillModifier(with_condition="b,a")).potency, 300)
"""),
dict(id="c13-auto-returns-to-target", property="C13", needs="attacking a second target and then the first one again, with autos",
  breaks="autos never return to a target attacked before",
  edits=[(RB, """            res = [seq[0]]
            curr_target = seq[0][1]
            for i in range(1, len(seq)):
                if seq[i][1] == curr_target:
                    continue
                curr_target = seq[i][1]
                res.append(seq[i])
""", """            res = [seq[0]]
            seen_targets = {seq[0][1]}
            for i in range(1, len(seq)):
                if seq[i][1] in seen_targets:
                    continue
                seen_targets.add(seq[i][1])
                res.append(seq[i])
""")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
auto = Skill(name="Auto", is_GCD=False, timing_spec=T(), damage_spec=DamageSpec(potency=90, damage_class=DamageClass.AUTO))
lib = lib_of([g, auto]); st = stats_of(weapon_delay=3.0)
rb = RotationBuilder(st, lib, fight_start_time=0, enable_autos=True)
rb.add(0, "G", targets="A"); rb.add(4, "G", targets="B"); rb.add(8, "G", targets="A"); rb.add(13, "G", targets="A")
expect([h[5] for h in hits(rb, st, lib) if h[1].name == "Auto"], ["A", "A", "B", "A", "A"])
"""),
dict(id="c14-downtime-of-one-target-loses-others", property="C14", needs="a skill on several targets of which one that is not the last is in downtime",
  breaks="targets listed after one in downtime are not hit",
  edits=[(RB, """                ):
                    continue
                else:
                    all_valid_targets.append(target)
                continue
""", """                ):
                    break
                else:
                    all_valid_targets.append(target)
                continue
""")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100), has_aoe=True)
lib = lib_of([g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0, downtime_windows={"A": ((0.0, 5.0),)})
rb.add(1, "G", targets="A, B, C")
expect([h[5] for h in hits(rb, st, lib)], ["B", "C"])
"""),
dict(id="c15-conditions-shared-by-targets", property="C15", needs="a skill on several targets whose damage depends on an effect on one of the targets",
  breaks="conditions from one target's debuffs are seen by the other targets",
  edits=[(DB, """                    if len(targets) > 1:
                        skill_modifier_to_use = copy.deepcopy(skill_modifier)
                        skill_modifier_to_use.add_to_condition(f"Target {i+1}")
                        snapshot_status_use = copy.deepcopy(snapshot_status)
                        # add targetting
                        application_time = (
                            event_times.secondary
""", """                    if len(targets) > 1:
                        skill_modifier_to_use = copy.copy(skill_modifier)
                        skill_modifier_to_use.add_to_condition(f"Target {i+1}")
                        snapshot_status_use = copy.deepcopy(snapshot_status)
                        # add targetting
                        application_time = (
                            event_times.secondary
""")],
  demo="""
d = Skill(name="Mark", is_GCD=False, timing_spec=T(), debuff_spec=StatusEffectSpec(duration=30000, add_to_skill_modifier_condition=True))
g = Skill(name="G", is_GCD=True, timing_spec=T(app=500), damage_spec={"": DamageSpec(potency=100), "Mark": DamageSpec(potency=300)}, has_aoe=True)
lib = lib_of([d, g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "Mark", targets="A"); rb.add(1, "G", targets="A, B", skill_modifier=SkillModifier(with_condition="x"))
expect([h[1].get_damage_spec(h[2]).potency for h in hits(rb, st, lib)], [300, 100])
"""),
dict(id="c16-modifier-of-caller-changed", property="C16", needs="getting the timeline twice, with a condition that holds only the first time (two sites: neither copies the modifier)",
  breaks="conditions found while building are written into the caller's SkillModifier, so building again gives other results",
  edits=[(RB, """        q = copy.deepcopy(self._q_timed)
""", """        q = list(self._q_timed)
"""), (RB, """            _, skill_modifier_from_debuffs = (
                curr_debuffs_and_skill_modifier[0],
                curr_debuffs_and_skill_modifier[1],
            )
            job_resource_conditional = job_resource_tracker.compile_job_resources(
                curr_t, skill
            )

            skill_modifier = copy.deepcopy(skill_modifier)
""", """            _, skill_modifier_from_debuffs = (
                curr_debuffs_and_skill_modifier[0],
                curr_debuffs_and_skill_modifier[1],
            )
            job_resource_conditional = job_resource_tracker.compile_job_resources(
                curr_t, skill
            )

""")],
  demo="""
lib = create_skill_library(version="7.05", level=100); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
m = SkillModifier(with_condition="x")
rb.add(0, "Storm's Path", skill_modifier=m)
rb.get_skill_timing()
expect(m.with_condition, {"x"})
"""),
dict(id="c18-snapping-to-fractional-tick", property="C18", needs="snapping dots to a server tick at a fraction of a millisecond (times measured in a log)",
  breaks="rotations with dots raise TypeError",
  edits=[(RB, """                            dot_start_time = int(
                                _dot_start_time
                                - shave_off
                                + GameConsts.DOT_TICK_INTERVAL
                            )
""", """                            dot_start_time = (
                                _dot_start_time
                                - int(shave_off)
                                + GameConsts.DOT_TICK_INTERVAL
                            )
""")],
  demo="""
dot = Skill(name="D (dot)", damage_spec=DamageSpec(potency=50, damage_class=DamageClass.PHYSICAL_DOT))
d = Skill(name="D", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100),
          follow_up_skills=(FollowUp(skill=dot, delay_after_parent_application=0, dot_duration=6000),))
lib = lib_of([d]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0, snap_dots_to_server_tick_starting_at=0.0005)
rb.add(1, "D")
# ticks are at 0.5, 3000.5, 6000.5 ... ms: in whole milliseconds at 3000 and 6000
expect([h[0] for h in hits(rb, st, lib) if h[1].name == "D (dot)"], [3000, 6000])
"""),
dict(id="c19-csv-default-condition-of-party-skill", property="C19", needs="a csv row of a party member's skill that has a default condition for other jobs, with an empty condition",
  breaks="rows with an empty condition do not get the default condition, unlike entering the press by hand",
  edits=[("simulator/rotation_import_utils/csv_utils.py", """            if sk.skill_conditional is None or sk.skill_conditional == "":
                skill_modifier = None
""", """            if sk.skill_conditional is None:
                skill_modifier = None
""")],
  demo="""
import tempfile, os
from ama_xiv_combat_sim.simulator.rotation_import_utils.csv_utils import CSVUtils
lib = create_skill_library(version="7.05", level=100); st = stats_of()
names = [(j, n) for j in lib.get_jobs() for n in ("Radiant Finale", "Technical Finish", "Standard Finish") if j in ("BRD", "DNC") and lib.has_skill(n, j) and lib.get_skill(n, j).off_class_default_condition]
assert names
for j, n in names:
    a = RotationBuilder(st, lib, fight_start_time=0); a.add(1, n, job_class=j)
    b = RotationBuilder(st, lib, fight_start_time=0)
    fd, path = tempfile.mkstemp(suffix=".csv")
    os.write(fd, ("Time, skill_name, job_class, skill_conditional\\n1.0, %s, %s, \\n" % (n, j)).encode()); os.close(fd)
    CSVUtils.populate_rotation_from_csv(b, path); os.unlink(path)
    a.get_skill_timing(); b.get_skill_timing()
    expect(b.get_button_press_timing(), a.get_button_press_timing())
"""),
dict(id="c20-exactly-dead", property="C20", needs="damage that reaches the boss's HP exactly",
  breaks="a boss brought to exactly 0 HP counts as alive",
  edits=[("kill_time_estimator/kill_time_estimator.py", "[ np.nonzero(cumsum_damage[:,i]>=self.__boss_hp)[0][0] if len(np.nonzero(cumsum_damage[:,i]>=self.__boss_hp)[0] > 0) else None", "[ np.nonzero(cumsum_damage[:,i]>self.__boss_hp)[0][0] if len(np.nonzero(cumsum_damage[:,i]>self.__boss_hp)[0] > 0) else None")],
  demo="""
from ama_xiv_combat_sim.kill_time_estimator.kill_time_estimator import KillTimeEstimator
lib = create_skill_library(version="7.05", level=100); st = stats_of("SAM")
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(1, "LB 1", skill_modifier=SkillModifier(with_condition="Exact Damage: 1000"))
rb.add(5, "LB 1", skill_modifier=SkillModifier(with_condition="Exact Damage: 500"))
k = KillTimeEstimator(1500); k.add_rotation(rb)
kt = k.estimate_kill_time(3, verbose=False)[0]
if any(x is None for x in kt): raise SystemExit("not dead")
"""),
dict(id="c21-interval-before-last", property="C21", needs="a last snapshot in the same second as a multiple of the interval",
  breaks="the last multiple of the interval is missing from the report",
  edits=[("rotation_analysis/rotation_analysis_utils.py", "int(np.ceil(max_t / 1000))", "int(max_t / 1000)")],
  demo="""
from ama_xiv_combat_sim.rotation_analysis.rotation_analysis_utils import RotationAnalysisUtils
from ama_xiv_combat_sim.simulator.damage_simulator import PerInstanceDamage
def p(t): return PerInstanceDamage(t, t, "x", 100, "", (), 10.0, 1.0, 0, "t", None)
r = RotationAnalysisUtils.get_dps_at_intervals([p(0), p(4000), p(10500)], 5)
expect(r["snapshot_time"], [5, 10, 10.5])
"""),
dict(id="c22-ignored-conditions-lost", property="C22", needs="a bonus percentage on a skill with conditions that are ignored for bonus potency, one of them given",
  breaks="conditions that are ignored when inferring positionals are dropped from the result",
  edits=[("simulator/utils.py", "                to_try.add_to_condition(\",\".join(init_skill_modifier.with_condition))\n", "")],
  demo="""
from ama_xiv_combat_sim.simulator.utils import Utils
sk = Skill(name="S", ignored_conditions_for_bonus_potency=("Hot",), damage_spec={"": DamageSpec(potency=400), "No Positional": DamageSpec(potency=300), "No Combo": DamageSpec(potency=250), "No Combo, No Positional": DamageSpec(potency=200)})
m = SkillModifier(with_condition="Hot", bonus_percent=50)
got = Utils.get_positional_condition(sk, m)
expect({x.strip() for x in got.split(",")}, {"Hot"})
"""),
dict(id="c23-new-channel-after-expiry", property="C23", needs="a channel that ran out before another channel is started",
  breaks="a channel that ran out is reported to last until the next channel",
  edits=[("simulator/trackers/channeling_tracker.py", """            if self.__is_channeling():
                channel_end_time = min(
                    self.__start_channeling_time + self.__curr_channeling_spec.duration,
                    t,
                )
                self.__end_channeling(channel_end_time)
            self.__start_channeling(t, channeling_spec)
""", """            if self.__is_channeling():
                self.__end_channeling(t)
            self.__start_channeling(t, channeling_spec)
""")],
  demo="""
from ama_xiv_combat_sim.simulator.trackers.channeling_tracker import ChannelingTracker
c = Skill(name="C", channeling_spec=ChannelingSpec(duration=5000))
tr = ChannelingTracker()
tr.process_channeling(0, c, SkillModifier()); tr.process_channeling(9000, c, SkillModifier()); tr.finalize()
expect(tuple(tr.get_channeling_windows()), ((0, 5000), (9000, 14000)))
"""),
dict(id="c24-end-version-excluded", property="C24", needs="a library of exactly the last patch an example rotation is valid for",
  breaks="example rotations are not offered for the last patch of their range",
  edits=[("example_rotations/specific_rotations.py", "            end_version is not None and self.version > end_version\n", "            end_version is not None and self.version >= end_version\n")],
  demo="""
from ama_xiv_combat_sim.example_rotations.specific_rotations import SpecificRotations
s = SpecificRotations(); s.add_rotation_data("x", {100: {"start_version": "7.0", "end_version": "7.01"}})
s.set_level(100)
got = []
for v in ("6.55", "7.0", "7.01", "7.05"):
    s.set_version(v); got.append(s.rotation_is_valid("x"))
expect(got, [False, True, True, False])
"""),
dict(id="c25-first-damage-before-zero", property="C25", needs="a rotation whose first damage is before time zero",
  breaks="times are not moved if the first damage is at a negative time",
  edits=[(RB, """        if first_damage_time is None:
            return self._q_snapshot_and_applications
""", """        if first_damage_time is None or first_damage_time <= 0:
            return self._q_snapshot_and_applications
""")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(app=500), damage_spec=DamageSpec(potency=100))
lib = lib_of([g]); st = stats_of()
rb = RotationBuilder(st, lib)
rb.add(-2, "G"); rb.add(1, "G")
expect([h[0] for h in hits(rb, st, lib)], [0, 3000])
"""),
dict(id="c26-combo-breakers-not-copied", property="C26", needs="changing the returned combo interrupters",
  breaks="changing what the library returned changes the library",
  edits=[("simulator/skills/skill_library.py", "        return copy.deepcopy(self.__combo_breakers[job_class])\n", "        return self.__combo_breakers[job_class]\n")],
  demo="""
lib = lib_of([], breakers=[(0, (1,))])
lib.get_all_combo_breakers("WAR")[5] = (0,)
expect(lib.get_all_combo_breakers("WAR"), {0: (1,)})
"""),
dict(id="c17-old-venom-potency-level90", property="C17", needs="level 90, patch 7.05 or later, VPR",
  breaks="VPR combo base potencies of level 90 are those of the previous patch",
  edits=[("simulator/game_data/class_skills/melee/vpr_data.py", """        90: {
            "potency_no_venom": {"7.0": 120, "7.05": 160},
""", """        90: {
            "potency_no_venom": {"7.0": 120, "7.1": 160},
""")],
  demo="""
def spec(lib):
    out = set()
    for n in ("Hindsting Strike", "Hindsbane Fang", "Flanksting Strike", "Flanksbane Fang"):
        for d in lib.get_skill(n, "VPR").damage_spec.values(): out.add(d.use_min_potency)
    return out
a = spec(create_skill_library(version="7.05", level=90)); b = spec(create_skill_library(version="7.0", level=90))
expect(120 in b and 160 not in b, True); expect(160 in a and 120 not in a, True)
"""),
]
