RB = "simulator/timeline_builders/rotation_builder.py"
DB = "simulator/timeline_builders/damage_builder.py"
SE = "simulator/trackers/status_effect_tracker.py"
CD = "simulator/calcs/compute_damage_utils.py"
DT = "simulator/trackers/damage_tracker.py"
BUGS = [
dict(id="c05-instances-not-sorted", property="C05", needs="damage instances given out of time order (e.g. those of two rotations put together)",
  breaks="the report is not in time order and the fight time is wrong",
  edits=[("simulator/damage_simulator.py", "        # defensively sort\n        self.__dmg_instances.sort(key=lambda x: x[0])\n", "")],
  demo="""
sk = Skill(name="d", damage_spec=DamageSpec(potency=700))
se = (StatusEffects(), StatusEffects())
sim = DamageSimulator(stats_of(), [(t, sk, SkillModifier(), se, t, "x") for t in (3000, 0, 1000)], 5)
expect([p.application_time for p in sim.get_per_skill_damage()], [0, 1000, 3000])
"""),
dict(id="c09-ended-debuff-on-other-target", property="C09", needs="a debuff which ends another debuff, used on a target other than the default one",
  breaks="a debuff ended by another skill keeps affecting hits on targets other than the default one",
  edits=[(SE, "                    self.__expire_named_effect(expired_effect_name, t, target)\n", "                    self.__expire_named_effect(expired_effect_name, t)\n")],
  demo="""
a = Skill(name="A", is_GCD=False, timing_spec=T(), debuff_spec=StatusEffectSpec(duration=30000, damage_mult=1.5))
b = Skill(name="B", is_GCD=False, timing_spec=T(), debuff_spec=StatusEffectSpec(duration=30000, expires_status_effects=("A",)))
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
lib = lib_of([a, b, g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "A", targets="Y"); rb.add(1, "B", targets="Y"); rb.add(2, "G", targets="Y")
expect(hits(rb, st, lib)[0][3][1].damage_mult, 1.0)
"""),
dict(id="c09-end-exclusive", property="C09", needs="a hit that snapshots at the very ms an effect ends",
  breaks="effects end one moment early",
  edits=[(SE, "            if t > end_time or num_uses == 0:\n", "            if t >= end_time or num_uses == 0:\n")],
  demo="""
a = Skill(name="A", is_GCD=False, timing_spec=T(), buff_spec=StatusEffectSpec(duration=5000, damage_mult=1.5))
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
lib = lib_of([a, g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "A"); rb.add(5, "G"); rb.add(5.001, "G")
expect([h[3][0].damage_mult for h in hits(rb, st, lib)], [1.5, 1.0])
"""),
dict(id="c11-refresh-hides-expiry", property="C11", needs="a resource that expired as a whole and is then gained again",
  breaks="gaining a resource after it expired brings the expired amount back",
  edits=[("simulator/trackers/job_resource_tracker.py", """                if (
                    last_refresh_time + job_resource_config.expiry_from_last_gain
                    < start_time
                ):
                    total_resource = 0
                if resource_spec.refreshes_duration_of_last_gained:
                    last_refresh_time = start_time
""", """                if resource_spec.refreshes_duration_of_last_gained:
                    last_refresh_time = start_time
                if (
                    last_refresh_time + job_resource_config.expiry_from_last_gain
                    < start_time
                ):
                    total_resource = 0
""")],
  demo="""
gain = Skill(name="Gain", is_GCD=False, timing_spec=T(), job_resource_spec=(JobResourceSpec(name="R", change=1, refreshes_duration_of_last_gained=True),))
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec={"": DamageSpec(potency=100), "1 R": DamageSpec(potency=200), "2 R": DamageSpec(potency=300)})
lib = lib_of([gain, g], resources=[("R", JobResourceSettings(max_value=3, skill_allowlist=("G",), expiry_from_last_gain=5000))]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "Gain"); rb.add(10, "Gain"); rb.add(11, "G")
h = hits(rb, st, lib)[0]
expect(h[1].get_damage_spec(h[2]).potency, 200)
"""),
dict(id="c13-auto-only-downtime", property="C13", needs="a downtime window for autos only",
  breaks="autos are not moved to the end of a window for auto-attacks but dropped, and the following ones come at the wrong times",
  edits=[(RB, "                r[2] is None or r[2] == DamageClass.AUTO\n", "                r[2] is None or r[2] == DamageClass.DIRECT\n")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
auto = Skill(name="Auto", is_GCD=False, timing_spec=T(), damage_spec=DamageSpec(potency=90, damage_class=DamageClass.AUTO))
lib = lib_of([g, auto]); st = stats_of(weapon_delay=3.0)
rb = RotationBuilder(st, lib, fight_start_time=0, enable_autos=True, downtime_windows=((2.0, 5.0, DamageClass.AUTO),))
rb.add(0, "G"); rb.add(12, "G")
expect([h[0] for h in hits(rb, st, lib) if h[1].name == "Auto"], [0, 5000, 8000, 11000])
"""),
dict(id="c13-auto-target-at-application", property="C13", needs="autos that apply later than they snapshot, and a change of target in between",
  breaks="an auto goes to a target first attacked after it was launched",
  edits=[(RB, "                and timestamps_and_main_target[auto_target_ind][0] <= snapshot_time\n", "                and timestamps_and_main_target[auto_target_ind][0] <= application_time\n")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
auto = Skill(name="Auto", is_GCD=False, timing_spec=T(app=500), damage_spec=DamageSpec(potency=90, damage_class=DamageClass.AUTO))
lib = lib_of([g, auto]); st = stats_of(weapon_delay=3.0)
rb = RotationBuilder(st, lib, fight_start_time=0, enable_autos=True)
rb.add(0, "G", targets="A"); rb.add(3.2, "G", targets="B"); rb.add(8, "G", targets="B")
expect([h[5] for h in hits(rb, st, lib) if h[1].name == "Auto"], ["A", "A", "B"])
"""),
dict(id="c22-one-ignored-condition", property="C22", needs="a skill with several conditions ignored for bonus potency, the second of them given",
  breaks="only the first ignored condition is ignored, so the percentage is not recognised",
  edits=[("simulator/utils.py", "            skill_modifier.remove_from_condition(condition_to_ignore)\n", "            skill_modifier.remove_from_condition(condition_to_ignore)\n            break\n")],
  demo="""
from ama_xiv_combat_sim.simulator.utils import Utils
sk = Skill(name="S", ignored_conditions_for_bonus_potency=("Hot", "Cold"), damage_spec={"": DamageSpec(potency=400), "Cold": DamageSpec(potency=600), "No Positional": DamageSpec(potency=300), "Cold, No Positional": DamageSpec(potency=600), "No Combo": DamageSpec(potency=250), "No Combo, No Positional": DamageSpec(potency=200), "No Combo, Cold": DamageSpec(potency=210), "No Combo, No Positional, Cold": DamageSpec(potency=210)})
m = SkillModifier(with_condition="Cold", bonus_percent=50)
got = Utils.get_positional_condition(sk, m)
expect({x.strip() for x in got.split(",")}, {"Cold"})
"""),
]
