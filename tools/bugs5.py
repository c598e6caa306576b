"""Planted bugs, fifth set (see plant.py)."""
S = "simulator/"
RB = S + "timeline_builders/rotation_builder.py"
DB = S + "timeline_builders/damage_builder.py"
SK = S + "skills/skill.py"
DT = S + "trackers/damage_tracker.py"
SE = S + "trackers/status_effect_tracker.py"
UT = S + "utils.py"
MULTI = """
g = Skill(name="G", is_GCD=True, timing_spec=T(app=500), damage_spec={"": DamageSpec(potency=100)}, has_aoe=True, aoe_dropoff=0.5)
"""
BUGS = [
dict(id="c15-later-targets-together", property="C15", needs="a skill on eight or more targets",
  breaks="from the seventh target on, targets are hit at the same time",
  edits=[(DB, "                            event_times.secondary\n                            + i * GameConsts.MULTI_TARGET_DELAY_PER_TARGET\n",
             "                            event_times.secondary\n                            + min(i, 6) * GameConsts.MULTI_TARGET_DELAY_PER_TARGET\n")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(app=500), damage_spec=DamageSpec(potency=100), has_aoe=True)
lib = lib_of([g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "G", targets=", ".join(f"t{i}" for i in range(9)))
expect([h[0] for h in hits(rb, st, lib)], [500 + 135 * i for i in range(9)])
"""),
dict(id="c13-debuffs-do-not-slow", property="C13", needs="a debuff on the default target which changes the speed of auto-attacks",
  breaks="effects on the target do not change the speed of auto-attacks",
  edits=[(RB, "                * curr_buffs.auto_attack_delay_mult\n                * curr_debuffs.auto_attack_delay_mult,\n", "                * curr_buffs.auto_attack_delay_mult,\n")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
b = Skill(name="B", is_GCD=False, timing_spec=T(), debuff_spec=StatusEffectSpec(duration=60000, auto_attack_delay_reduction=0.5))
au = Skill(name="Auto", is_GCD=False, timing_spec=T(), damage_spec=DamageSpec(potency=90, damage_class=DamageClass.AUTO))
lib = lib_of([g, b, au]); st = stats_of(weapon_delay=3.0)
rb = RotationBuilder(st, lib, enable_autos=True, fight_start_time=0)
rb.add(0, "G"); rb.add(2, "B"); rb.add(8, "G")
expect([h[0] for h in hits(rb, st, lib) if h[1].name == "Auto"], [0, 3000, 4500, 6000, 7500])
"""),
dict(id="c03-contradiction-of-effects", property="C03", needs="two effects of the player at once, one forcing critical hits and the other forbidding them",
  breaks="contradictory forcing by two effects is resolved silently (the later wins)",
  edits=[(SE, '''                assert (
                    guaranteed_crit is ForcedCritOrDH.DEFAULT
                ), "Cannot force 2 different crit statuses on a skill. Be sure to only have 1 forced crit status on all buffs/debuffs."
''', "")],
  demo="""
F = ForcedCritOrDH
a = Skill(name="A", is_GCD=False, timing_spec=T(), buff_spec=StatusEffectSpec(duration=30000, guaranteed_crit=F.FORCE_YES))
b = Skill(name="B", is_GCD=False, timing_spec=T(), buff_spec=StatusEffectSpec(duration=30000, guaranteed_crit=F.FORCE_NO))
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
lib = lib_of([a, b, g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "A"); rb.add(1, "B"); rb.add(2, "G")
try:
    DamageSimulator(st, hits(rb, st, lib), 1)
except Exception:
    pass
else:
    raise SystemExit("contradiction accepted")
"""),
]
