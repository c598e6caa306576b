"""Planted bugs, sixth set (see plant.py)."""
S = "simulator/"
DB = S + "timeline_builders/damage_builder.py"
BUGS = [
dict(id="c12-conditions-of-late-debuffs", property="C12",
  needs="a follow-up which snapshots debuffs by itself, at a moment when the target has a debuff which gives a condition of its damage",
  breaks="conditions given by debuffs are not used by hits which snapshot debuffs when they apply",
  edits=[(DB, '''                            self.se.compile_debuffs(curr_time, skill, target)
                        )
                        skill_modifier_to_use.add_to_condition(
                            skill_modifier_from_debuffs
                        )

                    if skill''', '''                            self.se.compile_debuffs(curr_time, skill, target)
                        )

                    if skill''')],
  demo="""
d = Skill(name="D", is_GCD=False, timing_spec=T(), debuff_spec=StatusEffectSpec(duration=30000, add_to_skill_modifier_condition=True))
h = Skill(name="H", is_GCD=False, timing_spec=T(), damage_spec={"": DamageSpec(potency=100), "D": DamageSpec(potency=300)})
g = Skill(name="G", is_GCD=True, timing_spec=T(app=500),
          follow_up_skills=(FollowUp(skill=h, delay_after_parent_application=2000, snapshot_debuffs_with_parent=False),))
lib = lib_of([d, h, g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "G"); rb.add(1, "D")
(x,) = hits(rb, st, lib)
expect((x[0], x[1].get_damage_spec(x[2]).potency), (2500, 300))
"""),
]
