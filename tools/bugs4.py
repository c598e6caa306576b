RB = "simulator/timeline_builders/rotation_builder.py"
DB = "simulator/timeline_builders/damage_builder.py"
SE = "simulator/trackers/status_effect_tracker.py"
CT = "simulator/trackers/combo_tracker.py"
CH = "simulator/trackers/channeling_tracker.py"
CD = "simulator/calcs/compute_damage_utils.py"
DT = "simulator/trackers/damage_tracker.py"
SF = "simulator/calcs/stat_fns.py"
SK = "simulator/skills/skill.py"
KT = "kill_time_estimator/kill_time_estimator.py"
RA = "rotation_analysis/rotation_analysis_utils.py"
SL = "simulator/skills/skill_library.py"
UT = "simulator/utils.py"
BUGS = [
dict(id="c06-minimum-before-flat-reduction", property="C06", needs="a default GCD at the minimum recast under a flat recast reduction",
  breaks="a flat reduction takes the recast below the minimum",
  edits=[(RB, "                recast_time -= curr_buffs.flat_gcd_recast_time_reduction\n", ""),
         (RB, "                next_gcd_time = curr_t + recast_time\n", "                recast_time -= curr_buffs.flat_gcd_recast_time_reduction\n\n                next_gcd_time = curr_t + recast_time\n")],
  demo="""
b = Skill(name="B", is_GCD=False, timing_spec=T(), buff_spec=StatusEffectSpec(duration=60000, flat_gcd_recast_time_reduction=1200))
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
lib = lib_of([b, g]); st = stats_of()
rb = RotationBuilder(st, lib)
rb.add_next("B"); rb.add_next("G", num_times=3)
rb.get_skill_timing()
expect([x[0] for x in rb.get_button_press_timing()], [0, 0, 1500, 3000])
"""),
dict(id="c09-reapplication-restarts", property="C06", needs="an effect which is applied with a delay and reapplied while it still runs",
  breaks="from the press of the reapplication until it applies, the effect running already is lost",
  edits=[(SE, "            status_effects[skill_name] = (\n                prev_start_time,\n", "            status_effects[skill_name] = (\n                start_time,\n")],
  demo="""
b = Skill(name="B", is_GCD=False, timing_spec=T(app=3000), buff_spec=StatusEffectSpec(duration=30000, haste_time_reduction=0.2))
g = Skill(name="G", is_GCD=True, timing_spec=T(haste=True), damage_spec=DamageSpec(potency=100))
lib = lib_of([b, g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add_next("B"); rb.add_next("G", num_times=4); rb.add_next("B"); rb.add_next("G", num_times=2)
rb.get_skill_timing()
expect([x[0] for x in rb.get_button_press_timing() if x[1] == "G"], [0, 2500, 5000, 7000, 9000, 11000])
"""),
dict(id="c07-third-follow-up-unordered", property="C07", needs="at least three follow-ups which snapshot with their parent and apply at the same time, the third before the second in the alphabet",
  breaks="follow-ups after the second run in alphabetical order",
  edits=[(RB, "            priority_modifier = i + 1\n", "            priority_modifier = min(i + 1, 2)\n")],
  demo="""
f1 = Skill(name="F1", damage_spec=DamageSpec(potency=100))
z = Skill(name="Z", damage_spec=DamageSpec(potency=100))
a = Skill(name="A", buff_spec=StatusEffectSpec(duration=30000, damage_mult=1.5))
F = lambda s: FollowUp(skill=s, delay_after_parent_application=0, snapshot_buffs_with_parent=False)
p = Skill(name="P", is_GCD=False, timing_spec=T(), follow_up_skills=(F(f1), F(z), F(a)))
lib = lib_of([p]); st = stats_of()
rb = RotationBuilder(st, lib)
rb.add(0, "P")
expect([h[3][0].damage_mult for h in hits(rb, st, lib)], [1.0, 1.0])
"""),
dict(id="c08-tick-just-missed", property="C08", needs="dots snapped to server ticks and applied within a ms after one",
  breaks="a dot applied up to a ms after a server tick ticks at once instead of at the next one",
  edits=[(RB, "                            shave_off <= 1e-6\n", "                            shave_off <= 1\n")],
  demo="""
d = Skill(name="Dot", damage_spec=DamageSpec(potency=40, damage_class=DamageClass.PHYSICAL_DOT))
g = Skill(name="G", is_GCD=True, timing_spec=T(), follow_up_skills=(FollowUp(skill=d, delay_after_parent_application=0, dot_duration=9000),))
lib = lib_of([g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0, snap_dots_to_server_tick_starting_at=0)
rb.add(3.001, "G")
expect([h[0] for h in hits(rb, st, lib)], [6000, 9000, 12000])
"""),
dict(id="c10-combo-at-its-last-moment", property="C10", needs="a combo continued exactly 30 s after its predecessor",
  breaks="a combo continued at the last moment fails",
  edits=[(CT, "COMBO_EXPIRATION_TIME >= curr_t", "COMBO_EXPIRATION_TIME > curr_t")],
  demo="""
a = Skill(name="A", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100), combo_spec=(ComboSpec(),))
b = Skill(name="B", is_GCD=True, timing_spec=T(), damage_spec={"": DamageSpec(potency=300), "No Combo": DamageSpec(potency=100)}, combo_spec=(ComboSpec(combo_actions=("A",)),))
lib = lib_of([a, b]); st = stats_of()
rb = RotationBuilder(st, lib)
rb.add(0, "A"); rb.add(30, "B")
expect([h[1].get_damage_spec(h[2]).potency for h in hits(rb, st, lib)], [100, 300])
"""),
dict(id="c14-kind-of-default-variant", property="C14", needs="a window for one kind of damage and a skill whose conditional variant deals another kind",
  breaks="the kind of damage is that of the unconditional variant instead of the one dealt",
  edits=[(RB, "                skill_damage_spec = skill.get_damage_spec(skill_modifier)\n", "                skill_damage_spec = skill.get_damage_spec(SkillModifier())\n")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec={"": DamageSpec(potency=100), "Pet": DamageSpec(potency=100, damage_class=DamageClass.PET)})
lib = lib_of([g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0, downtime_windows=((2, 8, DamageClass.PET),))
rb.add(1, "G"); rb.add(3, "G"); rb.add(5, "G", SkillModifier(with_condition="Pet")); rb.add(9, "G", SkillModifier(with_condition="Pet"))
expect([h[0] for h in hits(rb, st, lib)], [1000, 3000, 9000])
"""),
dict(id="c04-rolls-repeat-after-64-hits", property="C04", needs="more than 64 hits, and looking at hits 64 apart",
  breaks="critical rolls of hits 64 apart are the same",
  edits=[(DT, "        crit_status = crit_rate >= np.random.rand(num_damage_instances, num_samples)\n",
   "        crit_rolls = np.random.rand(min(num_damage_instances, 64), num_samples)\n        crit_status = crit_rate >= np.take(\n            crit_rolls, range(num_damage_instances), axis=0, mode=\"wrap\"\n        )\n")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
st = stats_of()
np.random.seed(1)
none = (StatusEffects(), StatusEffects())
sim = DamageSimulator(st, [(1000 * i, g, SkillModifier(), none, i, "T") for i in range(100)], 2000, save_damage_matrix=True, save_crit_dh_status=True)
crit = sim.get_crit_status()
expect([i for i in range(36) if (crit[i] == crit[i + 64]).all()], [])
"""),
dict(id="c27-only-first-variant-checked", property="C27", needs="a malformed variant which is not the first of its table",
  breaks="conditional data whose later variants are lists instead of tuples is accepted",
  edits=[(SK, "                if not isinstance(tmp, tuple):\n                    return False\n        else:", "                return isinstance(tmp, tuple)\n        else:")],
  demo="""
try:
    Skill(name="S", follow_up_skills={"": tuple(), "cA": []})
except AssertionError:
    pass
else:
    raise SystemExit("a list was accepted")
"""),
dict(id="c15-debuffs-of-first-target", property="C15", needs="a skill on several targets with different debuffs",
  breaks="all targets are hit with the debuffs of the first one",
  edits=[(DB, "                        snapshot_status_use = copy.deepcopy(snapshot_status)\n                        # add targetting\n                        application_time = (\n                            event_times.secondary", "                        snapshot_status_use = snapshot_status\n                        # add targetting\n                        application_time = (\n                            event_times.secondary")],
  demo="""
d = Skill(name="D", is_GCD=False, timing_spec=T(), debuff_spec=StatusEffectSpec(duration=30000, damage_mult=1.1))
g = Skill(name="G", is_GCD=True, timing_spec=T(app=500), damage_spec=DamageSpec(potency=100), has_aoe=True)
lib = lib_of([d, g]); st = stats_of()
rb = RotationBuilder(st, lib)
rb.add(0, "D", targets="X"); rb.add(1, "G", targets="X, Y, Z")
expect([(h[5], h[3][1].damage_mult) for h in hits(rb, st, lib)], [("X", 1.1), ("Y", 1.0), ("Z", 1.0)])
"""),
dict(id="c20-single-precision", property="C20", needs="total damage beyond 2^24 (16.8 million), and hits which decide by a few points",
  breaks="cumulative damage is rounded, so that the boss dies too early or too late",
  edits=[(KT, "np.cumsum(all_damage,axis=0)", "np.cumsum(all_damage, axis=0, dtype=np.float32)")],
  demo="""
from ama_xiv_combat_sim.kill_time_estimator.kill_time_estimator import KillTimeEstimator
lb = Skill(name="LB 3", is_GCD=False, timing_spec=T(), damage_spec=DamageSpec(potency=100))
lib = lib_of([lb]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "LB 3", SkillModifier(with_condition="Exact Damage: 33554432"))
for i in range(5):
    rb.add(10 + i, "LB 3", SkillModifier(with_condition="Exact Damage: 1"))
k = KillTimeEstimator(33554436)
k.add_rotation(rb)
expect(list(k.estimate_kill_time(3, verbose=False)[0]), [13.0] * 3)
"""),
dict(id="c05-whole-potencies", property="C05", needs="a potency that is not a whole number (aoe dropoff)",
  breaks="the report truncates potencies",
  edits=[(DT, "        self.potency = np.zeros(5000)\n", "        self.potency = np.zeros(5000, dtype=int)\n")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec={"": DamageSpec(potency=130)}, has_aoe=True, aoe_dropoff=0.65)
lib = lib_of([g]); st = stats_of()
rb = RotationBuilder(st, lib)
rb.add(0, "G", targets="X, Y")
sim = DamageSimulator(st, hits(rb, st, lib), 1)
expect([round(x.potency, 6) for x in sim.get_per_skill_damage()], [130, 45.5])
"""),
dict(id="c01-remembered-for-other-level", property="C01", needs="the same main stat converted at two levels in one process",
  breaks="attack power remembered from one level is used at another",
  edits=[(SF, "    def fAP(main_stat, is_tank, version, level=90):\n", "    def fAP(main_stat, is_tank, version, level=90, _known={}):\n        key = (float(main_stat), is_tank, version)\n        if key not in _known:\n            _known[key] = StatFns._fAP(main_stat, is_tank, version, level)\n        return _known[key]\n\n    @staticmethod\n    def _fAP(main_stat, is_tank, version, level):\n")],
  demo="""
a = StatFns.fAP(2000, False, "7.1", 90)
b = StatFns.fAP(2000, False, "7.1", 100)
expect(bool(a != b), True)
"""),
dict(id="c11-spent-duration-does-not-refresh", property="C11", needs="a resource with expiry, refreshed by a gain whose own duration has run out",
  breaks="a gain that lapsed no longer counts as the last refresh, so that the rest expires too early",
  edits=[("simulator/trackers/job_resource_tracker.py", "                if resource_spec.refreshes_duration_of_last_gained:\n                    last_refresh_time = start_time\n\n", "                if resource_spec.refreshes_duration_of_last_gained and curr_t <= end_time:\n                    last_refresh_time = start_time\n\n")],
  demo="""
g1 = Skill(name="G1", is_GCD=False, timing_spec=T(), job_resource_spec=(JobResourceSpec(name="R", change=2),))
g2 = Skill(name="G2", is_GCD=False, timing_spec=T(), job_resource_spec=(JobResourceSpec(name="R", change=1, duration=3000, refreshes_duration_of_last_gained=True),))
u = Skill(name="U", is_GCD=False, timing_spec=T(), damage_spec={"": DamageSpec(potency=100), "2 R": DamageSpec(potency=200)})
lib = lib_of([g1, g2, u], resources=[("R", JobResourceSettings(max_value=5, skill_allowlist=("U",), expiry_from_last_gain=10000))]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "G1"); rb.add(8, "G2"); rb.add(15, "U")
h = hits(rb, st, lib)[0]
expect(h[1].get_damage_spec(h[2]).potency, 200)
"""),
dict(id="c23-one-use-too-many", property="C23", needs="a channel with limited uses, and more allowed skills than that",
  breaks="a channel allows one use too many",
  edits=[(CH, "                    if self.__curr_num_uses > 0:", "                    if self.__curr_num_uses >= 0:")],
  demo="""
from ama_xiv_combat_sim.simulator.trackers.channeling_tracker import ChannelingTracker
c = Skill(name="C", channeling_spec=ChannelingSpec(duration=20000, skill_allowlist=("A",), num_uses=2))
a = Skill(name="A")
t = ChannelingTracker()
t.process_channeling(0, c, SkillModifier())
for i in (1000, 2000, 3000, 4000):
    t.process_channeling(i, a, SkillModifier())
t.finalize()
expect(t.get_channeling_windows(), ((0, 2000),))
"""),
dict(id="c21-best-of-distinct-runs", property="C21", needs="looking at the expected maximum of more than a few of the runs",
  breaks="runs are drawn without replacement, which overstates the best of k (and k may not exceed the runs)",
  edits=[(RA, "np.max(np.random.choice(x, k))", "np.max(np.random.choice(x, min(k, len(x)), replace=False))")],
  demo="""
from ama_xiv_combat_sim.rotation_analysis.rotation_analysis_utils import RotationAnalysisUtils as R
np.random.seed(1)
m = R.get_expected_max_in_k_runs([0, 1], 2, 4000)
expect(bool(0.7 < m < 0.8), True)
"""),
dict(id="c12-condition-case", property="C12", needs="conditions which differ in the case of a letter only, or given in another case than the skill names them",
  breaks="conditions are compared regardless of case",
  edits=[(UT, "            if key.issubset(with_condition):\n", "            if {x.lower() for x in key}.issubset({x.lower() for x in with_condition}):\n")],
  demo="""
g = Skill(name="G", damage_spec={"": DamageSpec(potency=100), "Enhanced": DamageSpec(potency=200)})
expect(g.get_damage_spec(SkillModifier(with_condition="enhanced")).potency, 100)
"""),
dict(id="c26-priority-kept-from-previous-job", property="C26", needs="adding a job's data without an effect priority after another job",
  breaks="a job without own effect priorities gets those of the job added before",
  edits=[(SL, "            self.__status_effect_priority[job_name] = tuple()\n", "            self.__status_effect_priority[job_name] = (\n                self.__status_effect_priority.get(self.__current_job_class, tuple())\n            )\n")],
  demo="""
lib = SkillLibrary(version="7.05")
lib.set_current_job_class("WAR"); lib.set_status_effect_priority(("A", "B"))
lib.set_current_job_class("PLD")
expect(lib.get_status_effect_priority("PLD"), ())
"""),
dict(id="c03-forced-hits-use-up-chance", property="C03", needs="a forced critical hit under effects of both player and target raising the chance",
  breaks="only the larger of the two chance-raising effects becomes bonus damage",
  edits=[(CD, "            status_effects[0].crit_rate_add + status_effects[1].crit_rate_add\n", "            max(status_effects[0].crit_rate_add, status_effects[1].crit_rate_add)\n")],
  demo="""
g = Skill(name="G", damage_spec=DamageSpec(potency=500, guaranteed_crit=ForcedCritOrDH.FORCE_YES))
st = stats_of()
f = lambda a, b: float(ComputeDamageUtils.get_base_damage(g, SkillModifier(), st, (StatusEffects(crit_rate_add=a), StatusEffects(crit_rate_add=b))))
expect(f(0.1, 0.1), f(0.2, 0.0))
"""),
dict(id="c13-effects-of-first-auto", property="C13", needs="an effect on auto-attack speed which starts or ends during the fight",
  breaks="effects count for autos only if active strictly before the auto",
  edits=[(RB, "            filter(lambda x: x[0] <= curr_t, speed_status_effects_timeline)", "            filter(lambda x: x[0] < curr_t, speed_status_effects_timeline)")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
b = Skill(name="B", is_GCD=False, timing_spec=T(), buff_spec=StatusEffectSpec(duration=60000, auto_attack_delay_reduction=0.5))
au = Skill(name="Auto", is_GCD=False, timing_spec=T(), damage_spec=DamageSpec(potency=90, damage_class=DamageClass.AUTO))
lib = lib_of([g, b, au]); st = stats_of(weapon_delay=3.0)
rb = RotationBuilder(st, lib, enable_autos=True, fight_start_time=0)
rb.add(0, "G"); rb.add(3, "B"); rb.add(8, "G")
expect([h[0] for h in hits(rb, st, lib) if h[1].name == "Auto"], [0, 3000, 4500, 6000, 7500])
"""),
]
