RB = "simulator/timeline_builders/rotation_builder.py"
DB = "simulator/timeline_builders/damage_builder.py"
SE = "simulator/trackers/status_effect_tracker.py"
JR = "simulator/trackers/job_resource_tracker.py"
CD = "simulator/calcs/compute_damage_utils.py"
DT = "simulator/trackers/damage_tracker.py"
BUGS = [
dict(id="c11-overspending-is-owed", property="C11", needs="a use of a resource that is not there, before later gains",
  breaks="using more of a resource than there is makes later gains smaller",
  edits=[(JR, "                total_resource = max(0, total_resource)\n\n", "\n"), (JR, "            if total_resource > 0:\n                if job", "            total_resource = max(0, total_resource)\n            if total_resource > 0:\n                if job")],
  demo="""
gain = Skill(name="Gain", is_GCD=False, timing_spec=T(), job_resource_spec=(JobResourceSpec(name="R", change=1),))
use = Skill(name="Use", is_GCD=False, timing_spec=T(), job_resource_spec=(JobResourceSpec(name="R", change=-2),))
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec={"": DamageSpec(potency=100), "1 R": DamageSpec(potency=200)})
lib = lib_of([gain, use, g], resources=[("R", JobResourceSettings(max_value=3, skill_allowlist=("G",)))]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "Use"); rb.add(1, "Gain"); rb.add(2, "G")
h = hits(rb, st, lib)[0]
expect(h[1].get_damage_spec(h[2]).potency, 200)
"""),
dict(id="c11-gains-in-order-entered", property="C11", needs="a delayed gain (of a follow-up) entered before an earlier one",
  breaks="resource changes count in the order entered, so that a delayed gain of the future hides later entered ones",
  edits=[(JR, "            self.__resources[job_resource_name].sort(key=lambda x: x[0])\n", "")],
  demo="""
fu = Skill(name="Fu", job_resource_spec=(JobResourceSpec(name="R", change=1),))
a = Skill(name="A", is_GCD=False, timing_spec=T(), follow_up_skills=(FollowUp(skill=fu, delay_after_parent_application=10000),))
gain = Skill(name="Gain", is_GCD=False, timing_spec=T(), job_resource_spec=(JobResourceSpec(name="R", change=1),))
p = Skill(name="P", damage_spec=DamageSpec(potency=200))
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100), follow_up_skills={"": tuple(), "1 R": (FollowUp(skill=p, delay_after_parent_application=0),)})
lib = lib_of([a, gain, g], resources=[("R", JobResourceSettings(max_value=3, skill_allowlist=("G",)))]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "A"); rb.add(1, "Gain"); rb.add(2, "G")
expect(sorted(h[1].name for h in hits(rb, st, lib)), ["G", "P"])
"""),
dict(id="c13-targets-in-order-entered", property="C13", needs="autos, several targets, skills entered in sequence and at given times",
  breaks="autos go to a target that was not the one most recently attacked",
  edits=[(RB, "        timestamps_and_main_target.sort(key=lambda x: x[0])\n", "")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
au = Skill(name="Auto", is_GCD=False, timing_spec=T(), damage_spec=DamageSpec(potency=90, damage_class=DamageClass.AUTO))
lib = lib_of([g, au]); st = stats_of(weapon_delay=3.0)
rb = RotationBuilder(st, lib, enable_autos=True)
for _ in range(6):
    rb.add_next("G", targets="X")
rb.add(1, "G", targets="Y")
t = [h[5] for h in hits(rb, st, lib) if h[1].name == "Auto"]
expect(t, ["X", "X", "X", "X", "X"])
"""),
dict(id="c13-shortest-of-blocking-periods", property="C13", needs="an auto falling in a cast and in a channel at the same time",
  breaks="an auto starts during a channel or cast that is not over",
  edits=[(RB, "            else max(x[1] for x in intersecting_no_auto_periods)            \n", "            else min(x[1] for x in intersecting_no_auto_periods)\n")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
c = Skill(name="C", is_GCD=True, timing_spec=T(cast=1000), channeling_spec=ChannelingSpec(duration=5000))
au = Skill(name="Auto", is_GCD=False, timing_spec=T(), damage_spec=DamageSpec(potency=90, damage_class=DamageClass.AUTO))
lib = lib_of([g, c, au]); st = stats_of(weapon_delay=3.0)
rb = RotationBuilder(st, lib, enable_autos=True)
rb.add(0, "G"); rb.add(2.5, "C"); rb.add(20, "G")
expect([h[0] for h in hits(rb, st, lib) if h[1].name == "Auto"][:3], [0, 7500, 10500])
"""),
dict(id="c15-instant-skills-use-debuffs-of-first-target", property="C15", needs="an instant skill without delay on several targets with different debuffs",
  breaks="every target is hit with the debuffs of the first",
  edits=[(DB, """                    if not isinstance(snapshot_status_use[1], StatusEffects):
                        snapshot_status_use[1], skill_modifier_from_debuffs = (
                            self.se.compile_debuffs(curr_time, skill, target)
""", """                    if not isinstance(snapshot_status_use[1], StatusEffects):
                        snapshot_status_use[1], skill_modifier_from_debuffs = (
                            self.se.compile_debuffs(curr_time, skill, targets[0])
""")],
  demo="""
d = Skill(name="D", is_GCD=False, timing_spec=T(), debuff_spec=StatusEffectSpec(duration=30000, damage_mult=1.5))
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
lib = lib_of([d, g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "D", targets="Y"); rb.add(1, "G", targets="X, Y")
expect([h[3][1].damage_mult for h in hits(rb, st, lib)], [1.0, 1.5])
"""),
dict(id="c15-instant-skills-hit-all-at-once", property="C15", needs="an instant skill without delay on several targets",
  breaks="later targets are hit without delay",
  edits=[(DB, """                        application_time = (
                            curr_time + i * GameConsts.MULTI_TARGET_DELAY_PER_TARGET
                        )  # modify app time?
""", "                        application_time = curr_time\n")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
lib = lib_of([g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(1, "G", targets="X, Y, Z")
expect([h[0] for h in hits(rb, st, lib)], [1000, 1135, 1270])
"""),
dict(id="c18-simultaneous-ticks-compared", property="C18", needs="a dot ticking on two targets at once of which one has a debuff",
  breaks="the simulation stops with an error",
  edits=[(DB, "        q.sort(key=lambda x: (x[0], x[1].name))\n", "        q.sort(key=lambda x: (x[0], x[1].name, x[3]))\n")],
  demo="""
lib = create_skill_library(version="7.05", level=100)
st = stats_of("WHM", healer_or_caster_strength=400)
rb = RotationBuilder(st, lib)
rb.add(0, "Chain Stratagem", job_class="SCH", targets="X")
rb.add(2, "Dia", targets="X"); rb.add(2, "Dia", targets="Y"); rb.add(10, "Glare III")
expect(len(hits(rb, st, lib)) > 10, True)
"""),
dict(id="c07-follow-ups-by-name", property="C07", needs="two follow-ups at the same moment of which the first listed gives a buff the second needs, with names in the other order",
  breaks="simultaneous follow-ups do not happen in the order listed",
  edits=[(RB, "            priority_modifier = i + 1\n", "            priority_modifier = 1\n")],
  demo="""
b = Skill(name="zB", buff_spec=StatusEffectSpec(duration=30000, damage_mult=1.5))
p = Skill(name="aP", damage_spec=DamageSpec(potency=200))
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100), follow_up_skills=(FollowUp(skill=b, delay_after_parent_application=0), FollowUp(skill=p, delay_after_parent_application=0)))
lib = lib_of([g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0); rb.add(0, "G")
expect([h[3][0].damage_mult for h in hits(rb, st, lib) if h[1].name == "aP"], [1.5])
"""),
dict(id="c08-server-ticks-before-start", property="C08", needs="snapping to server ticks, with a dot applied before the given first server tick",
  breaks="a dot applied before the first given server tick ticks between server ticks or too late",
  edits=[(RB, """                        shave_off = (
                            _dot_start_time
                            - 1000 * self.__snap_dots_to_server_tick_starting_at
                        ) % GameConsts.DOT_TICK_INTERVAL
""", """                        shave_off = math.fmod(
                            _dot_start_time
                            - 1000 * self.__snap_dots_to_server_tick_starting_at,
                            GameConsts.DOT_TICK_INTERVAL,
                        )
""")],
  demo="""
d = Skill(name="D", damage_spec=DamageSpec(potency=50, damage_class=DamageClass.PHYSICAL_DOT))
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100), follow_up_skills=(FollowUp(skill=d, delay_after_parent_application=0, dot_duration=12000),))
lib = lib_of([g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0, snap_dots_to_server_tick_starting_at=5.5); rb.add(0, "G")
expect([h[0] for h in hits(rb, st, lib) if h[1].name == "D"], [2500, 5500, 8500, 11500])
"""),
dict(id="c08-tick-at-the-last-event", property="C08", needs="ignoring trailing dots, with a tick at the very moment of the last event",
  breaks="a tick that happens together with the last event is lost",
  edits=[(RB, "                            application_time > last_event_time\n", "                            application_time >= last_event_time\n")],
  demo="""
d = Skill(name="D", damage_spec=DamageSpec(potency=50, damage_class=DamageClass.PHYSICAL_DOT))
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100), follow_up_skills=(FollowUp(skill=d, delay_after_parent_application=0, dot_duration=12000),))
h = Skill(name="H", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
lib = lib_of([g, h]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0, ignore_trailing_dots=True); rb.add(0, "G"); rb.add(6, "H")
expect([h[0] for h in hits(rb, st, lib) if h[1].name == "D"], [0, 3000, 6000])
"""),
dict(id="c14-first-window-decides", property="C14", needs="a window for one kind of damage overlapping one for all damage",
  breaks="a hit in a window for all damage survives if a window for another kind of damage listed before covers it too",
  edits=[(RB, """            is_filtered_damage_type = (r[2] is None) or (r[2] == damage_class)
            if (r[0] <= t < r[1]) and is_filtered_damage_type:
                return True
""", """            if r[0] <= t < r[1]:
                return (r[2] is None) or (r[2] == damage_class)
""")],
  demo="""
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
lib = lib_of([g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0, downtime_windows=((0, 10, DamageClass.AUTO), (4, 6)))
rb.add(1, "G"); rb.add(5, "G"); rb.add(8, "G")
expect([h[0] for h in hits(rb, st, lib)], [1000, 8000])
"""),
dict(id="c19-printed-times-rounded", property="C19", needs="press times that are not whole hundredths of a second",
  breaks="printed press times are rounded to 10 ms",
  edits=[(RB, '            print(f"{tmp[0] / 1000}, {tmp[1]}', '            print(f"{tmp[0] / 1000:.2f}, {tmp[1]}')],
  demo="""
import io, contextlib
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
lib = lib_of([g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0); rb.add(1.237, "G"); rb.get_skill_timing()
f = io.StringIO()
with contextlib.redirect_stdout(f):
    rb.print_button_press_timings_as_csv()
expect(float(f.getvalue().split("\\n")[1].split(",")[0]), 1.237)
"""),
dict(id="c06-negative-cast", property="C06", needs="a flat cast time reduction longer than the cast",
  breaks="the next skill is pressed before this one's animation lock is over",
  edits=[(RB, "        cast_time = max(0, cast_time)\n", "")],
  demo="""
b = Skill(name="B", is_GCD=False, timing_spec=T(), buff_spec=StatusEffectSpec(duration=30000, flat_cast_time_reduction=3000))
c = Skill(name="C", is_GCD=True, timing_spec=T(cast=2000, lock=650, recast=500), damage_spec=DamageSpec(potency=100))
g = Skill(name="G", is_GCD=False, timing_spec=T(lock=650), damage_spec=DamageSpec(potency=100))
lib = lib_of([b, c, g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
for n in "BCG":
    rb.add_next(n)
rb.get_skill_timing()
expect([p[0] for p in rb.get_button_press_timing()], [0, 0, 650])
"""),
dict(id="c09-extend-beyond-cap", property="C09", needs="an effect extended beyond its maximal duration after part of it has passed",
  breaks="the cap counts from the start of the effect instead of from now",
  edits=[(SE, """                new_duration = min(
                    status_effect_spec.max_duration,
                    time_left + status_effect_spec.duration,
                )
""", """                new_duration = min(
                    status_effect_spec.max_duration - (start_time - prev_start_time),
                    time_left + status_effect_spec.duration,
                )
""")],
  demo="""
a = Skill(name="A", is_GCD=False, timing_spec=T(), buff_spec=StatusEffectSpec(duration=30000, max_duration=60000, damage_mult=1.5))
g = Skill(name="G", is_GCD=True, timing_spec=T(), damage_spec=DamageSpec(potency=100))
lib = lib_of([a, g]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "A"); rb.add(10, "A"); rb.add(20, "A"); rb.add(75, "G")
expect([h[3][0].damage_mult for h in hits(rb, st, lib)], [1.5])
"""),
dict(id="c10-break-of-unused-group", property="C10", needs="a combo group broken by a skill that belongs to two groups",
  breaks="only the first matching group is interrupted",
  edits=[("simulator/trackers/combo_tracker.py", """      if combo_spec.combo_group in breakers:
        self.last_combo_skill_used[combo_group_to_be_broken] = (-math.inf, None)
""", """      if combo_spec.combo_group in breakers:
        self.last_combo_skill_used[combo_group_to_be_broken] = (-math.inf, None)
        break
""")],
  demo="""
a = Skill(name="A", is_GCD=True, timing_spec=T(), combo_spec=(ComboSpec(combo_group=1),), damage_spec=DamageSpec(potency=100))
b = Skill(name="B", is_GCD=True, timing_spec=T(), combo_spec=(ComboSpec(combo_group=1, combo_actions=("A",)),), damage_spec={"": DamageSpec(potency=200), "No Combo": DamageSpec(potency=100)})
x = Skill(name="X", is_GCD=True, timing_spec=T(), combo_spec=(ComboSpec(combo_group=2),), damage_spec=DamageSpec(potency=100))
lib = lib_of([a, b, x], breakers=[(0, (2,)), (1, (2,))]); st = stats_of()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "A"); rb.add(1, "X"); rb.add(2, "B")
h = hits(rb, st, lib)[-1]
expect(h[1].get_damage_spec(h[2]).potency, 100)
"""),
]
