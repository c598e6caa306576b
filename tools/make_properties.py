"""Writes properties.jsonl (kept as code so that statements and anchors are easy to edit)."""
import json, os
S = "ama_xiv_combat_sim/simulator/"
TB = S + "timeline_builders/"
TR = S + "trackers/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=state or [], observe_at=observe, hook_needed=None)))

prop("C01", "Character stats convert to rates, multipliers and times by the game formulas",
     "For every supported patch and level, each stat value (crit, direct hit, determination, tenacity, speed, main stat, weapon damage, weapon delay) converts to its rate, bonus, multiplier or speed-scaled time exactly as the published floored linear formula with that level's constants says. The job-dependent numbers derived with them (job modifier, damage trait, haste trait, auto-attack trait, default weapon delay) are the ones of the given job, level and patch.",
     ["inputs", "configurations"], "every stat value at every supported patch, level and job, and every base time",
     "Tests pin a few dozen stat values; tier boundaries, levels and the thousands of other values are never evaluated.",
     [S+"calcs/stat_fns.py", S+"processed_stats.py", S+"stats.py", S+"game_data/game_consts.py", S+"game_data/job_class_fns.py"],
     [("StatFns", S+"calcs/stat_fns.py"), ("ProcessedStats", S+"processed_stats.py"), ("JobClassFns", S+"game_data/job_class_fns.py")],
     ["StatFns.*", "Stats(...).processed_stats"])
prop("C02", "Average damage of a hit follows the damage formula for any job and buffs",
     "For every job, damage kind (direct, magical or physical damage over time, auto-attack, pet), potency, stats, party composition, conditional bonus and combination of active effects, the pre-variance damage of a hit equals the game's damage formula with every intermediate truncation in its documented place. A hit of zero potency deals zero, and any other hit deals at least one.",
     ["inputs", "configurations"], "every job, damage kind, potency, stat block and pair of buff/debuff snapshots",
     "Tests check a few hundred fixed potencies and stat blocks; formula branches interact with effects only for the sampled combinations.",
     [S+"calcs/compute_damage_utils.py", S+"calcs/stat_fns.py"],
     [("ComputeDamageUtils.get_base_damage", S+"calcs/compute_damage_utils.py")],
     ["ComputeDamageUtils.get_base_damage", "DamageSimulator.get_damage_ranges"])
prop("C03", "Crit and direct hit chances, including forced outcomes, are right",
     "The chance of a critical or direct hit is the one given by the stats plus that of all active effects, never outside [0, 1], and exactly 1 or 0 when the skill, the use of the skill or an active effect forces it. When an outcome is forced, chance-raising effects are turned into the documented bonus damage instead (and determination-with-direct-hit scaling for forced direct hits). Contradictory forcing is rejected rather than silently resolved.",
     ["inputs", "configurations"], "every combination of forced flags across skill, use, buff and debuff, with any rate increases",
     "4 sources x 3 flags for two rolls and any rates: tests sample a handful of the combinations.",
     [S+"calcs/compute_damage_utils.py"],
     [("compute_crit_rates_and_bonuses", S+"calcs/compute_damage_utils.py"), ("get_guaranteed_dh_and_crit_bonus_dmg", S+"calcs/compute_damage_utils.py")],
     ["ComputeDamageUtils.compute_crit_rates_and_bonuses", "DamageSimulator.get_crit_and_dh_rates"])
prop("C04", "Sampled damage has the specified distribution",
     "Every sampled damage value is one the game could roll for that hit: a uniform roll of 95% to 105% of the average, then the critical, direct-hit, trait and effect multipliers with truncation after each, consistent with the reported critical/direct-hit status of that very sample. Over many samples the roll is uniform, the critical and direct-hit frequencies match their chances, and rolls of different kinds, hits and samples are independent. Total damage of a sample is the sum over its hits, and damage per second divides it by the time between first and last hit.",
     ["inputs", "schedules"], "every list of damage instances and every random stream",
     "Sampling is random: tests only compare averages with loose tolerances.",
     [TR+"damage_tracker.py", S+"damage_simulator.py"],
     [("DamageTracker.compute_damage", TR+"damage_tracker.py"), ("DamageSimulator", S+"damage_simulator.py")],
     ["DamageSimulator.get_damage_matrix", "get_crit_status", "get_dh_status", "get_raw_damage", "get_dps"])
prop("C05", "Expected damage, variance, ranges and reports agree with the instances",
     "For every hit the reported four outcome ranges, their probabilities (summing to 1), the expected damage and the variance are those implied by its average damage, chances and multipliers, and totals are the sums over hits. Each row of the per-hit report describes one and the same hit: its time, snapshot time, skill, potency, conditions, effects, target, damage kind and expectation belong together, in time order, for any number of hits including none.",
     ["inputs", "histories"], "every list of damage instances of any length, in any order",
     "Tests look at short fixed lists; alignment and totals for arbitrary mixes, ties and long lists are not covered.",
     [S+"damage_simulator.py", TR+"damage_tracker.py"],
     [("get_per_skill_damage", S+"damage_simulator.py"), ("get_damage_ranges_and_probabilities", TR+"damage_tracker.py")],
     ["DamageSimulator.get_damage_ranges", "get_expected_damage*", "get_*variance*", "get_per_skill_damage"])
prop("C06", "A sequence of skills is pressed as early as the game allows, never earlier",
     "When skills are given in order without times, each is pressed at the earliest moment allowed: after the cast and animation lock of the previous one and, for skills on the global cooldown, after the previous one's recast. Recast and cast times follow the speed stat, haste effects and traits (truncated to 10 ms), flat reductions and the minimum recast, using the effects active at the press, and the reported press times are exactly these.",
     ["histories", "inputs"], "every sequence of skills, stats, haste effects and traits",
     "Sequences are unbounded and effects interact with later presses; tests replay some fixed openers.",
     [TB+"rotation_builder.py", S+"calcs/stat_fns.py"],
     [("__process_q_sequence / __get_cast_time", TB+"rotation_builder.py")],
     ["RotationBuilder.get_skill_timing", "RotationBuilder.get_button_press_timing"])
prop("C07", "Skills snapshot and apply at the right moments, follow-ups included",
     "Every pressed skill snapshots half a second before its cast finishes (immediately if it is instant) and applies when its cast has finished and its application delay, counted from half a second before a cast's end, has passed, honouring requests to ignore either; every follow-up hit applies its own delay after its parent does and snapshots with the parent or on its own as specified. Follow-ups run after their parent and in the order listed, each press yields exactly the hits its conditions call for, and skills pressed at given times use exactly these times whatever order they were entered in.",
     ["histories", "inputs"], "every timed or sequential rotation over skills with any cast, delay and follow-up structure",
     "Interactions of casts, delays, buffs changing casts, and follow-ups are exercised for single fixed skills only.",
     [TB+"rotation_builder.py", TB+"snapshot_and_application_events.py", TB+"damage_builder.py"],
     [("__process_skill", TB+"rotation_builder.py"), ("_process_follow_up_skills", TB+"rotation_builder.py")],
     ["RotationBuilder.get_skill_timing", "DamageBuilder.get_damage_instances"])
prop("C08", "Damage over time ticks exactly when it should, per target and application",
     "A damage-over-time effect ticks every 3 s from its application (or from the next server tick when snapping is on) until it runs out or is applied again (by any skill) to the same target, so that at no time more than one application of it ticks on a target. Each tick uses the effects snapshotted by the application it belongs to, and when trailing ticks are ignored no tick happens after the last other event.",
     ["histories", "inputs"], "every history of overlapping applications on any targets, any server tick offset",
     "Overlap, refresh, snapping and trimming combine over arbitrary histories; tests hold about a dozen.",
     [TB+"rotation_builder.py"],
     [("__process_all_dots / __get_consolidated_dot_timing", TB+"rotation_builder.py")],
     ["RotationBuilder.get_skill_timing", "DamageBuilder.get_damage_instances"])
prop("C09", "Each hit is affected by exactly the buffs and debuffs active at its snapshot",
     "The combined effect applied to a hit consists of exactly the buffs on the player and debuffs on the hit target active at its snapshot: started, not yet run out (inclusive), uses left, not replaced or ended by another skill, applicable to this skill, and highest in priority among exclusive ones. Reapplication extends, refreshes or stacks up to the stated caps, limited-use effects are used up one per skill affected, and effects of one target never leak to another.",
     ["histories", "inputs"], "every history of effect applications, expiries, uses and hits on any targets",
     "Histories are unbounded; tests cover each feature alone on short fixed histories.",
     [TR+"status_effect_tracker.py", TR+"status_effects.py", TB+"damage_builder.py", S+"specs/status_effect_spec.py"],
     [("StatusEffectTracker", TR+"status_effect_tracker.py"), ("DamageBuilder.get_damage_instances", TB+"damage_builder.py")],
     ["StatusEffectTracker.compile_buffs/compile_debuffs", "DamageBuilder.get_damage_instances"])
prop("C10", "Combo bonuses are granted exactly when the combo is alive",
     "A combo skill counts as comboed exactly when the required predecessor was the last successful skill of that combo group, at most 30 s ago and not interrupted, or when the combo is forced or needs no predecessor; a failed or interrupted combo starts over, independently per combo group and according to the job's list of which groups interrupt which.",
     ["histories"], "every history of combo skills, groups, breakers and times",
     "All interleavings of combo groups, breakers and expiries; tests hold a few of them.",
     [TR+"combo_tracker.py", S+"specs/combo_spec.py", TB+"damage_builder.py"],
     [("ComboTracker", TR+"combo_tracker.py")],
     ["ComboTracker.compile_and_update_combo", "DamageBuilder.get_damage_instances"])
prop("C11", "Job resources add up, cap, expire and condition skills correctly",
     "At any time a resource's amount is the result of all gains and uses so far in time order, kept between zero and its cap, with individual gains lapsing after their duration and the whole resource after its expiry since the last refresh. Exactly the skills that depend on a resource see it as a condition, with its current amount when amounts matter, and events of the future or of other resources have no influence.",
     ["histories"], "every history of gains, uses, clears and queries in any order",
     "Arbitrary gain/use/expiry histories; tests hold about five short ones.",
     [TR+"job_resource_tracker.py", S+"specs/job_resource_spec.py", S+"specs/job_resource_settings.py"],
     [("JobResourceTracker", TR+"job_resource_tracker.py")],
     ["JobResourceTracker.compile_job_resources", "DamageBuilder.get_damage_instances"])
prop("C12", "Conditional skill data resolves to the most specific matching condition",
     "Whenever a skill's damage, timing, buff, debuff, follow-ups, combo, resource or channeling data depends on conditions, the variant used is the one whose conditions all hold and which names the most of them, falling back to the unconditional one. The outcome does not depend on the order or spacing in which the active conditions were given, nor on conditions the skill does not mention.",
     ["inputs", "configurations"], "every set of condition variants and every set of active conditions",
     "Exponentially many condition sets; tests hold under ten.",
     [S+"utils.py", S+"skills/skill.py", S+"skills/skill_modifier.py"],
     [("Utils.get_best_key", S+"utils.py"), ("Skill.get_*_spec", S+"skills/skill.py")],
     ["Skill.get_damage_spec", "Skill.get_timing_spec", "Skill.get_buff_spec", "Skill.get_debuff_spec", "Skill.get_follow_up_skills", "Skill.get_combo_spec", "Skill.get_job_resource_spec", "Skill.get_channeling_spec"])
prop("C13", "Auto-attacks happen at the right times on the right target",
     "With auto-attacks enabled they start with the first damage, repeat after the weapon delay scaled by the auto-attack speed trait and the effects active at each auto (truncated to 10 ms), and stop with the last event; any later one that would happen during a timed cast, a channel, or downtime of the attacked target starts only when that ends. Each goes to the main target of the latest press, with the job's own auto-attack, and nothing else in the rotation changes because autos are enabled.",
     ["histories", "inputs"], "every rotation, weapon delay, speed effects, casts, channels, downtime and target switches",
     "Auto timing depends on the whole rotation; tests hold about ten fixed ones.",
     [TB+"rotation_builder.py", TR+"channeling_tracker.py"],
     [("__add_autos / get_no_auto_periods / forward_to_next_non_downtime_time", TB+"rotation_builder.py")],
     ["RotationBuilder.get_skill_timing"])
prop("C14", "No damage lands during downtime, and nothing else is lost",
     "A hit is removed exactly when its snapshot or its application lies in a downtime window (start included, end excluded) that applies to its target and its kind of damage; all other hits stay, with times and effects unchanged (of several targets of a skill, the first one left counts as the first). Windows count from the first damage unless a fight start is given, are never changed on the caller's side, and hold for every target of the rotation when given without targets.",
     ["inputs", "histories"], "every rotation and every set of windows per target and damage kind",
     "Boundary coincidences of windows with snapshots and applications over arbitrary rotations; tests hold six cases.",
     [TB+"rotation_builder.py"],
     [("remove_damage_during_downtime", TB+"rotation_builder.py"), ("__init_downtime_windows", TB+"rotation_builder.py")],
     ["RotationBuilder.get_skill_timing", "DamageBuilder.get_damage_instances"])
prop("C15", "A skill on several targets hits each once, in order, with its dropoff",
     "A skill used on several targets hits every one of them exactly once, in the order given, each 135 ms after the previous, with the debuffs of that target only and, from the second target on, the skill's reduced potency. Follow-up hits restricted to the primary target hit only that one, all others and damage over time hit every target, and using a skill on one target is the same as using it without multi-target handling.",
     ["inputs", "histories"], "every rotation with any number of targets per skill",
     "Tests use at most three targets for selected skills.",
     [TB+"damage_builder.py", TB+"rotation_builder.py", S+"skills/skill.py"],
     [("DamageBuilder.get_damage_instances", TB+"damage_builder.py"), ("__process_aoe_dropoff", S+"skills/skill.py")],
     ["DamageBuilder.get_damage_instances"])
prop("C16", "Building a timeline is repeatable and leaves its inputs untouched",
     "Building the timeline and damage of a rotation any number of times, interleaved with adding more skills, with building other rotations or with simulating, always gives what a freshly made identical rotation gives. Skills entered at given times may be entered in any order, and neither the skills, stats, libraries, modifiers nor options passed in are changed.",
     ["histories"], "every interleaving of adding skills, building, simulating and reading, over several rotations",
     "Needs arbitrary interleavings of calls on shared objects; tests build each rotation once.",
     [TB+"rotation_builder.py", TB+"damage_builder.py", S+"damage_simulator.py", S+"skills/skill_library.py"],
     [("get_skill_timing resets its queues", TB+"rotation_builder.py"), ("deep copies of inputs", TB+"rotation_builder.py")],
     ["RotationBuilder.get_skill_timing", "RotationBuilder.get_button_press_timing", "DamageSimulator.get_per_skill_damage"])
prop("C17", "A patch and level select that patch's skills and numbers",
     "A skill library made for a supported patch (6.55, 7.0, 7.01, and any from 7.05 on) and level has exactly the jobs, skills and numbers (potencies, times, effects, combos, resources, follow-ups, conditions) of the newest data not newer than that patch at that level, whatever libraries were made before or after it in the same process. Generic skills (potions, waits, death and weakness, limit breaks) are available to every job with the numbers of that patch and level.",
     ["configurations", "histories"], "every patch, level, job, skill and condition, and every order of creating libraries",
     "About 5000 skill/patch combinations with many conditions each; tests sample potencies of part of them, one library per process.",
     [S+"game_data/specific_skills.py", S+"skills/create_skill_library.py", S+"game_data/class_skills", S+"game_data/generic_skills", S+"utils.py"],
     [("SpecificSkills.get_skill_data", S+"game_data/specific_skills.py"), ("create_skill_library", S+"skills/create_skill_library.py")],
     ["create_skill_library", "SkillLibrary.get_skill"])
prop("C18", "Any rotation of real skills simulates without error to sane numbers",
     "Any rotation of existing skills (usable in the game where they are used) of any job, patch and level, with any stats, targets, options and party members' skills, is simulated without error, and gives hits in time order with non-negative finite damage, chances within [0, 1] and positive durations. Raising the weapon damage or main stat never lowers the expected damage of any hit.",
     ["inputs", "histories", "configurations"], "every rotation over the real library",
     "The space of rotations is unbounded; tests run one example rotation per job and single skills.",
     [TB+"rotation_builder.py", TB+"damage_builder.py", S+"damage_simulator.py", S+"game_data/class_skills"],
     [("whole pipeline", TB+"rotation_builder.py")],
     ["RotationBuilder", "DamageBuilder", "DamageSimulator"])
prop("C19", "Rotations imported from or exported to CSV keep every press",
     "Reading a rotation file yields one press per row, in order, with its time, skill, job, condition and targets as written (column names in any case, targets optional, empty fields meaning the defaults), and gives the same timeline as entering these presses by hand. Press times printed by the simulator and read back give the same presses (skill, job and conditions) at the same times to the millisecond.",
     ["inputs"], "every rotation file with valid content and every built rotation",
     "The two CSV tests read one fixed file (and cannot even find it here).",
     [S+"rotation_import_utils/csv_utils.py", TB+"rotation_builder.py"],
     [("CSVUtils.populate_rotation_from_csv", S+"rotation_import_utils/csv_utils.py"), ("print_button_press_timings_as_csv", TB+"rotation_builder.py")],
     ["CSVUtils.read_rotation_from_csv", "CSVUtils.populate_rotation_from_csv", "RotationBuilder.print_button_press_timings_as_csv"])
prop("C20", "Kill times are the first moments cumulative damage reaches the boss's HP",
     "For any set of rotations and boss HP, the kill time of each sample is the time of the first hit at which the damage of all rotations together, in time order, reaches the HP, and samples which never reach it are reported as missing at the end. Limit breaks count with the exact or average damage stated for them, whatever other conditions are given, and one result per requested sample is returned.",
     ["inputs", "schedules"], "every set of rotations, HP, sample count and random stream",
     "One test with two fixed rotations.",
     ["ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py"],
     [("KillTimeEstimator.estimate_kill_time", "ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py")],
     ["KillTimeEstimator.estimate_kill_time", "KillTimeEstimator.get_lb_damage"])
prop("C21", "Rotation analysis sums exactly the damage snapshotted by each time",
     "Damage by a timestamp is the expected damage of exactly the hits snapshotted at or before it, the interval report lists every multiple of the interval before the last snapshot and finally the last snapshot with such sums, which never decrease and end at the total. The expected best of k runs lies within the given results and is, up to sampling error, the expected maximum of k of them drawn independently.",
     ["inputs"], "every per-hit report, timestamp, interval, sample list and k",
     "There are no tests of it.",
     ["ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py"],
     [("RotationAnalysisUtils", "ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py")],
     ["RotationAnalysisUtils.*"])
prop("C22", "Logged bonus percentages identify missed positionals and combos correctly",
     "For every skill with a positional variant and every combination of combo and positional hit or missed, the bonus percentage that combination gives resolves to conditions with the potency of that combination, keeping all conditions given before. Percentages no combination gives are reported and leave the conditions alone, and without a percentage nothing is inferred.",
     ["inputs", "configurations"], "every positional skill of every patch and synthetic potencies, every condition set and percentage",
     "Tests hold a few of the skills and percentages.",
     [S+"utils.py"],
     [("Utils.get_positional_condition", S+"utils.py")],
     ["Utils.get_positional_condition", "DamageBuilder.get_damage_instances"])
prop("C23", "Channeling windows start, survive and end with exactly the right presses",
     "A channel starts with the skill that channels and ends at the first later press that is neither allowed during it nor a wait, when its allowed uses run out, or after its duration, whichever comes first; a new channel ends the previous one. The reported windows are these, in order, one per channel started and never overlapping.",
     ["histories"], "every history of presses with channels, allowed skills, waits and times",
     "About eight fixed short histories are tested.",
     [TR+"channeling_tracker.py", S+"specs/channeling_spec.py"],
     [("ChannelingTracker", TR+"channeling_tracker.py")],
     ["ChannelingTracker.get_channeling_windows", "RotationBuilder.get_no_auto_periods"])
prop("C24", "Example rotations are those valid for the library and build as specified",
     "The example rotations offered for a skill library are exactly those whose level matches and whose patch range includes the library's patch, each built with its own stats at that level and patch, its skills in order and its party skills at their times, once each. Every one of them simulates to positive damage, whatever other libraries' examples were made before.",
     ["configurations", "histories"], "every patch, level and order of requests",
     "There are no tests of it.",
     ["ama_xiv_combat_sim/example_rotations"],
     [("SpecificRotations", "ama_xiv_combat_sim/example_rotations/specific_rotations.py"), ("ExampleRotationUtils", "ama_xiv_combat_sim/example_rotations/example_rotation_utils.py")],
     ["get_example_rotations"])
prop("C25", "The fight clock starts with the first damage",
     "Unless a fight start is given, all times are moved together so that the earliest damage (follow-ups, ticks and autos included) applies at exactly zero, with all differences between presses, snapshots and applications, and all effects on hits, kept; delaying the whole rotation changes nothing. With a fight start given, times are reported as entered.",
     ["histories", "inputs"], "every rotation and every overall delay",
     "Shift invariance over arbitrary rotations; tests compare fixed times only.",
     [TB+"rotation_builder.py", TB+"snapshot_and_application_events.py"],
     [("shift_timelines_for_first_damage_instance", TB+"rotation_builder.py"), ("get_first_damage_time", TB+"snapshot_and_application_events.py")],
     ["RotationBuilder.get_skill_timing", "RotationBuilder.get_button_press_timing"])
prop("C26", "A skill library stores and returns exactly what was added, per job",
     "After any history of additions, looking up a skill, the jobs, the resources, the effect priorities or the combo interrupters of a job returns exactly what was last added for that job, jobs never see each other's data, unknown names are rejected with a lookup error and duplicates are refused. Changing what was returned never changes the library, and a skill's summary flags about (party) buffs and debuffs tell whether it or any of its follow-ups has one.",
     ["histories"], "every history of library additions and lookups, every skill",
     "Tests cover one lookup and one duplicate.",
     [S+"skills/skill_library.py", S+"skills/skill.py"],
     [("SkillLibrary", S+"skills/skill_library.py"), ("Skill.__post_init__", S+"skills/skill.py")],
     ["SkillLibrary.*", "Skill.has_buff", "Skill.has_debuff", "Skill.has_party_buff", "Skill.has_party_debuff"])
prop("C27", "Malformed skills and calls are refused, well-formed ones kept exactly",
     "A specification (timing, status effect, channel, combo, damage, follow-up, resource, skill) keeps every value it was given and has the documented default for every other, and cannot be assigned to afterwards. Malformed ones are refused when made: times which are no integer milliseconds, negative follow-up delays, lists or strings where a tuple belongs, parts of the wrong kind. A refused call (targets given as a tuple, unknown skill or job, malformed priority or combo interrupter) leaves rotation and library as if it had not been made; autos of a healer or caster without strength, resources the job does not have and limit breaks without a stated damage are refused instead of giving a number.",
     ["inputs", "histories"], "every combination of fields of every specification, every history with refused calls in it",
     "Tests build a few well-formed specifications only; that nothing is silently accepted or lost is a statement about all fields and values.",
     [S+"specs/*.py", S+"skills/skill.py", S+"skills/skill_library.py", TB+"rotation_builder.py"],
     [("TimingSpec", S+"specs/timing_spec.py"), ("StatusEffectSpec", S+"specs/status_effect_spec.py"), ("Skill.__post_init__", S+"skills/skill.py"), ("process_and_check_targets", TB+"rotation_builder.py")],
     ["TimingSpec", "StatusEffectSpec", "ChannelingSpec", "ComboSpec", "DamageSpec", "FollowUp", "JobResourceSpec", "JobResourceSettings", "Skill", "RotationBuilder.add", "RotationBuilder.add_next"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
