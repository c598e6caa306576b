From d1f72140c8d42f22a19cd06867cde2bd870336b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:58 +0000
Subject: [PATCH 01/42] fix: do not modify the caller's downtime_windows dict
 in RotationBuilder

---
 .../simulator/timeline_builders/rotation_builder.py      | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index a5b614d..e4403e3 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -97,10 +97,11 @@ class RotationBuilder:
                 downtime_windows
             )
         else:
-            for target, downtime_windows_use in downtime_windows.items():
-                downtime_windows[target] = RotationBuilder.__do_init_downtime_windows(
-                    downtime_windows_use
-                )
+            # make a new dict, so that the one given by the caller is left untouched.
+            downtime_windows = {
+                target: RotationBuilder.__do_init_downtime_windows(downtime_windows_use)
+                for target, downtime_windows_use in downtime_windows.items()
+            }
         return downtime_windows
 
     def __process_downtime_windows(self):
-- 
2.43.0


From 441b5725af699661326821cf9e0888420700d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:07 +0000
Subject: [PATCH 02/42] fix: apply downtime windows to targets added after the
 first get_skill_timing

---
 .../simulator/timeline_builders/rotation_builder.py      | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index e4403e3..086c050 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -69,9 +69,10 @@ class RotationBuilder:
             default_target, str
         ), "Default target should be a string- did you accidentally make it a tuple?"
 
-        self.__downtime_windows = RotationBuilder.__init_downtime_windows(
+        self.__init_downtime_windows_ms = RotationBuilder.__init_downtime_windows(
             downtime_windows
         )
+        self.__downtime_windows = {}
         self.__default_target = default_target
         self.__all_targets = set()
 
@@ -105,11 +106,13 @@ class RotationBuilder:
         return downtime_windows
 
     def __process_downtime_windows(self):
-        if isinstance(self.__downtime_windows, tuple):
+        if isinstance(self.__init_downtime_windows_ms, tuple):
             res = {}
             for k in self.__all_targets:
-                res[k] = self.__downtime_windows
+                res[k] = self.__init_downtime_windows_ms
             self.__downtime_windows = res
+        else:
+            self.__downtime_windows = self.__init_downtime_windows_ms
 
     def get_button_press_timing(self):
         res = copy.deepcopy(self.__q_button_press_timing)
-- 
2.43.0


From f38f7c20b7e84decf6d6c34404b9dde2498f7a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:17 +0000
Subject: [PATCH 03/42] fix: forget dots and auto targets of the previous
 get_skill_timing call

---
 .../simulator/timeline_builders/rotation_builder.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 086c050..addceae 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -766,6 +766,8 @@ class RotationBuilder:
 
         self._q_snapshot_and_applications = SnapshotAndApplicationEvents()
         self.__q_button_press_timing.clear()
+        self._q_dot_skills.clear()
+        self.__timestamps_and_main_target.clear()
         self.__process_q_sequence()
         self.__process_q_timed()
 
-- 
2.43.0


From 7189be63228c72adc3cab2bb231580e97d56982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:01 +0000
Subject: [PATCH 04/42] fix: order skills pressed at the same time without
 comparing their specs

---
 .../simulator/timeline_builders/rotation_builder.py   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index addceae..b37be94 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -1,5 +1,4 @@
 import copy
-import heapq
 import math
 
 from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
@@ -483,9 +482,9 @@ class RotationBuilder:
         )
 
         q = copy.deepcopy(self._q_timed)
-        q.sort(key=lambda x: x[0])
-        while len(q) > 0:
-            (curr_t, skill, skill_modifier, job_class, targets) = heapq.heappop(q)
+        # stable sort: by time, then by name (see also SnapshotAndApplicationEvents.Event).
+        q.sort(key=lambda x: (x[0], x[1].name))
+        for curr_t, skill, skill_modifier, job_class, targets in q:
             self.__q_button_press_timing.append(
                 [
                     curr_t,
@@ -855,8 +854,8 @@ class RotationBuilder:
             self._skill_library.get_all_combo_breakers(self.__stats.job_class)
         )
 
-        while len(q) > 0:
-            (t, skill, skill_modifier, _, _) = heapq.heappop(q)
+        q.sort(key=lambda x: (x[0], x[1].name))
+        for t, skill, skill_modifier, _, _ in q:
             se_tracker.expire_status_effects(t)
             c_tracker.process_channeling(t, skill, skill_modifier)
             curr_buffs_and_skill_modifier = se_tracker.compile_buffs(t, skill)
-- 
2.43.0


From 84cc4de9a81874617f696a4a4fe33265094a3e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:09 +0000
Subject: [PATCH 05/42] fix: ignore trailing dots even when the last event is
 at time 0

---
 .../simulator/timeline_builders/rotation_builder.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index b37be94..7cafc25 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -393,7 +393,9 @@ class RotationBuilder:
                     for application_time in range(
                         dot_start_time, dot_end_time, GameConsts.DOT_TICK_INTERVAL
                     ):
-                        if (last_event_time) and (application_time > last_event_time):
+                        if (last_event_time is not None) and (
+                            application_time > last_event_time
+                        ):
                             continue
                         priority = Utils.transform_time_to_prio(
                             parent_snapshot_time
-- 
2.43.0


From 4aad705495156286a56f8205828977fd32b1b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:48 +0000
Subject: [PATCH 06/42] fix: use the conditions of a speed effect, and the auto
 itself, when timing autos

---
 .../simulator/timeline_builders/rotation_builder.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 7cafc25..f1d3794 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -816,7 +816,7 @@ class RotationBuilder:
                 if event_times.secondary is not None
                 else event_times.primary
             )
-            res.append((application_time, skill))
+            res.append((application_time, skill, skill_modifier))
         res.sort(key=lambda x: x[0])
         return res
 
@@ -831,10 +831,10 @@ class RotationBuilder:
             self._skill_library.get_all_resource_settings(self.__stats.job_class)
         )
 
-        for t, skill in applicable_status_effect_events:
+        for t, se_skill, se_skill_modifier in applicable_status_effect_events:
             se_tracker.expire_status_effects(t)
-            se_tracker.add_to_status_effects(t, skill, skill_modifier, targets)
-            job_resource_tracker.add_resource(t, skill, skill_modifier)
+            se_tracker.add_to_status_effects(t, se_skill, se_skill_modifier, targets)
+            job_resource_tracker.add_resource(t, se_skill, se_skill_modifier)
 
         se_tracker.expire_status_effects(curr_t)
         curr_buffs_and_skill_modifier = se_tracker.compile_buffs(curr_t, skill)
-- 
2.43.0


From 4f7ce70c42700cc2aebc0a19d6c6707d11ef5196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:56 +0000
Subject: [PATCH 07/42] fix: process follow ups applied at the same time in the
 order given

---
 .../simulator/timeline_builders/damage_builder.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 60fc805..4eefa18 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -135,8 +135,8 @@ class DamageBuilder:
                     )
                     skill_modifier.add_to_condition(skill_modifier_from_buffs)
 
-                priority_modifier = (
-                    Utils.transform_time_to_prio(event_times.primary) - priority
+                priority_modifier = priority - Utils.transform_time_to_prio(
+                    event_times.primary
                 )
                 new_priority = (
                     Utils.transform_time_to_prio(event_times.secondary)
-- 
2.43.0


From efd5f76f484b21a005575ffdcde48ee6361bd320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:04 +0000
Subject: [PATCH 08/42] fix: round times given in seconds to the nearest ms
 instead of truncating

---
 .../simulator/timeline_builders/rotation_builder.py         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index f1d3794..52bbb8b 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -178,7 +178,9 @@ class RotationBuilder:
         skill = self._skill_library.get_skill(skill_name, job_class)
         if skill_modifier is None:
             skill_modifier = self.get_default_skill_modifier(skill, job_class)            
-        self._q_timed.append((int(1000 * t), skill, skill_modifier, job_class, targets))
+        self._q_timed.append(
+            (int(round(1000 * t)), skill, skill_modifier, job_class, targets)
+        )
 
     @staticmethod
     def __follow_up_is_dot(follow_up_skill):
@@ -937,7 +939,7 @@ class RotationBuilder:
         timestamps_and_main_target.sort(key=lambda x: x[0])
         timestamps_and_main_target = shorten_sequence(timestamps_and_main_target)
                 
-        weapon_delay = int(1000 * self.__stats.weapon_delay)  # convert to ms
+        weapon_delay = int(round(1000 * self.__stats.weapon_delay))  # convert to ms
 
         if self._skill_library.has_skill("Shot", self.__stats.job_class):
             auto_skill = self._skill_library.get_skill("Shot", self.__stats.job_class)
-- 
2.43.0


From ce165836f730cef7ebca6625ed3d6668f2ef9197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:12 +0000
Subject: [PATCH 09/42] fix: do not lose 10 ms to floating point error in
 speed-scaled times

---
 ama_xiv_combat_sim/simulator/calcs/stat_fns.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/calcs/stat_fns.py b/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
index fa12894..94ee5b3 100644
--- a/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
+++ b/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
@@ -11,8 +11,7 @@ class StatFns:
 
         tmp = np.ceil(speed_const * (level_sub - speed_stat) / level_div)
         tmp2 = t_ms * (1000 + tmp) / 10000
-        tmp3 = np.floor(tmp2) / 100
-        return int(1000 * tmp3)
+        return 10 * int(np.floor(tmp2))
 
     @staticmethod
     def get_crit_stats(crit_stat, version, level=90):
-- 
2.43.0


From de73411239d1d1c55277e6e1dc83304a37da5e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:38 +0000
Subject: [PATCH 10/42] fix: do not compare skills and status effects of
 simultaneous damage instances

---
 .../simulator/timeline_builders/damage_builder.py         | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 4eefa18..4c1a3ad 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -1,5 +1,4 @@
 import copy
-import heapq
 
 from ama_xiv_combat_sim.simulator.game_data.game_consts import GameConsts
 from ama_xiv_combat_sim.simulator.timeline_builders.snapshot_and_application_events import (
@@ -117,8 +116,7 @@ class DamageBuilder:
                         )
 
                     if skill.get_damage_spec(skill_modifier_to_use) is not None:
-                        heapq.heappush(
-                            q,
+                        q.append(
                             (
                                 application_time,
                                 skill,
@@ -126,7 +124,7 @@ class DamageBuilder:
                                 tuple(snapshot_status_use),
                                 event_id,
                                 target
-                            ),
+                            )
                         )
             else:
                 if snapshot_status[0] is True:
@@ -213,5 +211,5 @@ class DamageBuilder:
             if is_application_time:
                 self.se.add_to_status_effects(curr_time, skill, skill_modifier, targets)
 
-        q.sort(key=lambda x: x[0])
+        q.sort(key=lambda x: (x[0], x[1].name))
         return q
-- 
2.43.0


From 7604c9ca2155e7bf66a72e68a02c2a33efc5a5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:51 +0000
Subject: [PATCH 11/42] fix: use fight time when moving autos out of downtime
 windows

---
 .../timeline_builders/rotation_builder.py     | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 52bbb8b..c95e0f5 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -903,17 +903,20 @@ class RotationBuilder:
         non_auto_periods.sort()
         return non_auto_periods
 
-    # This is only called during a downtime window.
-    def forward_to_next_non_downtime_time(self, snapshot_time, auto_target):
+    # This is only called during a downtime window. time_offset is what will be
+    # subtracted from snapshot_time to get to the fight time of the downtime windows.
+    def forward_to_next_non_downtime_time(
+        self, snapshot_time, auto_target, time_offset=0
+    ):
         for r in self.__downtime_windows.get(auto_target, tuple()):
-            if r[0] <= snapshot_time < r[1] and (
+            if r[0] <= snapshot_time - time_offset < r[1] and (
                 r[2] is None or r[2] == DamageClass.AUTO
             ):
-                return r[1]
+                return r[1] + time_offset
         return snapshot_time
 
-    def __get_next_auto_time(self, t, no_auto_periods, auto_target):        
-        t = self.forward_to_next_non_downtime_time(t, auto_target)
+    def __get_next_auto_time(self, t, no_auto_periods, auto_target, time_offset=0):
+        t = self.forward_to_next_non_downtime_time(t, auto_target, time_offset)
         intersecting_no_auto_periods = list(
             filter(lambda x: (x[0] <= t) and (x[1] >= t), no_auto_periods)
         )
@@ -955,6 +958,8 @@ class RotationBuilder:
         snapshot_time = (
             self._q_snapshot_and_applications.get_first_damage_time()
         )  # autos do not have cast times, so snapshot time should be immediate
+        # The timeline is later shifted to have the first damage at 0, unless told otherwise.
+        time_offset = snapshot_time if self.__fight_start_time is None else 0
         application_time = snapshot_time + auto_skill.timing_spec.application_delay
 
         auto_target_ind = 0
@@ -1002,7 +1007,7 @@ class RotationBuilder:
             )
             no_auto_periods = self.get_no_auto_periods()
             snapshot_time = self.__get_next_auto_time(
-                snapshot_time, no_auto_periods, auto_target
+                snapshot_time, no_auto_periods, auto_target, time_offset
             )
             application_time = snapshot_time + auto_skill.timing_spec.application_delay
 
-- 
2.43.0


From 9b8e488b0cd883d3ee9fd0f203ae7fdbd55e89d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:59 +0000
Subject: [PATCH 12/42] fix: allow rotations without damage when autos are
 enabled

---
 .../simulator/timeline_builders/rotation_builder.py          | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index c95e0f5..b142316 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -938,6 +938,9 @@ class RotationBuilder:
                 res.append(seq[i])
             return res
 
+        if len(self.__timestamps_and_main_target) == 0:
+            return
+
         timestamps_and_main_target = copy.deepcopy(self.__timestamps_and_main_target)
         timestamps_and_main_target.sort(key=lambda x: x[0])
         timestamps_and_main_target = shorten_sequence(timestamps_and_main_target)
@@ -958,6 +961,8 @@ class RotationBuilder:
         snapshot_time = (
             self._q_snapshot_and_applications.get_first_damage_time()
         )  # autos do not have cast times, so snapshot time should be immediate
+        if snapshot_time is None:
+            return  # nothing is ever damaged, so auto-attacking never starts
         # The timeline is later shifted to have the first damage at 0, unless told otherwise.
         time_offset = snapshot_time if self.__fight_start_time is None else 0
         application_time = snapshot_time + auto_skill.timing_spec.application_delay
-- 
2.43.0


From 10722e315aa880334d52a0a55cdcce0e5e873274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:08 +0000
Subject: [PATCH 13/42] fix: allow more than 5000 damage instances

---
 .../simulator/trackers/damage_tracker.py      | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
index 8ce6891..dc7f271 100644
--- a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
@@ -40,6 +40,9 @@ class DamageTracker:
             raise RuntimeError(
                 "DamageTracker is finalized. Cannot add damage instances."
             )
+        if self.it == len(self.time):
+            self.__grow()
+
         self.base_damage[self.it] = base_damage
         self.crit_rate[self.it] = crit_rate
         self.crit_bonus[self.it] = crit_bonus
@@ -53,6 +56,23 @@ class DamageTracker:
         self.damage_classes[self.it] = damage_class
         self.it += 1
 
+    # Double the number of damage instances which can be tracked.
+    def __grow(self):
+        n = len(self.time)
+        self.base_damage = np.concatenate((self.base_damage, np.zeros((n, 1))))
+        self.crit_rate = np.concatenate((self.crit_rate, np.zeros((n, 1))))
+        self.crit_bonus = np.concatenate((self.crit_bonus, np.zeros((n, 1))))
+        self.dh_rate = np.concatenate((self.dh_rate, np.zeros((n, 1))))
+        self.trait_damage_mult = np.concatenate(
+            (self.trait_damage_mult, np.zeros((n, 1)))
+        )
+        self.damage_mult = np.concatenate((self.damage_mult, np.ones((n, 1))))
+        self.time = np.concatenate((self.time, np.zeros(n)))
+        self.potency = np.concatenate((self.potency, np.zeros(n)))
+        self.skill_modifier_condition = self.skill_modifier_condition + [""] * n
+        self.status_effects = self.status_effects + [""] * n
+        self.damage_classes = self.damage_classes + [""] * n
+
     def finalize(self):
         self.base_damage = self.base_damage[0 : self.it]
         self.crit_rate = self.crit_rate[0 : self.it]
-- 
2.43.0


From 5b926dfee3a544ac03f20901489e96cc3602c6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:20 +0000
Subject: [PATCH 14/42] fix: use the level of the skill library for the stats
 of example rotations

---
 ama_xiv_combat_sim/example_rotations/specific_rotations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ama_xiv_combat_sim/example_rotations/specific_rotations.py b/ama_xiv_combat_sim/example_rotations/specific_rotations.py
index 6de4cf3..01e6894 100644
--- a/ama_xiv_combat_sim/example_rotations/specific_rotations.py
+++ b/ama_xiv_combat_sim/example_rotations/specific_rotations.py
@@ -62,6 +62,7 @@ class SpecificRotations:
             ),
             job_class=job_class,
             version=self.version,
+            level=self.level,
         )
         return stats
 
-- 
2.43.0


From c055f4c14726a05ed207b64efb3bfa58a3ed427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:29 +0000
Subject: [PATCH 15/42] fix: add a party skill with a modifier only once

---
 ama_xiv_combat_sim/example_rotations/example_rotation_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py b/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
index ddc847c..c80cd54 100644
--- a/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
+++ b/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
@@ -26,7 +26,8 @@ class ExampleRotationUtils:
                 rb.add(
                     t, skill_name, skill_modifier=skill_modifier, job_class=job_class
                 )
-            rb.add(t, skill_name, job_class=job_class)
+            else:
+                rb.add(t, skill_name, job_class=job_class)
 
         for sk in skills:
             rb.add_next(sk)
-- 
2.43.0


From 158c3d27df1648620be57b4c227b472aaa5b1b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:37 +0000
Subject: [PATCH 16/42] fix: find the LB damage among other conditions

---
 .../kill_time_estimator/kill_time_estimator.py               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py b/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
index acfb42e..d66c50f 100644
--- a/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
+++ b/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
@@ -14,8 +14,9 @@ class KillTimeEstimator():
 
   @staticmethod
   def get_lb_damage(condition, num_samples):
-    res_mean = re.search(r"^{} (\d+)".format(SimConsts.LB_MEAN_DAMAGE), condition)
-    res_exact = re.search(r"^{} (\d+)".format(SimConsts.LB_EXACT_DAMAGE), condition)
+    # the LB damage may be given along with other conditions, in any order.
+    res_mean = re.search(r"(?:^|,)\s*{} (\d+)".format(SimConsts.LB_MEAN_DAMAGE), condition)
+    res_exact = re.search(r"(?:^|,)\s*{} (\d+)".format(SimConsts.LB_EXACT_DAMAGE), condition)
 
     if res_mean is None and res_exact is None:
       raise RuntimeError('LB conditional must be "Mean Damage: number", or "Exact Damage: number". Instead, got: {}'.format(condition))
-- 
2.43.0


From dd59e4f577d1c262fe32608e36bf0fa8d57d559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:48 +0000
Subject: [PATCH 17/42] fix: cap crit and direct hit rates at 1

---
 .../simulator/calcs/compute_damage_utils.py            | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py b/ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py
index 1bbe510..99bdfe3 100644
--- a/ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py
+++ b/ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py
@@ -118,10 +118,11 @@ class ComputeDamageUtils:
         elif forced_no_dh:
             dh_rate = 0
         else:
-            dh_rate = (
+            dh_rate = min(
                 stats.processed_stats.dh_rate
                 + status_effects[0].dh_rate_add
-                + status_effects[1].dh_rate_add
+                + status_effects[1].dh_rate_add,
+                1,
             )
 
         crit_bonus = stats.processed_stats.crit_bonus
@@ -130,10 +131,11 @@ class ComputeDamageUtils:
         elif forced_no_crit:
             crit_rate = 0
         else:
-            crit_rate = (
+            crit_rate = min(
                 stats.processed_stats.crit_rate
                 + status_effects[0].crit_rate_add
-                + status_effects[1].crit_rate_add
+                + status_effects[1].crit_rate_add,
+                1,
             )
 
         return (dh_rate, crit_rate, crit_bonus)
-- 
2.43.0


From 333b24792ca4a688ec71c0fc49194ba0921acc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:02 +0000
Subject: [PATCH 18/42] fix: apply aoe dropoff to the 10th target

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index bd8aa12..9bd31c1 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -58,7 +58,7 @@ class Skill:
             damage_spec = {SimConsts.DEFAULT_CONDITION: damage_spec}
         keys = tuple(damage_spec.keys())
         for key in keys:
-            for target_num in range(2, 10):  # max of 10 targets
+            for target_num in range(2, 11):  # max of 10 targets
                 if len(key) > 0:
                     new_key = f"{key}, Target {target_num}"
                 else:
-- 
2.43.0


From f488add81fb27a100ff9ccfa9d5b0037c520af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:51 +0000
Subject: [PATCH 19/42] fix: allow simulating a rotation without damage
 instances

---
 ama_xiv_combat_sim/simulator/damage_simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/damage_simulator.py b/ama_xiv_combat_sim/simulator/damage_simulator.py
index b066f37..ad613ce 100644
--- a/ama_xiv_combat_sim/simulator/damage_simulator.py
+++ b/ama_xiv_combat_sim/simulator/damage_simulator.py
@@ -203,7 +203,8 @@ class DamageSimulator:
         
         #damage_ranges[i]: (string to identify crit/dh status, low damage, high damage, probability)
         damage_ranges = self.__damage_tracker.get_damage_ranges_and_probabilities()
-
+        if len(damage_ranges) == 0:
+            return [], []
         all_probs = np.asarray(
             list(get_all_probs(damage_ranges[i]) for i in range(0, len(damage_ranges)))
         )
-- 
2.43.0


From 15895669fb31ac7df6822792442a2556cd70ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:00 +0000
Subject: [PATCH 20/42] fix: consider all follow ups when determining status
 effect flags of a skill

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index 9bd31c1..e0e1c28 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -106,7 +106,7 @@ class Skill:
                 for follow_up in self.follow_up_skills:
                     if getattr(follow_up.skill, spec_to_use) is not None:
                         res = True
-                    break
+                        break
             elif isinstance(self.follow_up_skills, dict):
                 for _, follow_ups in self.follow_up_skills.items():
                     for follow_up in follow_ups:
@@ -144,7 +144,6 @@ class Skill:
                                 break
                     elif sp is not None and sp.is_party_effect:
                         res = True
-                    break
             elif isinstance(self.follow_up_skills, dict):
                 for _, follow_ups in self.follow_up_skills.items():
                     for follow_up in follow_ups:
-- 
2.43.0


From 87c66e76272b1fcba99bb3edef55e38ec325608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:11 +0000
Subject: [PATCH 21/42] fix: expire job resources first gained at time 0, and
 ignore future gains

---
 .../simulator/trackers/job_resource_tracker.py            | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
index a47145d..e55ea5a 100644
--- a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
@@ -61,6 +61,10 @@ class JobResourceTracker:
                 job_resource_name
             ]:
 
+                # what has yet to happen cannot matter now
+                if curr_t < start_time:
+                    break
+
                 if last_refresh_time is None:
                     last_refresh_time = start_time
 
@@ -72,7 +76,7 @@ class JobResourceTracker:
                 if resource_spec.refreshes_duration_of_last_gained:
                     last_refresh_time = start_time
 
-                if curr_t < start_time or curr_t > end_time:
+                if curr_t > end_time:
                     continue
 
                 total_resource += resource_spec.change
@@ -80,7 +84,7 @@ class JobResourceTracker:
                 total_resource = max(0, total_resource)
 
             if (
-                last_refresh_time
+                last_refresh_time is not None
                 and last_refresh_time + job_resource_config.expiry_from_last_gain
                 < curr_t
             ):
-- 
2.43.0


From c67110c1b4c681c366c07e6734922a1da97099cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:32 +0000
Subject: [PATCH 22/42] fix: do not modify a conditional damage spec shared by
 several skills

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index e0e1c28..30dee77 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -188,7 +188,9 @@ class Skill:
             self.status_effect_denylist, tuple
         ), "status_effect_denylist must be encoded as a tuple for immutability. Did you encode it as a single string by accident, when it should be a tuple of length 1?"
 
-        if self.aoe_dropoff is not None:
+        if self.aoe_dropoff is not None and isinstance(self.damage_spec, dict):
+            # use a copy, since the given dict may be shared with other skills.
+            object.__setattr__(self, "damage_spec", dict(self.damage_spec))
             self.__process_aoe_dropoff(self.damage_spec, self.aoe_dropoff)
         if isinstance(self.damage_spec, dict):
             object.__setattr__(
-- 
2.43.0


From 7f1ea79fe9b0e43c7612eedb8989f86b21b9a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:44 +0000
Subject: [PATCH 23/42] fix: block autos during the actual casts of timed
 skills

---
 .../timeline_builders/rotation_builder.py     | 61 ++++---------------
 1 file changed, 11 insertions(+), 50 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index b142316..8c49fda 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -64,6 +64,7 @@ class RotationBuilder:
             stats.job_class
         )
         self.__timestamps_and_main_target = []
+        self.__timed_casts = []  # (time, skill, skill_modifier, cast_time)
         assert isinstance(
             default_target, str
         ), "Default target should be a string- did you accidentally make it a tuple?"
@@ -475,6 +476,7 @@ class RotationBuilder:
                 job_resource_tracker,
                 targets,
             )
+        return cast_time
 
     def __process_q_timed(self):
         se_tracker = StatusEffectTracker(self.__status_effect_priority)
@@ -531,7 +533,7 @@ class RotationBuilder:
                 print(str(v))
 
             self.__timestamps_and_main_target.append((curr_t, targets[0]))
-            self.__process_skill(
+            cast_time = self.__process_skill(
                 curr_t,
                 skill,
                 skill_modifier,
@@ -540,6 +542,7 @@ class RotationBuilder:
                 curr_buffs,
                 targets,
             )
+            self.__timed_casts.append((curr_t, skill, skill_modifier, cast_time))
 
     def __process_q_sequence(self):
         se_tracker = StatusEffectTracker(self.__status_effect_priority)
@@ -771,6 +774,7 @@ class RotationBuilder:
         self.__q_button_press_timing.clear()
         self._q_dot_skills.clear()
         self.__timestamps_and_main_target.clear()
+        self.__timed_casts.clear()
         self.__process_q_sequence()
         self.__process_q_timed()
 
@@ -846,60 +850,17 @@ class RotationBuilder:
             curr_debuffs_and_skill_modifier,
         ), job_resource_tracker.compile_job_resources(curr_t, skill)
 
+    # The periods during which the timed skills, as of the last get_skill_timing(), do
+    # not allow for autos.
     def get_no_auto_periods(self):
-        q = copy.deepcopy(self._q_timed)
-        cast_periods = []
-        se_tracker = StatusEffectTracker(self.__status_effect_priority)
+        non_auto_periods = []
         c_tracker = ChannelingTracker()
-        job_resource_tracker = JobResourceTracker(
-            self._skill_library.get_all_resource_settings(self.__stats.job_class)
-        )
-        combo_tracker = ComboTracker(
-            self._skill_library.get_all_combo_breakers(self.__stats.job_class)
-        )
-
-        q.sort(key=lambda x: (x[0], x[1].name))
-        for t, skill, skill_modifier, _, _ in q:
-            se_tracker.expire_status_effects(t)
+        for t, skill, skill_modifier, cast_time in self.__timed_casts:
             c_tracker.process_channeling(t, skill, skill_modifier)
-            curr_buffs_and_skill_modifier = se_tracker.compile_buffs(t, skill)
-            curr_debuffs_and_skill_modifier = se_tracker.compile_debuffs(t, skill)
-
-            curr_buffs, skill_modifier_from_buffs = (
-                curr_buffs_and_skill_modifier[0],
-                curr_buffs_and_skill_modifier[1],
-            )
-            _, skill_modifier_from_debuffs = (
-                curr_debuffs_and_skill_modifier[0],
-                curr_debuffs_and_skill_modifier[1],
-            )
-            job_resource_conditional = job_resource_tracker.compile_job_resources(
-                t, skill
-            )
-
-            skill_modifier = copy.deepcopy(skill_modifier)
-            skill_modifier.add_to_condition(skill_modifier_from_buffs)
-            skill_modifier.add_to_condition(skill_modifier_from_debuffs)
-            skill_modifier.add_to_condition(job_resource_conditional)
-
-            combo_conditional = combo_tracker.compile_and_update_combo(
-                t, skill, skill_modifier
-            )
-            skill_modifier.add_to_condition(combo_conditional)
-
-            cast_time = self.__get_cast_time(
-                skill.get_timing_spec(skill_modifier), skill_modifier, curr_buffs
-            )
             if cast_time > 0:
-                cast_periods.append((t, t + cast_time))
-            # assume target does not affect speed....dangerous....
-            se_tracker.add_to_status_effects(
-                t, skill, skill_modifier, targets=(self.__default_target,)
-            )
-            job_resource_tracker.add_resource(t, skill, skill_modifier)
+                non_auto_periods.append((t, t + cast_time))
         c_tracker.finalize()
-        non_auto_periods = list(c_tracker.get_channeling_windows())
-        non_auto_periods.extend(cast_periods)
+        non_auto_periods.extend(c_tracker.get_channeling_windows())
         non_auto_periods.sort()
         return non_auto_periods
 
-- 
2.43.0


From 5d4338950f72e147bff7285e6398c18286650b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:48 +0000
Subject: [PATCH 24/42] fix: process the hit on each target of an aoe at its
 own application time

---
 .../simulator/timeline_builders/damage_builder.py      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 4c1a3ad..5b132d3 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -136,11 +136,6 @@ class DamageBuilder:
                 priority_modifier = priority - Utils.transform_time_to_prio(
                     event_times.primary
                 )
-                new_priority = (
-                    Utils.transform_time_to_prio(event_times.secondary)
-                    + priority_modifier
-                )
-
                 job_conditional_was_processed = False
                 if not job_conditional_processed and skill.job_resources_snapshot:
                     job_resource_conditional = (
@@ -193,6 +188,11 @@ class DamageBuilder:
                         skill_modifier_to_use.add_to_condition(
                             skill_modifier_from_debuffs
                         )
+                    # each target is hit at its own time, so process it then.
+                    new_priority = (
+                        Utils.transform_time_to_prio(application_time)
+                        + priority_modifier
+                    )
                     q_snapshot_and_applications.add(
                         new_priority,
                         application_time,
-- 
2.43.0


From 2c426cf53d7f0a62bd5f3ff7f38bce94725a60ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:56 +0000
Subject: [PATCH 25/42] fix: read names, conditions and targets of csv
 rotations as they are written

---
 .../simulator/rotation_import_utils/csv_utils.py         | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/rotation_import_utils/csv_utils.py b/ama_xiv_combat_sim/simulator/rotation_import_utils/csv_utils.py
index 484e00a..b44dc1d 100644
--- a/ama_xiv_combat_sim/simulator/rotation_import_utils/csv_utils.py
+++ b/ama_xiv_combat_sim/simulator/rotation_import_utils/csv_utils.py
@@ -16,8 +16,11 @@ class CSVUtils:
         res = []
 
         try:
-            df = pd.read_csv(filename, keep_default_na=False)
-            
+            # names, conditions and targets are kept as written, even if they look like numbers.
+            df = pd.read_csv(
+                filename, keep_default_na=False, dtype=str, skipinitialspace=True
+            )
+
             #canonicalize column names
             df=df.rename(str.lower, axis='columns')
         except FileNotFoundError:
@@ -27,7 +30,7 @@ class CSVUtils:
             return res
 
         for i in range(0, len(df)):
-            t = df["time"][i]
+            t = float(df["time"][i])
             skill_name = df["skill_name"][i]
             job_class = None if df["job_class"][i] == "" else df["job_class"][i]
             skill_conditional = df["skill_conditional"][i]
-- 
2.43.0


From 9a87567e27e4aaca84b2a23b977c70915c7a90a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:05 +0000
Subject: [PATCH 26/42] fix: quote the conditions of presses printed as csv

---
 .../simulator/timeline_builders/rotation_builder.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 8c49fda..4c202c0 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -988,4 +988,6 @@ class RotationBuilder:
             return
         print("Time, skill_name, job_class, skill_conditional")
         for tmp in self.__q_button_press_timing:
-            print(f"{tmp[0] / 1000}, {tmp[1]}, {tmp[2]}, {tmp[3]}")
+            # several conditions are separated by commas, and are still a single field.
+            skill_conditional = f'"{tmp[3]}"' if "," in tmp[3] else tmp[3]
+            print(f"{tmp[0] / 1000}, {tmp[1]}, {tmp[2]}, {skill_conditional}")
-- 
2.43.0


From f997467e421895836d613777870f2f70b67237f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:32 +0000
Subject: [PATCH 27/42] fix: Radiant Finale of a party member does not use up
 the player's coda

---
 .../simulator/game_data/class_skills/ranged/brd.py               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/ranged/brd.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/ranged/brd.py
index 990b32f..b8618ec 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/ranged/brd.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/ranged/brd.py
@@ -1101,6 +1101,7 @@ class BrdSkills(GenericJobClass):
                 if self._level >= 100
                 else tuple()
             ),
+            off_class_default_condition="Buff Only",
         )
 
     @GenericJobClass.is_a_skill
-- 
2.43.0


From 2711d11ebe2da262d4d70ca11d9f6a78b123be6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:11 +0000
Subject: [PATCH 28/42] fix: do not lose 1 in the auto-attack weapon damage to
 floating point errors

---
 ama_xiv_combat_sim/simulator/calcs/stat_fns.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/calcs/stat_fns.py b/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
index 94ee5b3..bfa111b 100644
--- a/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
+++ b/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
@@ -105,4 +105,7 @@ class StatFns:
     @staticmethod
     def fAuto(wd, weapon_delay, job_mod, version, level=90):
         level_main = GameConsts.get_level_main(version, level)
-        return np.floor(np.floor(level_main * job_mod / 1000 + wd) * (weapon_delay / 3))
+        # round, so that a whole number is not truncated because of floating point errors.
+        return np.floor(
+            np.round(np.floor(level_main * job_mod / 1000 + wd) * weapon_delay / 3, 6)
+        )
-- 
2.43.0


From 9c85527fe7e6889a74f4abc35e8198c6fdc33e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:45 +0000
Subject: [PATCH 29/42] fix: support conditional channeling specs

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index 30dee77..200d936 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -209,6 +209,12 @@ class Skill:
             object.__setattr__(
                 self, "debuff_spec", self.__canonicalize_dict(self.debuff_spec)
             )
+        if isinstance(self.channeling_spec, dict):
+            object.__setattr__(
+                self,
+                "channeling_spec",
+                self.__canonicalize_dict(self.channeling_spec),
+            )
         if isinstance(self.follow_up_skills, dict):
             object.__setattr__(
                 self,
-- 
2.43.0


From 4960906dd4e7d20843c08c0e0bfbded7cd19d054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:14 +0000
Subject: [PATCH 30/42] fix: do not carry effects over when a DamageBuilder is
 used again

---
 .../simulator/timeline_builders/damage_builder.py          | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 5b132d3..04d9065 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -23,9 +23,12 @@ class DamageBuilder:
         self.__status_effect_priority = skill_library.get_status_effect_priority(
             stats.job_class
         )
+        self.__init_trackers()
+
+    def __init_trackers(self):
         self.se = StatusEffectTracker(self.__status_effect_priority)
         self.job_resource_tracker = JobResourceTracker(
-            self.__skill_library.get_all_resource_settings(stats.job_class)
+            self.__skill_library.get_all_resource_settings(self.__stats.job_class)
         )
         self.combo_tracker = ComboTracker(
             self.__skill_library.get_all_combo_breakers(self.__stats.job_class)
@@ -40,6 +43,8 @@ class DamageBuilder:
     def get_damage_instances(
         self, q_snapshot_and_applications: SnapshotAndApplicationEvents
     ):
+        # forget effects, resources and combos of any timeline processed before.
+        self.__init_trackers()
         q = []  # (current_time, skill, skill_modifier, (buffs, debuffs), job_resources)
         while not q_snapshot_and_applications.is_empty():
             [
-- 
2.43.0


From 709644229f50bbd093d8faf37c7097708882306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:01 +0000
Subject: [PATCH 31/42] fix: count snapshots at the timestamp itself despite
 floating point errors

---
 .../rotation_analysis/rotation_analysis_utils.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
index 062ab08..ed9d285 100644
--- a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
+++ b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
@@ -11,7 +11,8 @@ class RotationAnalysisUtils:
 
     @staticmethod
     def get_all_damage_snapshots_before_timestamp(per_skill_damage, timestamp_in_s):
-        timestamp = 1000 * timestamp_in_s
+        # rounded, so that floating point errors do not exclude snapshots at the timestamp itself.
+        timestamp = round(1000 * timestamp_in_s, 3)
         res = 0
         for sk in per_skill_damage:
             if sk.snapshot_time <= timestamp:
-- 
2.43.0


From 6378f2ecf74206e39f3bd08581d0f800756232e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:17 +0000
Subject: [PATCH 32/42] fix: report the last snapshot even if all snapshots are
 before the first damage

---
 .../rotation_analysis/rotation_analysis_utils.py             | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
index ed9d285..bc4e65e 100644
--- a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
+++ b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
@@ -21,10 +21,7 @@ class RotationAnalysisUtils:
 
     @staticmethod
     def get_dps_at_intervals(per_skill_damage, interval_in_s):
-        max_t = -1
-        for sk in per_skill_damage:
-            if sk.snapshot_time > max_t:
-                max_t = sk.snapshot_time
+        max_t = max((sk.snapshot_time for sk in per_skill_damage), default=-1)
 
         res = {'snapshot_time': [],     
                'total_snapshotted_damage': []}
-- 
2.43.0


From f75ffb0d115065d473676040233318a28dc522c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:43 +0000
Subject: [PATCH 33/42] fix: report a variance of 0, not NaN, when all outcomes
 of a hit coincide

---
 ama_xiv_combat_sim/simulator/damage_simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/damage_simulator.py b/ama_xiv_combat_sim/simulator/damage_simulator.py
index ad613ce..93a951a 100644
--- a/ama_xiv_combat_sim/simulator/damage_simulator.py
+++ b/ama_xiv_combat_sim/simulator/damage_simulator.py
@@ -220,7 +220,8 @@ class DamageSimulator:
         # See: law of total variance, variance of a uniform
         unexplained_variances = np.sum(all_probs * np.power(all_diffs, 2), axis=1)/12
         explained_variances = np.sum(all_probs*np.power(all_means, 2), axis=1) - np.power(np.sum(all_probs*all_means,axis=1), 2)
-        variances = unexplained_variances + explained_variances
+        # rounding can leave the difference above slightly negative when all outcomes coincide
+        variances = np.maximum(unexplained_variances + explained_variances, 0)
     
         return list(expected_damage), list(variances)
 
-- 
2.43.0


From aa1d067ed4b79f597100ca0ad739f464f125bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:54 +0000
Subject: [PATCH 34/42] fix: keep the decimals of the damage stated for a limit
 break

---
 ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py b/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
index d66c50f..7acb972 100644
--- a/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
+++ b/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
@@ -15,8 +15,8 @@ class KillTimeEstimator():
   @staticmethod
   def get_lb_damage(condition, num_samples):
     # the LB damage may be given along with other conditions, in any order.
-    res_mean = re.search(r"(?:^|,)\s*{} (\d+)".format(SimConsts.LB_MEAN_DAMAGE), condition)
-    res_exact = re.search(r"(?:^|,)\s*{} (\d+)".format(SimConsts.LB_EXACT_DAMAGE), condition)
+    res_mean = re.search(r"(?:^|,)\s*{} (\d+(?:\.\d+)?)".format(SimConsts.LB_MEAN_DAMAGE), condition)
+    res_exact = re.search(r"(?:^|,)\s*{} (\d+(?:\.\d+)?)".format(SimConsts.LB_EXACT_DAMAGE), condition)
 
     if res_mean is None and res_exact is None:
       raise RuntimeError('LB conditional must be "Mean Damage: number", or "Exact Damage: number". Instead, got: {}'.format(condition))
-- 
2.43.0


From 05e75aa2a5b858740a1c8003b01579b1353d8341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:55 +0000
Subject: [PATCH 35/42] fix: the next skill of a sequence waits for the cast of
 an off-GCD skill

Limit breaks, for one, are cast; the skill after one was pressed during its cast.
---
 .../simulator/timeline_builders/rotation_builder.py          | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 4c202c0..b39102f 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -662,7 +662,10 @@ class RotationBuilder:
                     curr_buffs,
                     targets,
                 )
-                curr_t += timing_spec.animation_lock
+                curr_t += (
+                    self.__get_cast_time(timing_spec, skill_modifier, curr_buffs)
+                    + timing_spec.animation_lock
+                )
 
     def shift_timelines_for_first_damage_instance(self):
         res = SnapshotAndApplicationEvents()
-- 
2.43.0


From 570c3d12f4b3ee5f66eba7ffd991444dcc2d25cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:55 +0000
Subject: [PATCH 36/42] fix: a dot replaces the one of the same name which was
 applied with other numbers

E.g. Thunder III and Thunder IV, or Eukrasian Dosis III and Eukrasian Dyskrasia, ticked together.
---
 .../timeline_builders/rotation_builder.py     | 45 ++++++++++++-------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index b39102f..17ce176 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -227,11 +227,14 @@ class RotationBuilder:
         for target in targets:
             if target not in self._q_dot_skills:
                 self._q_dot_skills[target] = {}
-            if follow_up_dot_skill not in self._q_dot_skills[target]:
-                self._q_dot_skills[target][follow_up_dot_skill] = []
+            # a dot replaces the one of the same name, even if they differ (in duration, say).
+            dot_name = follow_up_dot_skill.skill.name
+            if dot_name not in self._q_dot_skills[target]:
+                self._q_dot_skills[target][dot_name] = []
 
-            self._q_dot_skills[target][follow_up_dot_skill].append(
+            self._q_dot_skills[target][dot_name].append(
                 (
+                    follow_up_dot_skill,
                     parent_snapshot_time,
                     parent_application_time,
                     priority_modifier,
@@ -315,10 +318,11 @@ class RotationBuilder:
                     targets,
                 )
 
-    def __get_base_dot_timings(self, target, follow_up_dot_skill):
+    def __get_base_dot_timings(self, target, dot_name):
         app_times = []
-        dot_times = self._q_dot_skills[target][follow_up_dot_skill]
+        dot_times = self._q_dot_skills[target][dot_name]
         for (
+            follow_up_dot_skill,
             parent_snapshot_time,
             parent_application_time,
             priority_modifier,
@@ -333,6 +337,7 @@ class RotationBuilder:
                     dot_max_end_time,
                     parent_snapshot_time,
                     priority_modifier,
+                    follow_up_dot_skill,
                 )
             )
         return sorted(app_times, key=lambda x: x[0])
@@ -340,9 +345,13 @@ class RotationBuilder:
     def __get_consolidated_dot_timing(self, base_dot_times):
         consolidated_dots = []
         for i in range(0, len(base_dot_times)):
-            curr_start_time, curr_end_time, parent_snapshot_time, priority_modifier = (
-                base_dot_times[i]
-            )
+            (
+                curr_start_time,
+                curr_end_time,
+                parent_snapshot_time,
+                priority_modifier,
+                follow_up_dot_skill,
+            ) = base_dot_times[i]
             if i == len(base_dot_times) - 1:
                 possible_end_time = math.inf
             else:
@@ -351,21 +360,24 @@ class RotationBuilder:
                 possible_end_time = base_dot_times[i + 1][0]
             end_time = min(curr_end_time, possible_end_time)
             consolidated_dots.append(
-                (curr_start_time, end_time, parent_snapshot_time, priority_modifier)
+                (
+                    curr_start_time,
+                    end_time,
+                    parent_snapshot_time,
+                    priority_modifier,
+                    follow_up_dot_skill,
+                )
             )
         return consolidated_dots
 
     def __process_all_dots(self, last_event_time):
         # target_num
-        for target, all_follow_up_dot_skills in self._q_dot_skills.items():
-            for follow_up_dot_skill in all_follow_up_dot_skills:
-                base_dot_times = self.__get_base_dot_timings(
-                    target, follow_up_dot_skill
-                )
+        for target, all_dot_names in self._q_dot_skills.items():
+            for dot_name in all_dot_names:
+                base_dot_times = self.__get_base_dot_timings(target, dot_name)
                 consolidated_dot_times = self.__get_consolidated_dot_timing(
                     base_dot_times
                 )
-                dot_skill = follow_up_dot_skill.skill
 
                 # We use the priority modifier to ensure dot skills 1) are processed after their parent, and
                 # 2) a dot tick will be processed after the early dot ticks, even if they snapshot at different times.
@@ -375,6 +387,7 @@ class RotationBuilder:
                     dot_end_time,
                     parent_snapshot_time,
                     priority_modifier,
+                    follow_up_dot_skill,
                 ) in consolidated_dot_times:
                     if self.__snap_dots_to_server_tick_starting_at is None:
                         dot_start_time = _dot_start_time
@@ -411,7 +424,7 @@ class RotationBuilder:
                             priority,
                             parent_snapshot_time,
                             application_time,
-                            dot_skill,
+                            follow_up_dot_skill.skill,
                             SkillModifier(),
                             snapshot_status,
                             targets=(target,),
-- 
2.43.0


From eed8308a7644a44e68ebc494395f1a6ff484f422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:55 +0000
Subject: [PATCH 37/42] fix: autos are no longer sped up by effects which were
 ended

Swiftscaled, for one, sped up autos after Death.
---
 .../simulator/timeline_builders/rotation_builder.py          | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 17ce176..f0a4c5c 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -820,15 +820,20 @@ class RotationBuilder:
             buff_spec = skill.get_buff_spec(skill_modifier)
             debuff_spec = skill.get_debuff_spec(skill_modifier)
 
+            # effects which end others may end a speed effect.
             buff_spec_has_speed = buff_spec is not None and (
                 buff_spec.auto_attack_delay_reduction > 0
                 or buff_spec.haste_time_reduction > 0
                 or buff_spec.flat_cast_time_reduction > 0
+                or len(buff_spec.expires_status_effects) > 0
+                or buff_spec.clear_all_status_effects
             )
             debuff_spec_has_speed = debuff_spec is not None and (
                 debuff_spec.auto_attack_delay_reduction > 0
                 or debuff_spec.haste_time_reduction > 0
                 or debuff_spec.flat_cast_time_reduction > 0
+                or len(debuff_spec.expires_status_effects) > 0
+                or debuff_spec.clear_all_status_effects
             )
             if not buff_spec_has_speed and not debuff_spec_has_speed:
                 continue
-- 
2.43.0


From 45e902b3908579a05fed5256b952c8327f490291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:55 +0000
Subject: [PATCH 38/42] fix: an auto delayed by a cast which ends in downtime
 waits for its end

It was placed in the downtime, and lost.
---
 .../timeline_builders/rotation_builder.py      | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index f0a4c5c..b098d0a 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -898,15 +898,15 @@ class RotationBuilder:
         return snapshot_time
 
     def __get_next_auto_time(self, t, no_auto_periods, auto_target, time_offset=0):
-        t = self.forward_to_next_non_downtime_time(t, auto_target, time_offset)
-        intersecting_no_auto_periods = list(
-            filter(lambda x: (x[0] <= t) and (x[1] >= t), no_auto_periods)
-        )
-        return (
-            t
-            if len(intersecting_no_auto_periods) == 0
-            else max(x[1] for x in intersecting_no_auto_periods)            
-        )
+        while True:
+            t = self.forward_to_next_non_downtime_time(t, auto_target, time_offset)
+            t = max([t] + [x[1] for x in no_auto_periods if x[0] <= t <= x[1]])
+            # what kept the auto from happening may end during something else which does.
+            is_downtime = t != self.forward_to_next_non_downtime_time(
+                t, auto_target, time_offset
+            )
+            if not is_downtime and not any(x[0] < t < x[1] for x in no_auto_periods):
+                return t
 
     # Autos, if enabled, always start at first event application time.
     def __add_autos(self, last_event_time=None):
-- 
2.43.0


From 10ae31a2c926622247956c22f3b67b55160dd9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:55 +0000
Subject: [PATCH 39/42] fix: effects influence the timing of presses only from
 when they are applied

Effects yet to be applied merged at once with those active. Between the end of an effect and its
reapplication it was still deemed active, and ending an effect later could prolong it.
---
 .../timeline_builders/rotation_builder.py      |  4 ++--
 .../trackers/status_effect_tracker.py          | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index b098d0a..1e22e51 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -282,7 +282,7 @@ class RotationBuilder:
             snapshot_status,
             targets=targets,
         )
-        se_tracker.add_to_status_effects(
+        se_tracker.schedule_status_effects(
             application_time, skill, SkillModifier(), targets
         )
         job_resource_tracker.add_resource(application_time, skill, SkillModifier())
@@ -474,7 +474,7 @@ class RotationBuilder:
             targets=targets,
         )
 
-        se_tracker.add_to_status_effects(
+        se_tracker.schedule_status_effects(
             application_time, skill, skill_modifier, targets
         )
         job_resource_tracker.add_resource(snapshot_time, skill, skill_modifier)
diff --git a/ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py b/ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py
index b8738b1..f5d219b 100644
--- a/ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py
@@ -8,6 +8,7 @@ class StatusEffectTracker:
     def __init__(self, status_effects_priority=tuple()):
         self.buffs = {}
         self.debuffs = {}  # double map to the given target
+        self.__scheduled = []  # (time, skill, skill_modifier, targets)
         self.__status_effects_priority = status_effects_priority
 
     def __get_debuffs(self, target):
@@ -23,7 +24,24 @@ class StatusEffectTracker:
             if t > end_time or num_uses == 0:
                 del status_effects[se_skill_name]
 
+    # Like add_to_status_effects, but for effects which are yet to be applied at time t.
+    # They have no influence on any other effect before then.
+    def schedule_status_effects(
+        self, t, skill, skill_modifier, targets=(SimConsts.DEFAULT_TARGET,)
+    ):
+        self.__scheduled.append((t, skill, skill_modifier, targets))
+        self.__scheduled.sort(key=lambda x: x[0])
+
     def expire_status_effects(self, t):
+        while len(self.__scheduled) > 0 and self.__scheduled[0][0] <= t:
+            application_time, skill, skill_modifier, targets = self.__scheduled.pop(0)
+            self.__do_expire_status_effects(application_time)
+            self.add_to_status_effects(
+                application_time, skill, skill_modifier, targets
+            )
+        self.__do_expire_status_effects(t)
+
+    def __do_expire_status_effects(self, t):
         self.__expire_status_effects(t, self.buffs)
         for target in self.debuffs:            
             self.__expire_status_effects(t, self.__get_debuffs(target))
-- 
2.43.0


From a0c91e97988d9b2da85cd5df3b1415eb02612a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:48 +0000
Subject: [PATCH 40/42] fix: a logged bonus of 0% is a missed combo, too, if
 the combo alone has a bonus

---
 ama_xiv_combat_sim/simulator/utils.py | 30 +++++++++++++++------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/utils.py b/ama_xiv_combat_sim/simulator/utils.py
index 4a7139b..804c3ef 100644
--- a/ama_xiv_combat_sim/simulator/utils.py
+++ b/ama_xiv_combat_sim/simulator/utils.py
@@ -104,13 +104,6 @@ class Utils:
         for condition_to_ignore in skill.ignored_conditions_for_bonus_potency:
             skill_modifier.remove_from_condition(condition_to_ignore)
 
-        # We know the skill contains a positional now, so if we don't have a bonus percent
-        # We know it's a missed positional
-        if skill_modifier.bonus_percent == 0.0:
-            new_condition = {*init_skill_modifier.with_condition, "No Positional"}
-            # Return confirmed condition mixed in with the original, adding back ignored ones.
-            return ", ".join(new_condition)
-
         # assumes lowest potency is No Combo, No Positional. But we can search over the min key instead if this is untrue.
         skill_modifier_no_combo_no_pos = copy.deepcopy(skill_modifier).add_to_condition(
             "No Combo, No Positional"
@@ -130,12 +123,19 @@ class Utils:
             "No Positional"
         )
 
-        for to_try in [
-            skill_modifier,
-            skill_modifier_no_pos,
-            skill_modifier_no_combo,
-            skill_modifier_no_combo_no_pos,
-        ]:
+        if init_skill_modifier.bonus_percent == 0.0:
+            # We know the skill contains a positional now, so if we don't have a bonus percent
+            # We know it's a missed positional (and a missed combo, if the combo alone has a bonus).
+            all_to_try = [skill_modifier_no_pos, skill_modifier_no_combo_no_pos]
+        else:
+            all_to_try = [
+                skill_modifier,
+                skill_modifier_no_pos,
+                skill_modifier_no_combo,
+                skill_modifier_no_combo_no_pos,
+            ]
+
+        for to_try in all_to_try:
             potency_key = Utils.get_best_key(
                 damage_spec_to_use.keys(), to_try.with_condition
             )
@@ -151,6 +151,10 @@ class Utils:
                 to_try.add_to_condition(",".join(init_skill_modifier.with_condition))
                 return ", ".join(to_try.with_condition)
 
+        if init_skill_modifier.bonus_percent == 0.0:
+            # Return confirmed condition mixed in with the original, adding back ignored ones.
+            return ", ".join({*init_skill_modifier.with_condition, "No Positional"})
+
         raise ValueError(
             f"Could not find match for skill {skill.name} with bonusPercent {init_skill_modifier.bonus_percent} and condition {init_skill_modifier.with_condition}. Please contact a dev.\n"
         )
-- 
2.43.0


From 8725c97a8b6edb5bf954687b46e4effaa8acd4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:48 +0000
Subject: [PATCH 41/42] fix: follow-ups with no buff or debuff in any condition
 do not count as having one

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index 200d936..6af854b 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -104,14 +104,14 @@ class Skill:
             # check if there is a party effect on any followup
             if isinstance(self.follow_up_skills, tuple):
                 for follow_up in self.follow_up_skills:
-                    if getattr(follow_up.skill, spec_to_use) is not None:
+                    if getattr(follow_up.skill, field_to_use):
                         res = True
                         break
             elif isinstance(self.follow_up_skills, dict):
                 for _, follow_ups in self.follow_up_skills.items():
                     for follow_up in follow_ups:
 
-                        if getattr(follow_up.skill, spec_to_use) is not None:
+                        if getattr(follow_up.skill, field_to_use):
                             res = True
                             break
             object.__setattr__(self, field_to_use, res)
-- 
2.43.0


From 413a7a77d27b8ef77dbe4cd29c3dee55342dbbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:48 +0000
Subject: [PATCH 42/42] fix: downtime applies to each of several targets at the
 time it is hit

---
 .../simulator/timeline_builders/rotation_builder.py        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 1e22e51..d87cc39 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -752,9 +752,14 @@ class RotationBuilder:
             all_valid_targets = []
             for target in targets:
                 skill_damage_spec = skill.get_damage_spec(skill_modifier)
+                # each target is hit after those before it.
+                target_application_time = (
+                    application_time
+                    + len(all_valid_targets) * GameConsts.MULTI_TARGET_DELAY_PER_TARGET
+                )
                 if skill_damage_spec is not None and (
                     self.__filter_by_downtime_range_and_damage_class(
-                        application_time, target, skill_damage_spec.damage_class
+                        target_application_time, target, skill_damage_spec.damage_class
                     )
                     or self.__filter_by_downtime_range_and_damage_class(
                         snapshot_time, target, skill_damage_spec.damage_class
-- 
2.43.0

