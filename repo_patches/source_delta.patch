From 13f16736b29f5e82849b240de45410ae9bd24a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:42 +0000
Subject: [PATCH 01/24] fix: balloon.py fails to import on Python >= 3.11
 (unhashable dataclass defaults)

---
 .../env/balloon/balloon.py                    | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/balloon.py b/balloon_learning_environment/env/balloon/balloon.py
index 28d8fbe..5192aca 100644
--- a/balloon_learning_environment/env/balloon/balloon.py
+++ b/balloon_learning_environment/env/balloon/balloon.py
@@ -164,16 +164,22 @@ class BalloonState(object):
   # 78.5kg for the payload plus 14kg of ballast.
   payload_mass: float = 92.5  # [kg]
 
-  nighttime_power_load: units.Power = units.Power(watts=183.7)
-  daytime_power_load: units.Power = units.Power(watts=120.4)
+  nighttime_power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=183.7))
+  daytime_power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=120.4))
 
-  acs_valve_hole_diameter: units.Distance = units.Distance(m=0.04)
+  acs_valve_hole_diameter: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0.04))
 
-  battery_capacity: units.Energy = units.Energy(watt_hours=3058.56)
+  battery_capacity: units.Energy = dataclasses.field(
+      default_factory=lambda: units.Energy(watt_hours=3058.56))
 
   # State of the system.
-  x: units.Distance = units.Distance(m=0)
-  y: units.Distance = units.Distance(m=0)
+  x: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0))
+  y: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0))
 
   pressure: float = 6000.0  # [Pa]
 
@@ -186,13 +192,17 @@ class BalloonState(object):
   envelope_volume: float = 1804.0  # [kg/s]
   superpressure: float = 0  # [Pa]
 
-  acs_power: units.Power = units.Power(watts=0)
+  acs_power: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
   acs_mass_flow: float = 0  # [kg/s]
 
-  solar_charging: units.Power = units.Power(watts=0)
-  power_load: units.Power = units.Power(watts=0)
+  solar_charging: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
+  power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
   # battery_charge initialized to 95% capacity.
-  battery_charge: units.Energy = units.Energy(watt_hours=2905.6)
+  battery_charge: units.Energy = dataclasses.field(
+      default_factory=lambda: units.Energy(watt_hours=2905.6))
 
   last_command: control.AltitudeControlCommand = (
       control.AltitudeControlCommand.STAY)
-- 
2.43.0


From 8b6ef172b1c5be80bf863363647bea3f34f053ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:02 +0000
Subject: [PATCH 02/24] fix: vae.py fails to import on Python >= 3.11
 (unhashable dataclass default)

---
 balloon_learning_environment/generative/vae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/generative/vae.py b/balloon_learning_environment/generative/vae.py
index b7f6545..6d08c3b 100644
--- a/balloon_learning_environment/generative/vae.py
+++ b/balloon_learning_environment/generative/vae.py
@@ -135,7 +135,7 @@ class Decoder(nn.Module):
   """A decoder network for a variational autoencoder."""
   num_hidden_layers: int = 3
   hidden_layer_network_width: int = 1000
-  field_shape: FieldShape = FieldShape()
+  field_shape: FieldShape = dataclasses.field(default_factory=FieldShape)
 
   @nn.compact
   def __call__(self, z: jnp.ndarray) -> jnp.ndarray:
@@ -191,7 +191,7 @@ class WindFieldVAE(nn.Module):
   """Class that learns a VAE to generate wind fields."""
   num_latents: int = 64
   reparameterize_latents: bool = True
-  field_shape: FieldShape = FieldShape()
+  field_shape: FieldShape = dataclasses.field(default_factory=FieldShape)
 
   def setup(self):
     self.encoder = Encoder(self.num_latents)
-- 
2.43.0


From 052e5d571d5666f43b08b1b840da85d0cb8f07ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:02 +0000
Subject: [PATCH 03/24] fix: solar_calculator never rejected invalid latitudes
 (is_valid was not called)

---
 balloon_learning_environment/env/balloon/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 0350e02..6e4bec9 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -57,7 +57,7 @@ def solar_calculator(latlng: s2.LatLng,
     flux: Solar flux in W/m^2.
   """
   # Check if latitude is within expected range.
-  if not latlng.is_valid:
+  if not latlng.is_valid():
     raise ValueError(f'solar_calculator: latlng is invalid: {latlng}.')
   if time.tzinfo is None:
     raise ValueError('time parameter needs timezone. Try UTC.')
-- 
2.43.0


From 83dfb5567d3e5ddc310db95e9b02172e4227ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:02 +0000
Subject: [PATCH 04/24] fix: load_perciatelli44 leaked NotFoundError instead of
 RuntimeError

---
 balloon_learning_environment/models/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/models/models.py b/balloon_learning_environment/models/models.py
index b33aecf..3dede13 100644
--- a/balloon_learning_environment/models/models.py
+++ b/balloon_learning_environment/models/models.py
@@ -122,7 +122,7 @@ def load_perciatelli44(path: Optional[str] = None) -> bytes:
   try:
     with tf.io.gfile.GFile(_PERCIATELLI44_RELATIVE_PATH, 'rb') as f:
       return f.read()
-  except FileNotFoundError:
+  except tf.errors.NotFoundError:
     pass
 
   raise RuntimeError(
-- 
2.43.0


From efce65dffbbeef199de5ce1ba448c0ebe78b4443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:02 +0000
Subject: [PATCH 05/24] fix: undo_squash_to_unit_interval never rejected values
 outside [0, 1)

---
 balloon_learning_environment/utils/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/transforms.py b/balloon_learning_environment/utils/transforms.py
index c92f7be..2cd83fc 100644
--- a/balloon_learning_environment/utils/transforms.py
+++ b/balloon_learning_environment/utils/transforms.py
@@ -89,6 +89,6 @@ def undo_squash_to_unit_interval(x: float, constant: float) -> float:
   """Computes the input value of squash_to_unit_interval given the output."""
   if constant <= 0:
     raise ValueError('Squash constant must be greater than zero.')
-  if 0 > x >= 1:
+  if not 0 <= x < 1:
     raise ValueError('Undo squash can only be performed on a value in [0, 1).')
   return (x * constant) / (1 - x)
-- 
2.43.0


From a48ac365f4d1217ed3dd9b07706182366bdd3001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:02 +0000
Subject: [PATCH 06/24] fix: wind_at never rejected invalid wind levels

---
 balloon_learning_environment/env/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/features.py b/balloon_learning_environment/env/features.py
index aabe1aa..1b05f48 100644
--- a/balloon_learning_environment/env/features.py
+++ b/balloon_learning_environment/env/features.py
@@ -231,7 +231,7 @@ class NamedPerciatelliFeatures:
     Args:
       level: the query pressure level.
     """
-    if 0 > level >= self.num_pressure_levels:
+    if not 0 <= level < self.num_pressure_levels:
       raise ValueError(f'Invalid wind level: {level}')
 
     wind = self._winds[level * 3:level * 3 + 3]
-- 
2.43.0


From 52ba3f551ffc3451fef0f3e5902574c98e7ffc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:02 +0000
Subject: [PATCH 07/24] fix: Energy >= non-Energy returned the ValueError
 instead of raising it

---
 balloon_learning_environment/utils/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/units.py b/balloon_learning_environment/utils/units.py
index d923a96..7858d5e 100644
--- a/balloon_learning_environment/utils/units.py
+++ b/balloon_learning_environment/utils/units.py
@@ -249,7 +249,7 @@ class Energy(object):
     if isinstance(other, Energy):
       return self.watt_hours >= other.watt_hours
     else:
-      return ValueError(f'Cannot compare Energy and {type(other)}')
+      raise ValueError(f'Cannot compare Energy and {type(other)}')
 
 
 class Power(object):
-- 
2.43.0


From a3ecbd15dc46d2185c3724bcbad85c17e5e31ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:35 +0000
Subject: [PATCH 08/24] fix: simulate_step truncated fractional seconds when
 checking and counting sub-steps

---
 balloon_learning_environment/env/balloon/balloon.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/balloon.py b/balloon_learning_environment/env/balloon/balloon.py
index 5192aca..fe3eb39 100644
--- a/balloon_learning_environment/env/balloon/balloon.py
+++ b/balloon_learning_environment/env/balloon/balloon.py
@@ -322,13 +322,11 @@ class Balloon:
     effective_action = self.state.altitude_safety_layer.get_action(
         effective_action, atmosphere, self.state.pressure)
 
-    outer_stride = int(time_delta.total_seconds())
-    inner_stride = int(stride.total_seconds())
-    assert outer_stride % inner_stride == 0, (
+    assert time_delta % stride == dt.timedelta(), (
         f'The outer simulation stride (time_delta={time_delta}) must be a '
         f'multiple of the inner simulation stride (stride={stride})')
 
-    for _ in range(outer_stride // inner_stride):
+    for _ in range(time_delta // stride):
       state_changes = _simulate_step_internal(
           self.state, wind_vector, atmosphere, effective_action, stride)
       for k, v in state_changes.items():
-- 
2.43.0


From f8f8380e61cd21085194ca01cb714dea60aee9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:49 +0000
Subject: [PATCH 09/24] fix: solar_calculator uses the UTC calendar date for
 non-UTC times

---
 balloon_learning_environment/env/balloon/solar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 6e4bec9..189f01b 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -61,6 +61,8 @@ def solar_calculator(latlng: s2.LatLng,
     raise ValueError(f'solar_calculator: latlng is invalid: {latlng}.')
   if time.tzinfo is None:
     raise ValueError('time parameter needs timezone. Try UTC.')
+  # The calendar date below must belong to the same (UTC) day as the fraction.
+  time = time.astimezone(dt.timezone.utc)
 
   # Compute fraction_of_day from time.
   fraction_of_day = (
-- 
2.43.0


From 0d27ef798d54da06abf3f03e433707c3d47580c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:24 +0000
Subject: [PATCH 10/24] fix: sunrise/sunset search assumed a symmetric
 elevation curve (off by up to an hour)

---
 balloon_learning_environment/env/balloon/solar.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 189f01b..f90ea42 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -358,12 +358,13 @@ def _find_solar_elevation_binary_search(
 
   # Binary search the function for its minimum.
   while high > low + 1:
-    midpoint = low + (high - low) / 2
-    if objective[low] < objective[high]:
-      # This trick works when the function is symmetric around its minimum.
-      high = math.ceil(midpoint)  # Ceil/floor is a bit more conservative.
+    midpoint = (low + high) // 2
+    # The slope at the midpoint tells on which side the minimum lies. (Comparing
+    # the end points instead is only right for symmetric objectives.)
+    if objective[midpoint] < objective[midpoint + 1]:
+      high = midpoint
     else:
-      low = math.floor(midpoint)
+      low = midpoint + 1
 
   # If all went well, the minimum is either high or low.
   if objective[low] < objective[high]:
-- 
2.43.0


From 0623865136f9e9896328f0ad829b1229f1ba6de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:32 +0000
Subject: [PATCH 11/24] fix: calculate_latlng_from_offset raised a math domain
 error at the poles

---
 balloon_learning_environment/utils/spherical_geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/spherical_geometry.py b/balloon_learning_environment/utils/spherical_geometry.py
index 4b5c9a5..4464ff0 100644
--- a/balloon_learning_environment/utils/spherical_geometry.py
+++ b/balloon_learning_environment/utils/spherical_geometry.py
@@ -69,7 +69,8 @@ def calculate_latlng_from_offset(center_latlng: s2.LatLng,
   d_lng = math.atan2(sin_angle * cos_from_lat * math.sin(heading),
                      cos_angle - sin_from_lat * sin_lat)
 
-  new_lat = math.asin(sin_lat)
+  # Rounding can push sin_lat slightly outside of [-1, 1] at the poles.
+  new_lat = math.asin(min(max(sin_lat, -1.0), 1.0))
   new_lat = min(max(new_lat, -math.pi / 2.0), math.pi / 2.0)
   new_lng = center_latlng.lng().radians + d_lng
 
-- 
2.43.0


From 75e6fffa420324a1f57bd4f4948f1cdb59ce51b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:17 +0000
Subject: [PATCH 12/24] fix: WindGP.query crashed once all measurements had
 expired

---
 balloon_learning_environment/env/wind_gp.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/wind_gp.py b/balloon_learning_environment/env/wind_gp.py
index a19fbfc..1d4dc00 100644
--- a/balloon_learning_environment/env/wind_gp.py
+++ b/balloon_learning_environment/env/wind_gp.py
@@ -183,11 +183,17 @@ class WindGP(object):
 
         inputs = inputs[fresh_observations]
         targets = targets[fresh_observations]
-      self.model.fit(inputs, targets)
 
-      # Output should be a N x 2 set of predictions about local measurements,
-      # and a N-sized vector of standard deviations.
-      means, deviations = self.model.predict(locations, return_std=True)
+      if len(inputs) > 0:
+        self.model.fit(inputs, targets)
+
+        # Output should be a N x 2 set of predictions about local measurements,
+        # and a N-sized vector of standard deviations.
+        means, deviations = self.model.predict(locations, return_std=True)
+      else:
+        # All measurements have expired: all that is left is the GP's prior.
+        means = np.zeros((locations.shape[0], 2))
+        deviations = np.full(locations.shape[0], np.sqrt(_SIGMA_EXP_SQUARED))
 
       # Deviations are std.dev., convert to variance and normalize.
       # TODO(bellemare): Ask what the actual lower bound is supposed to
-- 
2.43.0


From b6fd984e62758c9579e7ce5b54431d641efcd68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:17 +0000
Subject: [PATCH 13/24] fix: WindGP claimed full confidence (0) before the
 first measurement

---
 balloon_learning_environment/env/wind_gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/wind_gp.py b/balloon_learning_environment/env/wind_gp.py
index 1d4dc00..a729a24 100644
--- a/balloon_learning_environment/env/wind_gp.py
+++ b/balloon_learning_environment/env/wind_gp.py
@@ -160,7 +160,7 @@ class WindGP(object):
     # observation. Should cache. Premature optimization is the root, etc.
     if not self.measurement_locations:
       means = np.zeros((locations.shape[0], 2))
-      deviations = np.zeros(locations.shape[0])
+      deviations = np.ones(locations.shape[0])
     else:
       if len(self.measurement_locations) == 1:
         # Needed because hstack will leave the dims unchanged with a single
-- 
2.43.0


From 756060246816ded168a7c019ade8c2b9e204e08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:01 +0000
Subject: [PATCH 14/24] fix: NamedPerciatelliFeatures swapped
 navigation_enabled and navigation_paused

---
 balloon_learning_environment/env/features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/env/features.py b/balloon_learning_environment/env/features.py
index 1b05f48..b274018 100644
--- a/balloon_learning_environment/env/features.py
+++ b/balloon_learning_environment/env/features.py
@@ -214,8 +214,8 @@ class NamedPerciatelliFeatures:
     elif last_command_idx == 2:
       self.last_command = control.AltitudeControlCommand.DOWN
 
-    self.navigation_enabled = ambient_features[11]
-    self.navigation_paused = ambient_features[12]
+    self.navigation_paused = ambient_features[11]
+    self.navigation_enabled = ambient_features[12]
 
     self.has_excess_energy = ambient_features[13]
     self.descent_cost = ambient_features[14]
-- 
2.43.0


From b47968d370e639ef9fb146350bd2f98c49a196e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:21 +0000
Subject: [PATCH 15/24] fix: combine_eval_shards merged shards of other models
 with the same prefix

---
 balloon_learning_environment/eval/combine_eval_shards.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/eval/combine_eval_shards.py b/balloon_learning_environment/eval/combine_eval_shards.py
index 5abc5e0..2c3ad5d 100644
--- a/balloon_learning_environment/eval/combine_eval_shards.py
+++ b/balloon_learning_environment/eval/combine_eval_shards.py
@@ -20,6 +20,7 @@ r"""Combines sharded eval results into a single json file.
 import glob
 import json
 import os
+import re
 from typing import Sequence
 
 from absl import app
@@ -45,7 +46,13 @@ def main(argv: Sequence[str]) -> None:
   for model in FLAGS.models:
     data = list()
 
-    for path in glob.glob(os.path.join(FLAGS.path, f'{model}_*.json')):
+    # The glob alone also matches other models whose name starts the same way
+    # (e.g. random_walk_0.json for random).
+    is_shard = re.compile(re.escape(model) + r'_\d+\.json').fullmatch
+    prefix = glob.escape(os.path.join(FLAGS.path, model))
+    for path in glob.glob(f'{prefix}_*.json'):
+      if not is_shard(os.path.basename(path)):
+        continue
       with open(path, 'r') as f:
         data.extend(json.load(f))
 
-- 
2.43.0


From f514f1ff30ab2b78dfb58e9af46340e4aa8283da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:00 +0000
Subject: [PATCH 16/24] fix: checkpoints were lost among files with similar
 names

---
 balloon_learning_environment/agents/dopamine_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/balloon_learning_environment/agents/dopamine_utils.py b/balloon_learning_environment/agents/dopamine_utils.py
index 24e3c65..f5ef930 100644
--- a/balloon_learning_environment/agents/dopamine_utils.py
+++ b/balloon_learning_environment/agents/dopamine_utils.py
@@ -38,7 +38,9 @@ def _is_checkpoint_name(file_name: str) -> bool:
   if len(parts) != 2:
     return False
 
-  return parts[0] == 'checkpoint' and len(parts[1]) == 5
+  # Iteration numbers are padded to five digits, but may be longer.
+  return (parts[0] == 'checkpoint' and len(parts[1]) >= 5 and
+          parts[1].isdecimal())
 
 
 def _get_checkpoint_iteration(checkpoint_name: str) -> int:
@@ -87,12 +89,12 @@ def load_checkpoint(
 
 def get_latest_checkpoint(checkpoint_dir: str) -> int:
   """Find the episode ID of the latest checkpoint, if any."""
-  glob = osp.join(checkpoint_dir, 'checkpoint_*.pkl')
   def extract_episode(x):
     return int(x[x.rfind('checkpoint_') + 11:-4])
 
   try:
-    checkpoint_files = tf.io.gfile.glob(glob)
+    checkpoint_files = [x for x in tf.io.gfile.listdir(checkpoint_dir)
+                        if _is_checkpoint_name(x)]
   except tf.errors.NotFoundError:
     logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
     return -1
-- 
2.43.0


From 3428c6361ac3ca487662b3f7a9b18dd3d8ca4f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:36 +0000
Subject: [PATCH 17/24] fix: MLP and StationSeeker agents could not end an
 episode without the terminal flag

---
 balloon_learning_environment/agents/mlp_agent.py            | 2 +-
 balloon_learning_environment/agents/station_seeker_agent.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/agents/mlp_agent.py b/balloon_learning_environment/agents/mlp_agent.py
index a3b5af1..d68bdd3 100644
--- a/balloon_learning_environment/agents/mlp_agent.py
+++ b/balloon_learning_environment/agents/mlp_agent.py
@@ -140,7 +140,7 @@ class MLPAgent(agent.Agent):
     self.last_action = action
     return action
 
-  def end_episode(self, reward: float, terminal: bool) -> None:
+  def end_episode(self, reward: float, terminal: bool = True) -> None:
     pass
 
   def set_mode(self, mode: Union[agent.AgentMode, str]) -> None:
diff --git a/balloon_learning_environment/agents/station_seeker_agent.py b/balloon_learning_environment/agents/station_seeker_agent.py
index a353bdf..83a68a7 100644
--- a/balloon_learning_environment/agents/station_seeker_agent.py
+++ b/balloon_learning_environment/agents/station_seeker_agent.py
@@ -66,7 +66,7 @@ class StationSeekerAgent(agent.Agent):
 
     return self.pick_action(observation)
 
-  def end_episode(self, reward: float, terminal: bool) -> None:
+  def end_episode(self, reward: float, terminal: bool = True) -> None:
     pass
 
   def pick_action(self, features_as_vector: np.ndarray) -> int:
-- 
2.43.0


From 33b98cca050f65cdf40d88e51ebe978791c5c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:40 +0000
Subject: [PATCH 18/24] fix: weights at an unreadable path leaked a TensorFlow
 error instead of ValueError

---
 balloon_learning_environment/models/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/models/models.py b/balloon_learning_environment/models/models.py
index 3dede13..46758f6 100644
--- a/balloon_learning_environment/models/models.py
+++ b/balloon_learning_environment/models/models.py
@@ -57,7 +57,7 @@ def load_offlineskies22(path: Optional[str] = None) -> bytes:
     try:
       with tf.io.gfile.GFile(path, 'rb') as f:
         return f.read()
-    except tf.errors.NotFoundError:
+    except tf.errors.OpError:
       raise ValueError(f'offlineskies22 checkpoint not found at {path}')
 
   # Attempt 2: Load from location expected in the built wheel.
@@ -107,7 +107,7 @@ def load_perciatelli44(path: Optional[str] = None) -> bytes:
     try:
       with tf.io.gfile.GFile(path, 'rb') as f:
         return f.read()
-    except tf.errors.NotFoundError:
+    except tf.errors.OpError:
       raise ValueError(f'perciatelli44 checkpoint not found at {path}')
 
   # Attempt 2: Load from location expected in the built wheel.
-- 
2.43.0


From 809ca9caee9e4ce81b9bf4d0481e43936187e1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:56 +0000
Subject: [PATCH 19/24] fix: draw frames with Matplotlib 3.10 and later

FigureCanvasAgg.tostring_rgb() is gone since Matplotlib 3.10, so every
rgb_array and tensorboard frame raised AttributeError. Read the RGBA
buffer and drop the alpha channel.
---
 .../env/rendering/matplotlib_renderer.py                    | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/rendering/matplotlib_renderer.py b/balloon_learning_environment/env/rendering/matplotlib_renderer.py
index 4107140..917a87c 100644
--- a/balloon_learning_environment/env/rendering/matplotlib_renderer.py
+++ b/balloon_learning_environment/env/rendering/matplotlib_renderer.py
@@ -108,10 +108,8 @@ class MatplotlibRenderer(renderer.Renderer):
       plt.pause(0.001)  # Renders the image and runs the GUI loop.
     elif mode == 'rgb_array' or mode == 'tensorboard':
       self._fig.canvas.draw()
-      rgb_string = self._fig.canvas.tostring_rgb()
-      width, height = self._fig.canvas.get_width_height()
-      frame = np.frombuffer(
-          rgb_string, dtype=np.uint8).reshape(height, width, -1)
+      # NOTE: The canvas has no tostring_rgb() since Matplotlib 3.10.
+      frame = np.array(self._fig.canvas.buffer_rgba())[:, :, :3]
       if mode == 'rgb_array':
         return frame
 
-- 
2.43.0


From c2c359a515e5941f1030b1a68bf12eeaf8af0bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:56 +0000
Subject: [PATCH 20/24] fix: decode winds to the field shape the VAE is
 configured with

WindFieldVAE passed its field shape to neither of its parts, so any
shape but the default came out with the default size.
---
 balloon_learning_environment/generative/vae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/vae.py b/balloon_learning_environment/generative/vae.py
index 6d08c3b..578fb2a 100644
--- a/balloon_learning_environment/generative/vae.py
+++ b/balloon_learning_environment/generative/vae.py
@@ -195,7 +195,7 @@ class WindFieldVAE(nn.Module):
 
   def setup(self):
     self.encoder = Encoder(self.num_latents)
-    self.decoder = Decoder()
+    self.decoder = Decoder(field_shape=self.field_shape)
     self.sigma = self.variable('params', 'sigma', lambda: 1.)
 
   def __call__(self, x: jnp.ndarray, z_rng: jnp.ndarray) -> VAEOutput:
-- 
2.43.0


From 5ccdf4d49ffb4ca2bfcbb9ee1d878e4759882b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:56 +0000
Subject: [PATCH 21/24] fix: an evaluation batch of zero fields is empty

dataset[-0:] is the whole dataset: with eval_batch_size=0 all training
fields were handed out for evaluation.
---
 .../generative/dataset_wind_field_reservoir.py                 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/dataset_wind_field_reservoir.py b/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
index e1a6b52..92c8b7f 100644
--- a/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
+++ b/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
@@ -78,4 +78,5 @@ class DatasetWindFieldReservoir(wind_field_reservoir.WindFieldReservoir):
       vae.py).
     """
 
-    return self.dataset[-self.eval_batch_size:, ...]
+    num_train = max(self.dataset.shape[0] - self.eval_batch_size, 0)
+    return self.dataset[num_train:, ...]
-- 
2.43.0


From bad87bb9d3a6f711963adf98690917c24a0e4617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:56 +0000
Subject: [PATCH 22/24] fix: units.datetime with tzinfo None is UTC as
 documented

The docstring promises that None defaults to UTC, but a naive datetime
came out, whose timestamp depends on the machine's time zone.
---
 balloon_learning_environment/utils/units.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/units.py b/balloon_learning_environment/utils/units.py
index 7858d5e..fc1d039 100644
--- a/balloon_learning_environment/utils/units.py
+++ b/balloon_learning_environment/utils/units.py
@@ -324,7 +324,7 @@ def datetime(year: int,
              minute: int = 0,
              second: int = 0,
              microsecond: int = 0,
-             tzinfo: dt.tzinfo = dt.timezone.utc,
+             tzinfo: typing.Optional[dt.tzinfo] = dt.timezone.utc,
              *,
              fold: int = 0) -> dt.datetime:
   """Creates a datetime with a default timezone of UTC.
@@ -353,6 +353,8 @@ def datetime(year: int,
   Returns:
     A timezone object.
   """
+  if tzinfo is None:
+    tzinfo = dt.timezone.utc
   # pylint: disable=g-tzinfo-datetime
   return dt.datetime(
       year, month, day, hour, minute, second, microsecond, tzinfo, fold=fold)
-- 
2.43.0


From 39d11c93a154d59bc1b5a24b7eab8bcf50cd32d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:08 +0000
Subject: [PATCH 23/24] fix: the Julian day of March to August 2100 and January
 2101

The published conversion truncates (month - 9) / 7 towards zero. Keeping its
fraction made the sun of those months that of the day before.
---
 balloon_learning_environment/env/balloon/solar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index f90ea42..04d8025 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -70,9 +70,12 @@ def solar_calculator(latlng: s2.LatLng,
       constants.NUM_SECONDS_PER_DAY) / constants.NUM_SECONDS_PER_DAY
 
   # Compute Julian day number from Gregorian calendar.
+  # Note: the divisions by 7 and 9 truncate (towards zero), as in the published
+  # formula. Otherwise parts of 2100 and 2101 are a day off.
   julian_day_number = (367.0 * time.year - np.floor(7.0 * (time.year + np.floor(
       (time.month + 9.0) / 12.0)) / 4.0) - np.floor(3.0 * (np.floor(
-          (time.year + (time.month - 9.0) / 7.0) / 100.0) + 1.0) / 4.0) +
+          (time.year + np.trunc((time.month - 9.0) / 7.0)) / 100.0) + 1.0) /
+                                                    4.0) +
                        np.floor(275.0 * time.month / 9.0) + time.day +
                        1721028.5)
 
-- 
2.43.0


From 148b7f476e6450818578a92b6db622ae2f8e869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:23 +0000
Subject: [PATCH 24/24] fix: the sun in the zenith has an elevation

Rounding could push the cosine of the zenith angle above 1, which made the
elevation and azimuth NaN at places straight below the sun.
---
 balloon_learning_environment/env/balloon/solar.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 04d8025..ce92ce1 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -137,10 +137,12 @@ def solar_calculator(latlng: s2.LatLng,
   declination_sun = np.arcsin(
       np.sin(obliquity_correction) * np.sin(apparent_long_sun))
 
-  zenith_angle = np.arccos(
+  # Rounding can push cos_zenith slightly outside of [-1, 1].
+  cos_zenith = (
       np.sin(latlng.lat().radians) * np.sin(declination_sun) +
       np.cos(latlng.lat().radians) * np.cos(declination_sun) *
       np.cos(hour_angle))
+  zenith_angle = np.arccos(np.clip(cos_zenith, -1.0, 1.0))
 
   # Compute solar elevation. Correct for atmospheric refraction.
   el_uncorrected_deg = 90.0 - math.degrees(zenith_angle)
@@ -161,10 +163,11 @@ def solar_calculator(latlng: s2.LatLng,
 
   el_deg = el_uncorrected_deg + atmospheric_refraction / 3600.0
 
-  # Compute solar azimuth. Make sure cos_azimuth is in the range [-1, 1].
+  # Compute solar azimuth. Make sure cos_azimuth is in the range [-1, 1]. (With
+  # the sun in the zenith any azimuth is right.)
   cos_az = ((np.sin(latlng.lat().radians) * np.cos(zenith_angle) -
              np.sin(declination_sun)) /
-            (np.cos(latlng.lat().radians) * np.sin(zenith_angle)))
+            (np.cos(latlng.lat().radians) * max(np.sin(zenith_angle), 1e-12)))
   az_unwrapped = np.arccos(np.clip(cos_az, -1.0, 1.0))
   if hour_angle > 0:
     az_deg = math.degrees(az_unwrapped) + 180.0
-- 
2.43.0

