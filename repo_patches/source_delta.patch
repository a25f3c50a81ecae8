From 9d9bb7afd51cea89eb08cd1fe7b70b73ca5a5c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 01/56] fix: simulators no longer share bookkeeping across
 instances and runs

---
 src/dg_commons/sim/simulator.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index d13061e..114d153 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -73,15 +73,20 @@ class Simulator:
         - A post-update function that checks the new states of all the models and resolves collisions
     """
 
-    # fixme check if this is okay once you have multiple simulators running together
-    last_observations: SimObservations = SimObservations(players=fd({}), time=Decimal(0))
-    last_get_commands_ts: SimTime = SimTime("-Infinity")
-    last_commands: dict[PlayerName, U] = {}
-    simlogger: dict[PlayerName, PlayerLogger] = {}
+    def __init__(self):
+        self._reset()
+
+    def _reset(self):
+        """Every simulator (and every run of it) starts from its own, empty bookkeeping"""
+        self.last_observations: SimObservations = SimObservations(players=fd({}), time=Decimal(0))
+        self.last_get_commands_ts: SimTime = SimTime("-Infinity")
+        self.last_commands: dict[PlayerName, U] = {}
+        self.simlogger: dict[PlayerName, PlayerLogger] = {}
 
     @time_function
     def run(self, sim_context: SimContext):
         logger.info("~~~~~> Beginning simulation")
+        self._reset()
         # initialize the simulation
         for player_name, player in sim_context.players.items():
             scenario = deepcopy(sim_context.dg_scenario)
-- 
2.43.0


From 0413fd032872af28d8eb84a4b253c384c05ce2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 02/56] fix: hold and log the commands as they were when the
 agent issued them

---
 src/dg_commons/sim/simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index 114d153..4c8e388 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -142,7 +142,8 @@ class Simulator:
                     sim_context.dg_scenario, self.last_observations, player_name
                 )
                 tic = perf_counter()
-                cmds = agent.get_commands(p_observations)
+                # the agent might keep and modify the object it returned, what we hold and log must not change with it
+                cmds = deepcopy(agent.get_commands(p_observations))
                 toc = perf_counter()
                 self.last_commands[player_name] = cmds
                 self.simlogger[player_name].commands.add(t=t, v=cmds)
-- 
2.43.0


From 1bd106e82dcfb218824cb435d220ba674e235362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 03/56] fix: footprints that merely touch no longer crash the
 simulation

---
 src/dg_commons/sim/simulator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index 4c8e388..a284031 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -215,6 +215,9 @@ class Simulator:
             items = env_obstacles.query(p_shape, predicate="intersects")
             for idx in items:
                 sobstacle = sim_context.dg_scenario.static_obstacles[idx]
+                if p_shape.touches(sobstacle.shape):
+                    # bodies merely in contact (no penetration) do not have an impact geometry to resolve
+                    continue
                 try:
                     report: Optional[CollisionReport] = resolve_collision_with_environment(
                         p, p_model, sobstacle, sim_context.time
@@ -245,7 +248,8 @@ class Simulator:
         for p1, p2 in combinations(sim_context.players, 2):
             a_shape = sim_context.models[p1].get_footprint()
             b_shape = sim_context.models[p2].get_footprint()
-            if a_shape.intersects(b_shape):
+            # bodies merely in contact (no penetration) do not have an impact geometry to resolve
+            if a_shape.intersects(b_shape) and not a_shape.touches(b_shape):
                 try:
                     report: Optional[CollisionReport] = resolve_collision(p1, p2, sim_context)
                 except CollisionException as e:
-- 
2.43.0


From 6bee2121198cfb41e863c137cb3a1df780d6fcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 04/56] fix: LFAgent's lights sequence no longer depends on the
 process' hash seed

---
 src/dg_commons/sim/agents/lane_follower.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index fd0a8cd..44763d2 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -40,7 +40,7 @@ class LFAgent(Agent):
         self.return_extra: bool = return_extra
         self._emergency: bool = False
         self._my_obs: Optional[X] = None
-        self.lights_test_seq = DgSampledSequence[LightsCmd](timestamps=[0, 2, 4, 6, 8], values=list(LightsValues))
+        self.lights_test_seq = DgSampledSequence[LightsCmd](timestamps=[0, 2, 4, 6, 8], values=sorted(LightsValues))
 
     def on_episode_init(self, init_sim_obs: InitSimObservations):
         self.my_name = init_sim_obs.my_name
-- 
2.43.0


From 56281f4b953f745b7613daa7627bd1415c76a42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 05/56] fix: agents no longer share the observation objects
 they receive

---
 src/dg_commons/sim/simulator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index a284031..502dfbf 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -138,8 +138,11 @@ class Simulator:
             state = sim_context.models[player_name].get_state()
             self.simlogger[player_name].states.add(t=t, v=state)
             if self._need_to_update_commands(sim_context):
-                p_observations = sim_context.sensors[player_name].sense(
-                    sim_context.dg_scenario, self.last_observations, player_name
+                # each agent gets its own copy, what it does with it does not affect what the others (or itself later) see
+                p_observations = deepcopy(
+                    sim_context.sensors[player_name].sense(
+                        sim_context.dg_scenario, self.last_observations, player_name
+                    )
                 )
                 tic = perf_counter()
                 # the agent might keep and modify the object it returned, what we hold and log must not change with it
-- 
2.43.0


From efe804913351cebd94282b7006ca7da60fc69f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 06/56] fix: setting the velocity of a pedestrian no longer
 replaces its speed with its yaw rate

---
 src/dg_commons/sim/models/pedestrian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/pedestrian.py b/src/dg_commons/sim/models/pedestrian.py
index a002d17..3514238 100644
--- a/src/dg_commons/sim/models/pedestrian.py
+++ b/src/dg_commons/sim/models/pedestrian.py
@@ -249,7 +249,7 @@ class PedestrianModel(SimModel[SE2value, float]):
             vel = rot @ vel
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-        self._state.vx = omega
+        self._state.dpsi = omega
 
     @property
     def model_geometry(self) -> PedestrianGeometry:
-- 
2.43.0


From 3a12a7b002af17b9d1ba149fbfb208284372b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 07/56] fix: setting the velocity of a dynamic vehicle sets its
 yaw rate

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index a068cad..917e885 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -215,7 +215,7 @@ class VehicleModelDyn(VehicleModel):
 
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-        self._state.dtheta = omega
+        self._state.dpsi = omega
 
     def get_acceleration_split(self, Facc: float) -> Sequence[float]:
         """Returns split of acceleration force to be applied on front and rear wheel"""
-- 
2.43.0


From 0788efd9f56aff5ddc5b2f162490009e5ae34c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 08/56] fix: spacecraft commands can be rebuilt from an array

---
 src/dg_commons/sim/models/spacecraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/spacecraft.py b/src/dg_commons/sim/models/spacecraft.py
index a13d9ce..b98a5e0 100644
--- a/src/dg_commons/sim/models/spacecraft.py
+++ b/src/dg_commons/sim/models/spacecraft.py
@@ -55,7 +55,7 @@ class SpacecraftCommands:
     @classmethod
     def from_array(cls, z: np.ndarray):
         assert cls.get_n_commands() == z.size == z.shape[0], f"z vector {z} cannot initialize VehicleInputs."
-        return SpacecraftCommands(acc_left=z[cls.idx["acc_left "]], acc_right=z[cls.idx["acc_right"]])
+        return SpacecraftCommands(acc_left=z[cls.idx["acc_left"]], acc_right=z[cls.idx["acc_right"]])
 
 
 @dataclass(unsafe_hash=True, eq=True, order=True)
-- 
2.43.0


From 912e19387e561e34b859090f71877f9d984cb0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 09/56] fix: scaling a dynamic vehicle state from the left
 scales all of its components

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index 917e885..2db8e2b 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -39,6 +39,8 @@ class VehicleStateDyn(VehicleState):
         else:
             raise NotImplementedError
 
+    __radd__ = __add__
+
     def __mul__(self, val: float) -> "VehicleStateDyn":
         return replace(
             self,
@@ -51,6 +53,8 @@ class VehicleStateDyn(VehicleState):
             delta=self.delta * val,
         )
 
+    __rmul__ = __mul__
+
     def as_ndarray(self) -> np.ndarray:
         return np.array([self.x, self.y, self.psi, self.vx, self.vy, self.dpsi, self.delta])
 
-- 
2.43.0


From 033b7264cc3cb9a8edc11ed0cc697cac1518a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 10/56] fix: the rocket's velocity is read and set in the frame
 its dynamics use

---
 src/dg_commons/sim/models/rocket.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/dg_commons/sim/models/rocket.py b/src/dg_commons/sim/models/rocket.py
index a4fce0e..8abc409 100644
--- a/src/dg_commons/sim/models/rocket.py
+++ b/src/dg_commons/sim/models/rocket.py
@@ -276,16 +276,18 @@ class RocketModel(SimModel[RocketState, RocketCommands]):
         vx = self._state.vx
         vy = self._state.vy
         dpsi = self._state.dpsi
-        v_l = np.array([vx, vy])
-        if in_model_frame:
-            return v_l, dpsi
-        rot: SO2value = SO2_from_angle(self._state.psi)
-        v_g = rot @ v_l
-        return v_g, dpsi
+        # the velocities of this model's state are expressed in the global frame
+        v_g = np.array([vx, vy])
+        if not in_model_frame:
+            return v_g, dpsi
+        rot: SO2value = SO2_from_angle(-self._state.psi)
+        v_l = rot @ v_g
+        return v_l, dpsi
 
     def set_velocity(self, vel: T2value, dpsi: float, in_model_frame: bool):
-        if not in_model_frame:
-            rot: SO2value = SO2_from_angle(-self._state.psi)
+        if in_model_frame:
+            # the velocities of this model's state are expressed in the global frame
+            rot: SO2value = SO2_from_angle(self._state.psi)
             vel = rot @ vel
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-- 
2.43.0


From 8117dcbc4c4904cf4b99f1f0170eaf0d395c4b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 11/56] fix: the impact mesh of the differential drive model
 covers its footprint

---
 src/dg_commons/sim/models/diff_drive.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/dg_commons/sim/models/diff_drive.py b/src/dg_commons/sim/models/diff_drive.py
index 2a04efc..f00c605 100644
--- a/src/dg_commons/sim/models/diff_drive.py
+++ b/src/dg_commons/sim/models/diff_drive.py
@@ -178,12 +178,18 @@ class DiffDriveModel(SimModel[DiffDriveState, DiffDriveCommands]):
         footprint = self.get_footprint()
         vertices = footprint.exterior.coords[:-1]
         cxy = footprint.centroid.coords[0]
-        # fixme maybe we can use triangulate from shapely inferring the side from the relative angle
+        # the outline is a circle whose vertices go clockwise from the front, each location is a quarter of it
+        n_vert = len(vertices)
+
+        def _sector(i_center: int) -> Polygon:
+            start, end = i_center * n_vert // 4 - n_vert // 8, (i_center + 1) * n_vert // 4 - n_vert // 8
+            return Polygon([cxy, *[vertices[i % n_vert] for i in range(start, end + 1)], cxy])
+
         impact_locations: Mapping[ImpactLocation, Polygon] = {
-            IMPACT_RIGHT: Polygon([cxy, vertices[0], vertices[3], cxy]),
-            IMPACT_LEFT: Polygon([cxy, vertices[1], vertices[2], cxy]),
-            IMPACT_BACK: Polygon([cxy, vertices[0], vertices[1], cxy]),
-            IMPACT_FRONT: Polygon([cxy, vertices[2], vertices[3], cxy]),
+            IMPACT_RIGHT: _sector(1),
+            IMPACT_LEFT: _sector(3),
+            IMPACT_BACK: _sector(2),
+            IMPACT_FRONT: _sector(0),
         }
         for shape in impact_locations.values():
             assert shape.is_valid
-- 
2.43.0


From 2050b5ccc76f7c0a841c94b08c62ae66b542395f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 12/56] fix: concentric bodies no longer get an undefined
 normal of impact and velocity

---
 src/dg_commons/sim/collision_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index 7149053..2b36f6e 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -98,7 +98,10 @@ def compute_impact_geometry(a: Polygon, b: BaseGeometry) -> (np.ndarray, Point):
     if a.contains(b):
         impact_point = b.centroid
         r_ap = np.array(impact_point.coords[0]) - np.array(a.centroid.coords[0])
-        normal = r_ap / np.linalg.norm(r_ap)
+        r_ap_norm = np.linalg.norm(r_ap)
+        if r_ap_norm < 1.0e-9:
+            raise CollisionException("The normal of impact is undefined for concentric bodies")
+        normal = r_ap / r_ap_norm
     else:
         intersecting_points = _find_intersection_points(a, b)
         impact_point = LineString(intersecting_points).interpolate(0.5, normalized=True)
-- 
2.43.0


From 2aa1394b708a31058de37252cf8fcaf32e3cdf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 13/56] fix: a collision with a wall made of a single segment
 no longer crashes the simulation

---
 src/dg_commons/sim/collision.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/collision.py b/src/dg_commons/sim/collision.py
index 16d7690..e7330cf 100644
--- a/src/dg_commons/sim/collision.py
+++ b/src/dg_commons/sim/collision.py
@@ -189,7 +189,8 @@ def resolve_collision_with_environment(
     )
     # create a report for the "environment" as a fictitious player
     if not isinstance(b_shape, Polygon):
-        b_shape = Polygon(b_shape)
+        # a straight segment does not enclose any area
+        b_shape = Polygon(b_shape) if len(b_shape.coords) > 2 else b_shape.buffer(1.0e-3)
     b_locations = [
         (IMPACT_EVERYWHERE, b_shape),
     ]
-- 
2.43.0


From 75ffef33f07cbde508fe7127f97ea149dc9ab73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 14/56] fix: road boundaries can be built when the gates leave
 a single line of perimeter

---
 src/dg_commons/maps/road_bounds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/maps/road_bounds.py b/src/dg_commons/maps/road_bounds.py
index b302b13..9f53cf1 100644
--- a/src/dg_commons/maps/road_bounds.py
+++ b/src/dg_commons/maps/road_bounds.py
@@ -44,5 +44,6 @@ def build_road_boundary_obstacle(scenario: Scenario, buffer: float = 0.1) -> tup
         ext_bounds = geo.exterior
         for eeg in entrance_exit_gates:
             ext_bounds = ext_bounds.difference(eeg)
-        scenario_bounds += [g for g in ext_bounds.geoms]
+        # the difference can also be empty or consist of a single line
+        scenario_bounds += [g for g in getattr(ext_bounds, "geoms", [ext_bounds]) if not g.is_empty]
     return scenario_bounds, entrance_exit_gates
-- 
2.43.0


From e972b0232eb0305f4faf2bd37129a5de3b790f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 15/56] fix: hitting a ring shaped obstacle where its ends meet
 no longer crashes the simulation

---
 src/dg_commons/sim/collision_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index 2b36f6e..ead027b 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -6,7 +6,7 @@ from typing import Mapping
 import numpy as np
 from commonroad.scenario.lanelet import LaneletNetwork
 from geometry import T2value, SO2value, SO2_from_angle, SE2value
-from shapely import GeometryCollection, MultiPoint, MultiLineString
+from shapely import GeometryCollection, MultiPoint, MultiLineString, line_merge
 from shapely.geometry import Polygon, Point, LineString, MultiPolygon
 from shapely.geometry.base import BaseGeometry
 from toolz import remove
@@ -32,6 +32,9 @@ def velocity_of_P_given_A(vel: T2value, omega: float, vec_ap: T2value) -> T2valu
 def _find_intersection_points(a_shape: Polygon, b_shape: BaseGeometry) -> list[tuple[float, float]]:
     """Returns a list of points"""
     int_shape = a_shape.intersection(b_shape)
+    if isinstance(int_shape, MultiLineString):
+        # consecutive pieces are the same contact, e.g. where the two ends of a ring meet
+        int_shape = line_merge(int_shape)
     if isinstance(int_shape, Polygon):
         points = list(int_shape.exterior.coords[:-1])
     elif isinstance(int_shape, LineString):
@@ -39,13 +42,14 @@ def _find_intersection_points(a_shape: Polygon, b_shape: BaseGeometry) -> list[t
     elif any(
         isinstance(int_shape, shape_t) for shape_t in [MultiPolygon, MultiLineString, MultiPoint, GeometryCollection]
     ):
-        int_shape: Polygon = int_shape.minimum_rotated_rectangle
+        int_shape: BaseGeometry = int_shape.minimum_rotated_rectangle
         logger.warn(
             f"Found multiple contact points between two geometries, collision resolution might not be accurate. "
             f"Try a smaller physics step for improved accuracy."
         )
         # this could still lead to some ill-posed cases
-        points = list(int_shape.exterior.coords[:-1])
+        # the rectangle collapses to a segment if the contact points are aligned
+        points = list(int_shape.exterior.coords[:-1] if isinstance(int_shape, Polygon) else int_shape.coords)
     else:
         raise CollisionException(f"Unable to handle intersection shape: {int_shape}")
 
-- 
2.43.0


From 0014beaa8bef316b3d825825ce7ae5f7dfa663d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 16/56] fix: reports of unresolved collisions can be combined
 with others

---
 src/dg_commons/sim/collision_structures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dg_commons/sim/collision_structures.py b/src/dg_commons/sim/collision_structures.py
index c801620..a6cf97a 100644
--- a/src/dg_commons/sim/collision_structures.py
+++ b/src/dg_commons/sim/collision_structures.py
@@ -75,6 +75,10 @@ def combine_collision_reports(r1: CollisionReport, r2: CollisionReport) -> Colli
     combined_players_report: dict[PlayerName, CollisionReportPlayer] = {}
     for p in first_report.players:
         r1_player, r2_player = first_report.players[p], second_report.players[p]
+        if r1_player is None or r2_player is None:
+            # a collision that could not be resolved has nothing to add
+            combined_players_report[p] = r1_player if r2_player is None else r2_player
+            continue
         combined_players_report[p] = replace(
             r1_player,
             locations=r1_player.locations + r2_player.locations,
-- 
2.43.0


From 939f806cd38567c71bf198c2d37ddcfc29b718e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 17/56] fix: delayed observations are never newer than the
 latency

---
 src/dg_commons/sim/sim_perception.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index ddb5528..deb083f 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -1,5 +1,5 @@
 from abc import ABC, abstractmethod
-from bisect import bisect_left
+from bisect import bisect_right
 from dataclasses import replace
 
 import numpy as np
@@ -112,7 +112,8 @@ class DelayedObsFilter(ObsFilter):
         shifted_t = obs.time + self.latency
         self.obs_history.append((shifted_t, replace(obs, time=shifted_t)))
         history_ts = self._get_obs_history_timestamps()
-        idx = bisect_left(history_ts, obs.time)
+        # the most recent observation that is at least as old as the latency (the very first one until it is available)
+        idx = max(bisect_right(history_ts, obs.time) - 1, 0)
         return self.obs_history[idx][1]
 
     def _get_obs_history_timestamps(self) -> list[SimTime]:
-- 
2.43.0


From d540d308dffe99814090923bd7f42c781ee00c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 18/56] fix: a player that is always ghosted is ghosted at zero
 distance, too

---
 src/dg_commons/sim/sim_perception.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index deb083f..a4cf276 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -146,7 +146,7 @@ class GhostObsFilter(ObsFilter):
         pov_position = extract_2d_position_from_state(obs.players[pov].state)
         ghost_position = extract_2d_position_from_state(obs.players[self.ghost_name].state)
         distance = np.linalg.norm(pov_position - ghost_position)
-        if distance > self.further_than:
+        if self.further_than == 0 or distance > self.further_than:
             # assumes api of frozendict
             filtered_players = obs.players.delete(self.ghost_name)
             obs = replace(obs, players=filtered_players)
-- 
2.43.0


From bda323b911bfbe0500c8a2acb1dbd97b62495c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 19/56] fix: sequences that were not parametrized can be
 iterated, accumulated and built

---
 src/dg_commons/seq/sequence.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/seq/sequence.py b/src/dg_commons/seq/sequence.py
index acff96a..e32cc38 100644
--- a/src/dg_commons/seq/sequence.py
+++ b/src/dg_commons/seq/sequence.py
@@ -65,7 +65,9 @@ class DgSampledSequence(Generic[X]):
 
     @property
     def XT(self) -> Type[X]:
-        return get_args(self.__orig_class__)[0]
+        # unknown when the class was not parametrized
+        args = get_args(getattr(self, "__orig_class__", None))
+        return args[0] if args else object
 
     @property
     def timestamps(self) -> tuple[Timestamp]:
@@ -224,7 +226,9 @@ class DgSampledSequenceBuilder(Generic[X]):
 
     @property
     def XT(self) -> Type[X]:
-        return get_args(self.__orig_class__)[0]
+        # unknown when the class was not parametrized
+        args = get_args(getattr(self, "__orig_class__", None))
+        return args[0] if args else object
 
     def as_sequence(self) -> DgSampledSequence:
         return self.sampled_sequence_type[self.XT](timestamps=self.timestamps, values=self.values)
-- 
2.43.0


From 098a602fdc2625f3127c259141725f50e49ec637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 20/56] fix: find the crossings of sequences with Decimal
 timestamps, too

---
 src/dg_commons/seq/seq_op.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/seq/seq_op.py b/src/dg_commons/seq/seq_op.py
index 9a5f32e..2097143 100644
--- a/src/dg_commons/seq/seq_op.py
+++ b/src/dg_commons/seq/seq_op.py
@@ -1,3 +1,4 @@
+from decimal import Decimal as D
 from operator import add
 
 import numpy as np
@@ -61,6 +62,7 @@ def find_crossings(sequence: DgSampledSequence[float], threshold: float) -> list
         v0, v1 = values[i], values[i_plus_1]
         dt = t1 - t0
         # linear interpolation
-        t = t0 + (v0 / (v0 - v1)) * dt
+        ratio = v0 / (v0 - v1)
+        t = t0 + (D(ratio) if isinstance(dt, D) else ratio) * dt
         crossings.append(t)
     return crossings
-- 
2.43.0


From ac2e76b44002b9563634942ddf1a003733b7b70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 21/56] fix: a command plan can be computed from a trajectory

---
 src/dg_commons/planning/trajectory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index d73d65a..43743cf 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -152,9 +152,9 @@ JointTrajectories = Mapping[PlayerName, Trajectory]
 def commands_plan_from_trajectory(trajectory: Trajectory) -> DgSampledSequence[VehicleCommands]:
     timestamps = []
     commands = []
-    for t0, _, dt, v0, v1 in iterate_with_dt(trajectory):
-        timestamps.append(t0)
-        commands.append(VehicleCommands(acc=(v1.vx - v0.vx) / dt, ddelta=(v1.delta - v0.delta) / dt))
+    for it in iterate_with_dt(trajectory):
+        timestamps.append(it.t0)
+        commands.append(VehicleCommands(acc=(it.v1.vx - it.v0.vx) / it.dt, ddelta=(it.v1.delta - it.v0.delta) / it.dt))
     return DgSampledSequence[VehicleCommands](timestamps, commands)
 
 
-- 
2.43.0


From 3772b9c600a10f41af4835768c9818bf3e259a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 22/56] fix: adding an edge towards a node of a trajectory
 graph does not rewrite its generation

---
 src/dg_commons/planning/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index 43743cf..79d897c 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -176,7 +176,7 @@ class TrajectoryGraph(DiGraph):
         start_time, end_time = states.get_start(), states.get_end()
         self.check_node(node=(start_time, source))
         attr["transition"] = transition
-        if target not in self.nodes:
+        if (end_time, target) not in self.nodes:
             self.add_node(timed_state=(end_time, target), gen=self.nodes.get((start_time, source))["gen"] + 1)
 
         super(TrajectoryGraph, self).add_edge(u_of_edge=(start_time, source), v_of_edge=(end_time, target), **attr)
-- 
2.43.0


From f20faf47cbdfc54bcd8ba85940b54eb3e7f08161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 23/56] fix: trajectory graphs whose branches meet again return
 all trajectories, and the commands along the given one

---
 src/dg_commons/planning/trajectory.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index 79d897c..ed1279e 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -1,10 +1,10 @@
 from dataclasses import replace
 from functools import partial
-from typing import Type, Mapping, Set, Iterator
+from typing import Type, Mapping, Sequence, Set, Iterator
 
 import numpy as np
 from geometry import xytheta_from_SE2
-from networkx import DiGraph, is_directed_acyclic_graph, has_path, shortest_path
+from networkx import DiGraph, all_simple_paths, is_directed_acyclic_graph, has_path, shortest_path
 
 from dg_commons import SE2Transform, PlayerName, X
 from dg_commons.seq.sequence import DgSampledSequence, iterate_with_dt, Timestamp
@@ -197,8 +197,8 @@ class TrajectoryGraph(DiGraph):
         leaves = [node for node, degree in self.out_degree() if degree == 0]
 
         for target in leaves:
-            # trajectories.add(self.get_trajectory(source=source, target=target))
-            trajectories.add(self.get_transition(source=source, target=target))
+            for nodes in all_simple_paths(G=self, source=source, target=target):
+                trajectories.add(self._transition_on_nodes(nodes))
 
         return trajectories
 
@@ -216,7 +216,8 @@ class TrajectoryGraph(DiGraph):
         leaves = [node for node, degree in self.out_degree() if degree == 0]
 
         for target in leaves:
-            trajectories.add(self.get_trajectory(source=source, target=target))
+            for nodes in all_simple_paths(G=self, source=source, target=target):
+                trajectories.add(self._trajectory_on_nodes(nodes))
 
         return trajectories
 
@@ -234,7 +235,10 @@ class TrajectoryGraph(DiGraph):
         if not has_path(G=self, source=source, target=target):
             raise ValueError(f"No path exists between {source, target}!")
 
-        nodes = shortest_path(G=self, source=source, target=target)
+        nodes = list(trajectory)
+        if not all(self.has_edge(*edge) for edge in zip(nodes[:-1], nodes[1:])):
+            # not a sequence of nodes of this graph (e.g. it has intermediate samples)
+            nodes = shortest_path(G=self, source=source, target=target)
         commands = []
         timestamps = []
         for node1, node2 in zip(nodes[:-1], nodes[1:]):
@@ -255,7 +259,9 @@ class TrajectoryGraph(DiGraph):
         if not has_path(G=self, source=source, target=target):
             raise ValueError(f"No path exists between {source, target}!")
 
-        nodes = shortest_path(G=self, source=source, target=target)
+        return self._transition_on_nodes(shortest_path(G=self, source=source, target=target))
+
+    def _transition_on_nodes(self, nodes: Sequence[TimedVehicleState]) -> Trajectory:
         traj: Trajectory = Trajectory(values=[], timestamps=[])
         for node1, node2 in zip(nodes[:-1], nodes[1:]):
             traj = traj.merge_unsafe(self.get_edge_data(u=node1, v=node2)["transition"])
@@ -272,7 +278,10 @@ class TrajectoryGraph(DiGraph):
         if not has_path(G=self, source=source, target=target):
             raise ValueError(f"No path exists between {source, target}!")
 
-        nodes = shortest_path(G=self, source=source, target=target)
+        return self._trajectory_on_nodes(shortest_path(G=self, source=source, target=target))
+
+    @staticmethod
+    def _trajectory_on_nodes(nodes: Sequence[TimedVehicleState]) -> Trajectory:
         states = []
         timestamps = []
         for node in nodes:
-- 
2.43.0


From 1a7b790529cfa4c42db7ee21266980b81c580ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 24/56] fix: the commands sampler derived from the vehicle
 parameters samples accelerations and steering rates

---
 src/dg_commons/planning/commands_sampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/planning/commands_sampler.py b/src/dg_commons/planning/commands_sampler.py
index 7f57ff8..b93a0ec 100644
--- a/src/dg_commons/planning/commands_sampler.py
+++ b/src/dg_commons/planning/commands_sampler.py
@@ -38,9 +38,9 @@ class CommandsSamplerParam:
         :param vp:
         :return:
         """
-        vel_linspace = (vp.vx_limits[0], vp.vx_limits[1], n_acc)
-        steer_linspace = (-vp.delta_max, vp.delta_max, n_steer_rate)
-        return CommandsSamplerParam(dt=dt, n_steps=n_steps, acc=vel_linspace, steer_rate=steer_linspace)
+        acc_linspace = (vp.acc_limits[0], vp.acc_limits[1], n_acc)
+        steer_rate_linspace = (-vp.ddelta_max, vp.ddelta_max, n_steer_rate)
+        return CommandsSamplerParam(dt=dt, n_steps=n_steps, acc=acc_linspace, steer_rate=steer_rate_linspace)
 
 
 class CommandsSampler(TrajGenerator):
-- 
2.43.0


From 42e4764fa690130221fdfd4463141ba93a33aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 25/56] fix: dynamic obstacles respect the limits of their
 rotational acceleration

---
 src/dg_commons/sim/models/obstacles_dyn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/obstacles_dyn.py b/src/dg_commons/sim/models/obstacles_dyn.py
index 5081d12..f71cd42 100644
--- a/src/dg_commons/sim/models/obstacles_dyn.py
+++ b/src/dg_commons/sim/models/obstacles_dyn.py
@@ -195,7 +195,8 @@ class DynObstacleModel(SimModel[DynObstacleState, DynObstacleCommands]):
 
         acc_x = apply_full_acceleration_limits(speed=vx, acceleration=u.acc_x + x0.dpsi * vy, p=self.op)
         acc_y = apply_full_acceleration_limits(speed=vy, acceleration=u.acc_y - x0.dpsi * vx, p=self.op)
-        acc_psi = apply_rot_speed_constraint(omega=x0.dpsi, domega=u.acc_psi, p=self.op)
+        acc_psi = float(np.clip(u.acc_psi, self.op.ddpsi_limits[0], self.op.ddpsi_limits[1]))
+        acc_psi = apply_rot_speed_constraint(omega=x0.dpsi, domega=acc_psi, p=self.op)
 
         return DynObstacleState(x=xdot, y=ydot, psi=x0.dpsi, vx=acc_x, vy=acc_y, dpsi=acc_psi)
 
-- 
2.43.0


From 9bd81eb901864c5652de0561eee4abdc55b85bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 26/56] fix: the aerodynamic drag is quadratic in the speed,
 not in the air density

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index 2db8e2b..753a5bc 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -178,7 +178,7 @@ class VehicleModelDyn(VehicleModel):
             Facc2_sat = Facc2 * math.sqrt(1 - (F2y / (F2_n * self.pacejka_rear.D)) ** 2)
 
             # Drag Force
-            F_drag = -0.5 * x0.vx * self.vg.a_drag * self.vg.c_drag * rho**2
+            F_drag = -0.5 * rho * self.vg.a_drag * self.vg.c_drag * x0.vx**2
             # longitudinal acceleration
             acc_x = (F1[0] + F_drag + Facc2_sat) / m + x0.dpsi * x0.vy
 
-- 
2.43.0


From a01a5906cbc9028632c610205bdfb2ca0887d587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 27/56] fix: thrusting backwards does not refuel the spaceship

---
 src/dg_commons/sim/models/spaceship.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/models/spaceship.py b/src/dg_commons/sim/models/spaceship.py
index 8236f07..fe9e5e6 100644
--- a/src/dg_commons/sim/models/spaceship.py
+++ b/src/dg_commons/sim/models/spaceship.py
@@ -212,7 +212,7 @@ class SpaceshipModel(SimModel[SpaceshipState, SpaceshipCommands]):
         dvy/dt = 1/m*sin(delta)*thrust - dψ*vx  (Coriolis term)
         dψdot/dt = -1/I*l_r*sin(delta)*thrust
         ddelta/dt = vdelta
-        dm/dt = -k_l*thrust
+        dm/dt = -k_l*|thrust|
 
         """
         # todo update dynamics
@@ -236,7 +236,7 @@ class SpaceshipModel(SimModel[SpaceshipState, SpaceshipCommands]):
 
         dvpsi = -1 / self.rg.Iz * self.rg.l_r * sindelta * thrust
         ddelta = ddelta
-        dm = -self.sp.C_T * thrust
+        dm = -self.sp.C_T * abs(thrust)
 
         return SpaceshipState(x=dx, y=dy, psi=x0.dpsi, vx=dvx, vy=dvy, dpsi=dvpsi, delta=ddelta, m=dm)
 
-- 
2.43.0


From 7f0709290f4d1b12dc75fa568b14d3361bca59c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 28/56] fix: the position along a lane is in meters beyond its
 ends, too

---
 src/dg_commons/maps/lanes.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 488e488..00160a4 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -77,6 +77,9 @@ class LaneCtrPoint:
 
 _rot90: SO2value = SO2_from_angle(pi / 2)
 
+_OUTSIDE_STEP: float = 0.1
+"""Beyond its ends a lane continues straight, this is the distance [m] corresponding to one unit of beta"""
+
 
 class DgLanelet:
     """Taking the best from commonroad Lanelet and Duckietown LaneSegment"""
@@ -212,10 +215,10 @@ class DgLanelet:
         """Returns the position along the lane (parametrized in distance)"""
         lengths = self.get_lane_lengths()
         if beta < 0:
-            return beta
+            return beta * _OUTSIDE_STEP
         elif beta >= len(self.control_points) - 1:
             rest = beta - (len(self.control_points) - 1)
-            return sum(lengths) + rest
+            return sum(lengths) + rest * _OUTSIDE_STEP
         else:
             i = int(np.floor(beta))
             rest = beta - i
@@ -230,10 +233,10 @@ class DgLanelet:
         S = sum(lengths)
 
         if x0 < 0:
-            beta = x0
+            beta = x0 / _OUTSIDE_STEP
             return beta
         elif x0 > S:
-            beta = (n - 1.0) + (x0 - S)
+            beta = (n - 1.0) + (x0 - S) / _OUTSIDE_STEP
             return beta
         elif isclose(x0, S, abs_tol=1e-8):
             beta = n - 1.0
@@ -267,11 +270,11 @@ class DgLanelet:
 
         if i < 0:
             q0 = self.control_points[0].q.as_SE2()
-            q1 = SE2.multiply(q0, SE2_from_translation_angle([0.1, 0], 0))
+            q1 = SE2.multiply(q0, SE2_from_translation_angle([_OUTSIDE_STEP, 0], 0))
             alpha = beta
         elif i >= n - 1:
             q0 = self.control_points[-1].q.as_SE2()
-            q1 = SE2.multiply(q0, SE2_from_translation_angle([0.1, 0], 0))
+            q1 = SE2.multiply(q0, SE2_from_translation_angle([_OUTSIDE_STEP, 0], 0))
             alpha = beta - (n - 1)
         else:
             alpha = beta - i
@@ -286,12 +289,12 @@ class DgLanelet:
         i = int(np.floor(beta))
         if i < 0:
             q0 = self.control_points[0].q
-            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([0.1, 0], 0))
+            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([_OUTSIDE_STEP, 0], 0))
             q1 = SE2Transform.from_SE2(q1_tmp)
             alpha = beta
         elif i >= n - 1:
             q0 = self.control_points[-1].q
-            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([0.1, 0], 0))
+            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([_OUTSIDE_STEP, 0], 0))
             q1 = SE2Transform.from_SE2(q1_tmp)
             alpha = beta - (n - 1)
         else:
-- 
2.43.0


From 6796c183fcf429c8afeb65107b9ad61183334797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 29/56] fix: linearly interpolated headings of a lane turn the
 short way

---
 src/dg_commons/maps/lanes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 00160a4..08eac10 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -302,7 +302,9 @@ class DgLanelet:
             q1 = self.control_points[i + 1].q
             alpha = beta - i
         p = q0.p * (1 - alpha) + q1.p * alpha
-        theta = q0.theta * (1 - alpha) + q1.theta * alpha
+        # along the shortest rotation, the headings may be on different sides of +-pi
+        dtheta = (q1.theta - q0.theta + pi) % (2 * pi) - pi
+        theta = q0.theta + dtheta * alpha
         return SE2Transform(p, theta)
 
     def is_inside_from_T2value(self, position: T2value, tol: float = 1e-3) -> bool:
-- 
2.43.0


From e7f8079c51392966ec991d9d4e55dcc56e8bf1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 30/56] fix: the lanelets at given points can be looked up

---
 src/dg_commons/maps/lanes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 08eac10..1c79b2e 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -108,7 +108,6 @@ class DgLanelet:
             ctr_points.append(LaneCtrPoint(q, r=np.linalg.norm(normal) / 2))
         return DgLanelet(ctr_points)
 
-    @cached(LRUCache(maxsize=128))
     @staticmethod
     def get_lanelets(lane_network: LaneletNetwork, points: list[np.ndarray]) -> list[Lanelet]:
         lane_ids = lane_network.find_lanelet_by_position(point_list=points)
-- 
2.43.0


From fa751531887f4b06664f65e9cff70578cc1e9ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 31/56] fix: pose goals can be plotted

---
 src/dg_commons/sim/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 4cf7b3a..58610f1 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -108,7 +108,7 @@ class PoseGoal(PlanningGoal):
         return np.linalg.norm(pose - goal_pose) <= self.tol
 
     def get_plottable_geometry(self, at: SimTime | float = 0) -> BaseGeometry:
-        raise self.goal_pose_poly
+        return self.goal_pose_poly
 
     @cached_property
     def goal_pose_poly(self) -> Polygon:
-- 
2.43.0


From b66a6c403b8b76c3cea9ea7376100703a128d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 32/56] fix: the gate of a reference lane goal is at its
 progress in meters along the lane

---
 src/dg_commons/sim/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 58610f1..8288c75 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -58,7 +58,7 @@ class RefLaneGoal(PlanningGoal):
 
     @cached_property
     def goal_polygon(self) -> Polygon:
-        poly = _polygon_at_along_lane(self.ref_lane, self.goal_progress)
+        poly = _polygon_at_along_lane(self.ref_lane, self.ref_lane.beta_from_along_lane(self.goal_progress))
         return poly
 
 
-- 
2.43.0


From 09dd0db2c472353fca84154c4ca89a4171438223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 33/56] fix: policy agents apply their policy to their state

---
 src/dg_commons/sim/agents/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/agent.py b/src/dg_commons/sim/agents/agent.py
index 6a5ffbc..e8e541a 100644
--- a/src/dg_commons/sim/agents/agent.py
+++ b/src/dg_commons/sim/agents/agent.py
@@ -65,5 +65,5 @@ class PolicyAgent(Agent):
         self.my_name = init_sim_obs.my_name
 
     def get_commands(self, sim_obs: SimObservations) -> U:
-        my_state: X = sim_obs.players[self.my_name]
+        my_state: X = sim_obs.players[self.my_name].state
         return self.policy(my_state)
-- 
2.43.0


From 643a827f834ddd6faeaa4706c22f871941917790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 34/56] fix: lane followers use the pure pursuit controller
 they are given

---
 src/dg_commons/sim/agents/lane_follower.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index 44763d2..1556d6a 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -35,7 +35,9 @@ class LFAgent(Agent):
         self.speed_controller: SpeedController = SpeedController.from_vehicle_params(model_param=model_params)
         self.speed_behavior: SpeedBehavior = SpeedBehavior() if speed_behavior is None else speed_behavior
         self.steer_controller: SteerController = SteerController.from_vehicle_params(vehicle_param=model_params)
-        self.pure_pursuit: PurePursuit = PurePursuit.from_model_geometry(model_geo)
+        self.pure_pursuit: PurePursuit = (
+            PurePursuit.from_model_geometry(model_geo) if pure_pursuit is None else pure_pursuit
+        )
         self.my_name: Optional[PlayerName] = None
         self.return_extra: bool = return_extra
         self._emergency: bool = False
-- 
2.43.0


From bed91e1a06c8b8cc079dfa14bf4c2ecb13274794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 35/56] fix: lane followers start each episode afresh

---
 src/dg_commons/controllers/pid.py          | 4 ++++
 src/dg_commons/sim/agents/lane_follower.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/dg_commons/controllers/pid.py b/src/dg_commons/controllers/pid.py
index 078003a..0c89a09 100644
--- a/src/dg_commons/controllers/pid.py
+++ b/src/dg_commons/controllers/pid.py
@@ -26,6 +26,10 @@ class PID:
 
     def __init__(self, params: PIDParam):
         self.params = params
+        self.reset()
+
+    def reset(self):
+        """Back to the state of a new controller"""
         self.measurement: float = 0
         self.reference: float = 0
         self.last_request_at: Optional[float] = None
diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index 1556d6a..014f383 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -48,6 +48,10 @@ class LFAgent(Agent):
         self.my_name = init_sim_obs.my_name
         self.speed_behavior.my_name = init_sim_obs.my_name
         self.pure_pursuit.update_path(self.ref_lane)
+        # a new episode starts, forget about the previous one
+        self._emergency = False
+        self.speed_controller.reset()
+        self.steer_controller.reset()
 
     def get_commands(self, sim_obs: SimObservations) -> VehicleCommands:
         self._my_obs = sim_obs.players[self.my_name].state
-- 
2.43.0


From 58d5f27f7b9be55caff624db9a2ee06c13db105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 36/56] fix: pure pursuit controllers do not share their
 default parameters

---
 src/dg_commons/controllers/pure_pursuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/controllers/pure_pursuit.py b/src/dg_commons/controllers/pure_pursuit.py
index 7db34d1..5572f17 100644
--- a/src/dg_commons/controllers/pure_pursuit.py
+++ b/src/dg_commons/controllers/pure_pursuit.py
@@ -40,7 +40,7 @@ class PurePursuit:
     Note there is an error in computation of alpha (order needs to be inverted)
     """
 
-    def __init__(self, params: PurePursuitParam = PurePursuitParam()):
+    def __init__(self, params: Optional[PurePursuitParam] = None):
         """
         initialise pure_pursuit control loop
         :param
@@ -49,7 +49,7 @@ class PurePursuit:
         self.pose: Optional[SE2value] = None
         self.along_path: Optional[float] = None
         self.speed: float = 0
-        self.param: PurePursuitParam = params
+        self.param: PurePursuitParam = PurePursuitParam() if params is None else params
         # logger.debug("Pure pursuit params: \n", self.param)
 
     def update_path(self, path: DgLanelet):
-- 
2.43.0


From 8fdc34052ea637c85da875c7e4033395227e8f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 37/56] fix: safety metrics take players without a mission and
 goals that vary in time

---
 src/dg_commons/eval/safety.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dg_commons/eval/safety.py b/src/dg_commons/eval/safety.py
index b5c9ec8..2940eb7 100644
--- a/src/dg_commons/eval/safety.py
+++ b/src/dg_commons/eval/safety.py
@@ -107,7 +107,7 @@ def get_min_dist_at_t(
     :return: min dist, the closest agent from ego
     """
     logs_at_t = logs.at_interp(t)
-    logs_at_t = _remove_finished_players(logs_at_t, missions)
+    logs_at_t = _remove_finished_players(logs_at_t, missions, t)
     if ego_name not in logs_at_t.keys():
         # ego accomplished its goal
         return np.inf, None
@@ -146,7 +146,7 @@ def get_ttc_drac_at_t(
     """
     # time to collision
     logs_at_t = logs.at_interp(t)
-    logs_at_t = _remove_finished_players(logs_at_t, missions)
+    logs_at_t = _remove_finished_players(logs_at_t, missions, t)
     if ego_name not in logs_at_t.keys():
         # ego accomplished its goal
         return np.inf, None, -np.inf, None
@@ -236,18 +236,19 @@ def _get_ttc_of_poly_and_state(poly1: Polygon, poly2: Polygon, state1: X, state2
 
 
 def _remove_finished_players(
-    log_at_t: Mapping[PlayerName, LogEntry], missions: Mapping[PlayerName, TPlanningGoal]
+    log_at_t: Mapping[PlayerName, LogEntry], missions: Mapping[PlayerName, TPlanningGoal], t: Timestamp
 ) -> Mapping[PlayerName, LogEntry]:
     """
     Remove the agents that have accomplished their goal.
     :param log_at_t: collection of players and their log(state, command, etc.) at time t
-    :param missions: the goal of each player
+    :param missions: the goal of each player, if it has one
+    :param t: sim time
     :return: a now collection of running players and their logs.
     """
     log_new = {}
     for name, log in log_at_t.items():
-        mission = missions[name]
+        mission = missions.get(name)
         state = log.state
-        if not mission.is_fulfilled(state):
+        if mission is None or not mission.is_fulfilled(state, t):
             log_new[name] = log
     return log_new
-- 
2.43.0


From 77d2cf5f9933ab9c2fa8b0ab5659c68ad33de9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 38/56] fix: safety metrics work for models of every type

---
 src/dg_commons/eval/safety.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/dg_commons/eval/safety.py b/src/dg_commons/eval/safety.py
index 2940eb7..ab92ddb 100644
--- a/src/dg_commons/eval/safety.py
+++ b/src/dg_commons/eval/safety.py
@@ -1,15 +1,15 @@
 from __future__ import annotations
 
+from copy import copy
 from typing import Mapping, MutableMapping, Optional
 
 import numpy as np
-from geometry import SE2_from_xytheta
 from shapely import distance
 from shapely.affinity import translate
 from shapely.geometry import Polygon, Point
 from shapely.ops import nearest_points
 
-from dg_commons import apply_SE2_to_shapely_geo, PlayerName, X
+from dg_commons import PlayerName, X
 from dg_commons.seq.sequence import Timestamp
 from dg_commons.sim import CollisionReport
 from dg_commons.sim.goals import TPlanningGoal
@@ -183,12 +183,17 @@ def get_ttc_drac_at_t(
     return min_time, min_ttc_agent, max_drac, max_drac_agent
 
 
+def _get_footprint_at(state: X, model: SimModel) -> Polygon:
+    """the footprint the model has at the given state"""
+    model_at_state = copy(model)
+    model_at_state.set_state(state)
+    return model_at_state.get_footprint()
+
+
 def _get_dist(state1: X, state2: X, model1: SimModel, model2: SimModel) -> tuple[float, tuple[Point, Point]]:
     """get the minimum distance between two vehicles, considering their geometry"""
-    pose1 = SE2_from_xytheta([state1.x, state1.y, state1.psi])
-    poly1 = apply_SE2_to_shapely_geo(model1.vg.outline_as_polygon, pose1)
-    pose2 = SE2_from_xytheta([state2.x, state2.y, state2.psi])
-    poly2 = apply_SE2_to_shapely_geo(model2.vg.outline_as_polygon, pose2)
+    poly1 = _get_footprint_at(state1, model1)
+    poly2 = _get_footprint_at(state2, model2)
     nearest_pts = nearest_points(poly1, poly2)
     dist = distance(nearest_pts[0], nearest_pts[1])
     return dist, nearest_pts
@@ -203,10 +208,8 @@ def _get_ttc(state1: X, state2: X, model1: SimModel, model2: SimModel) -> tuple[
     :param state2: current state of the second agent
     :return: time-to-collision, distance-to-collision for agent1. distance-to-collision for agent2
     """
-    pose1 = SE2_from_xytheta([state1.x, state1.y, state1.psi])
-    poly1 = apply_SE2_to_shapely_geo(model1.vg.outline_as_polygon, pose1)
-    pose2 = SE2_from_xytheta([state2.x, state2.y, state2.psi])
-    poly2 = apply_SE2_to_shapely_geo(model2.vg.outline_as_polygon, pose2)
+    poly1 = _get_footprint_at(state1, model1)
+    poly2 = _get_footprint_at(state2, model2)
     ttc, dist_to_collision1, dist_to_collision2 = _get_ttc_of_poly_and_state(poly1, poly2, state1, state2)
     return ttc, dist_to_collision1, dist_to_collision2
 
-- 
2.43.0


From 31b139b8a388773d0e67eee93ef98d7f6521e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 39/56] fix: the weighted acceleration of an odd number of
 commands keeps its length

---
 src/dg_commons/eval/comfort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/eval/comfort.py b/src/dg_commons/eval/comfort.py
index 65b91bb..97bb6f4 100644
--- a/src/dg_commons/eval/comfort.py
+++ b/src/dg_commons/eval/comfort.py
@@ -41,7 +41,7 @@ def get_acc_rms(commands: DgSampledSequence[U], t_range: tuple[Timestamp | None,
     freqs = np.fft.rfftfreq(n=len(acc_time), d=st)
     acc_freq_weighted = [acc_freq * acc_freq_filter(freq) for acc_freq, freq in zip(acc_freqs, freqs)]
     acc_freq_weighted = np.array(acc_freq_weighted)
-    acc_time_weighted = np.fft.irfft(acc_freq_weighted)
+    acc_time_weighted = np.fft.irfft(acc_freq_weighted, n=len(acc_time))
     acc_rms = 0
     for acc in acc_time_weighted:
         acc_rms += np.square(acc)
-- 
2.43.0


From e4f5336ce5cf990e3e80177e5c7a7ab2f4fe8543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 40/56] fix: asking for the desired lane terminates between
 lanes and on ring roads

---
 src/dg_commons/eval/efficiency.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dg_commons/eval/efficiency.py b/src/dg_commons/eval/efficiency.py
index 5873502..7b34d9d 100644
--- a/src/dg_commons/eval/efficiency.py
+++ b/src/dg_commons/eval/efficiency.py
@@ -54,10 +54,16 @@ def desired_lane_reached(
     ego_pose = SE2Transform.from_PoseState(ego_posestate)
     ref_lane = goal_lane.ref_lane  # dglanelet
     lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
+    visited: set[int] = set()
     while not lane_pose.along_inside:
         if np.abs(lane_pose.along_lane) < 1.0 or np.abs(lane_pose.along_lane - ref_lane.get_lane_length()) < 1.0:
             # not inside the lane but close enough
             break
+        lane_id = get_lanelet_from_dglanelet(lanelet_network, ref_lane).lanelet_id
+        if lane_id in visited:
+            # alongside none of the connected lanes
+            return goal_lane.is_fulfilled(state)
+        visited.add(lane_id)
         if lane_pose.along_after:
             ref_lane = get_successor_dglane(lanelet_network, ref_lane)
             if ref_lane is not None:
-- 
2.43.0


From 02ba1ca8c81187b9a496b2e8c86b8b49257cd195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 41/56] fix: the lanelet of a lane is found among overlapping
 lanelets

---
 src/dg_commons/eval/efficiency.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dg_commons/eval/efficiency.py b/src/dg_commons/eval/efficiency.py
index 7b34d9d..3b54afd 100644
--- a/src/dg_commons/eval/efficiency.py
+++ b/src/dg_commons/eval/efficiency.py
@@ -91,10 +91,12 @@ def desired_lane_reached(
 
 
 def get_lanelet_from_dglanelet(lanelet_network: LaneletNetwork, dglanelet: DgLanelet) -> Lanelet:
-    ref_point = dglanelet.control_points[1].q.p
-    lane_id = lanelet_network.find_lanelet_by_position([ref_point])[0][0]
-    lanelet = lanelet_network.find_lanelet_by_id(lane_id)
-    return lanelet
+    ref_point = (dglanelet.control_points[0].q.p + dglanelet.control_points[1].q.p) / 2
+    lane_ids = lanelet_network.find_lanelet_by_position([ref_point])[0]
+    lanelets = [lanelet_network.find_lanelet_by_id(lane_id) for lane_id in lane_ids]
+    # where lanelets overlap, take the one that starts and ends where the lane does
+    ends = np.array([dglanelet.control_points[0].q.p, dglanelet.control_points[-1].q.p])
+    return min(lanelets, key=lambda lanelet: np.linalg.norm(lanelet.center_vertices[[0, -1]] - ends, axis=1).sum())
 
 
 def get_successor_lane(lanelet_network: LaneletNetwork, cur_lane: Lanelet | DgLanelet) -> Optional[Lanelet]:
-- 
2.43.0


From b08ca6fc2438329fddab07ef41a8018c24ed92ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 42/56] fix: static obstacles of a CommonRoad scenario are
 placed at their pose

---
 src/dg_commons/sim/scenarios/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/scenarios/factory.py b/src/dg_commons/sim/scenarios/factory.py
index a9e2ee3..0b4aa64 100644
--- a/src/dg_commons/sim/scenarios/factory.py
+++ b/src/dg_commons/sim/scenarios/factory.py
@@ -70,7 +70,7 @@ def get_scenario_commonroad_replica(
         static_obstacles.append(
             StaticObstacle(
                 obstacle_type=sobs.obstacle_type,
-                shape=sobs.obstacle_shape.shapely_object,
+                shape=sobs.occupancy_at_time(0).shape.shapely_object,
             )
         )
     sim_param = SimParameters() if sim_param is None else sim_param
-- 
2.43.0


From 0065acd881ca027be53ccb568635bb1f4dfc6ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 43/56] fix: the lane of an obstacle leads to the lanelet it
 ends on, not to one with similar digits

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index a0d558a..0b131e6 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -23,9 +23,9 @@ def infer_lane_from_dyn_obs(dyn_obs: DynamicObstacle, network: LaneletNetwork) -
     candidates: list[DgLanelet] = []
     for init_id in init_ids:
         lanelet = network.find_lanelet_by_id(init_id)
-        merged_lanelets, _ = lanelet.all_lanelets_by_merging_successors_from_lanelet(lanelet=lanelet, network=network)
-        for merged_lanelet in merged_lanelets:
-            if any(str(id) in str(merged_lanelet.lanelet_id) for id in final_ids):
+        merged_lanelets, merged_ids = lanelet.all_lanelets_by_merging_successors_from_lanelet(lanelet=lanelet, network=network)
+        for merged_lanelet, lanelet_ids in zip(merged_lanelets, merged_ids):
+            if any(id in lanelet_ids for id in final_ids):
                 candidates.append(DgLanelet.from_commonroad_lanelet(merged_lanelet))
 
     if len(candidates) == 1:
-- 
2.43.0


From fb175a8d817835f25d775bb89bf9ab856b403116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 44/56] fix: the best aligned lane of an obstacle is found for
 headings around pi, too

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index 0b131e6..240516f 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -37,7 +37,9 @@ def infer_lane_from_dyn_obs(dyn_obs: DynamicObstacle, network: LaneletNetwork) -
         for candidate_lane in candidates:
             _, q = candidate_lane.find_along_lane_closest_point_fast(init_position)
             s_prime = angle_from_SE2(q)
-            displacement_angles.append(np.abs(dyn_obs.initial_state.orientation - s_prime))
+            displacement = dyn_obs.initial_state.orientation - s_prime
+            # headings on different sides of +-pi are close
+            displacement_angles.append(np.abs((displacement + np.pi) % (2 * np.pi) - np.pi))
         return candidates[np.argmin(displacement_angles)]
     else:
         # if we reach this point we did not find any lanelet,
-- 
2.43.0


From 4fb49b018a4e8b29d5b89fadea54b401880ceb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 45/56] fix: obstacles whose heading crosses pi do not start
 with the wheels turned around

---
 src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py b/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
index 6fc1838..699120e 100644
--- a/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
@@ -1,3 +1,5 @@
+from math import pi
+
 from commonroad.geometry.shape import Rectangle as crRectangle
 from commonroad.scenario.obstacle import DynamicObstacle, ObstacleType
 
@@ -28,6 +30,7 @@ def infer_model_from_cr_dyn_obstacle(dyn_obs: DynamicObstacle, color: Color) ->
         assert isinstance(dyn_obs.obstacle_shape, crRectangle)
         l = dyn_obs.obstacle_shape.length * axle_length_ratio
         dtheta = dyn_obs.prediction.trajectory.state_list[0].orientation - dyn_obs.initial_state.orientation
+        dtheta = (dtheta + pi) % (2 * pi) - pi
         delta = dtheta / l
         # x0 = VehicleStateDyn(
         #     x=dyn_obs.initial_state.position[0],
-- 
2.43.0


From 31f73e2d5e941a7f476412404a4188c86f2d7db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 46/56] fix: pedestrians of a CommonRoad scenario no longer
 crash its replica

---
 src/dg_commons/sim/scenarios/convert_from_commonroad.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dg_commons/sim/scenarios/convert_from_commonroad.py b/src/dg_commons/sim/scenarios/convert_from_commonroad.py
index 690eada..ff5bb78 100644
--- a/src/dg_commons/sim/scenarios/convert_from_commonroad.py
+++ b/src/dg_commons/sim/scenarios/convert_from_commonroad.py
@@ -5,7 +5,9 @@ from dg_commons import Color
 from dg_commons.sim import SimModel
 from dg_commons.sim.agents.agent import Agent
 from dg_commons.sim.agents.lane_follower import LFAgent
+from dg_commons.sim.models.vehicle import VehicleModel
 from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn
+from dg_commons.sim.scenarios import NotSupportedConversion
 from dg_commons.sim.scenarios.model_from_dyn_obstacle import infer_model_from_cr_dyn_obstacle
 from dg_commons.sim.scenarios.utils_dyn_obstacle import infer_lane_from_dyn_obs
 
@@ -25,6 +27,11 @@ def model_agent_from_dynamic_obstacle(
     """
 
     model: SimModel = infer_model_from_cr_dyn_obstacle(dyn_obs, color)
+    if not isinstance(model, VehicleModel):
+        # the lane followers steer vehicles only
+        raise NotSupportedConversion(
+            "No agent available for the Commonroad type", commonroad_type=dyn_obs.obstacle_type
+        )
     # Agent
     dglane = infer_lane_from_dyn_obs(dyn_obs=dyn_obs, network=lanelet_network)
     agent = LFAgent(dglane, model_params=model.model_params, model_geo=model.model_geometry)
-- 
2.43.0


From b974efd56431656a31b60882f984eed8dcf261c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 47/56] fix: braking lights do not stay on forever, on all
 vehicles

---
 src/dg_commons/sim/simulator_animation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 3a28349..83cc3ca 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -1,4 +1,5 @@
 import math
+from dataclasses import replace
 from itertools import chain
 from typing import Mapping, Union, Optional, Sequence, Iterable
 
@@ -232,7 +233,8 @@ def get_lights_colors_from_cmds(cmds: VehicleCommands, t: Timestamp) -> LightsCo
 
 def lights_colors_from_lights_cmd(lights_cmd: LightsCmd, acc: float, t: Timestamp) -> LightsColors:
     phases = lightscmd2phases[lights_cmd]
-    lights_colors = get_phased_lights(phases, float(t))
+    # the colors are a copy, since the ones returned are shared by all the vehicles
+    lights_colors = replace(get_phased_lights(phases, float(t)))
     if acc < 0:  # and cmds == NO_LIGHTS:
         if lights_colors.back_left == red:
             lights_colors.back_left = red_more
-- 
2.43.0


From 84d7d4b13763b2f6867806140561004909f4b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 48/56] fix: animations of simulations that do not start at
 zero show the right instants

---
 src/dg_commons/sim/simulator_animation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 83cc3ca..1b88bb2 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -81,7 +81,7 @@ def create_animation(
         with sim_viz.plot_arena(ax=ax):
             init_log_entry: Mapping[PlayerName, LogEntry] = sim_context.log.at_interp(time_begin)
             for pname, plog in init_log_entry.items():
-                lights_colors: LightsColors = get_lights_colors_from_cmds(init_log_entry[pname].commands, t=0)
+                lights_colors: LightsColors = get_lights_colors_from_cmds(init_log_entry[pname].commands, t=time_begin)
                 states[pname], actions[pname] = sim_viz.plot_player(
                     ax=ax,
                     state=plog.state,
@@ -116,7 +116,7 @@ def create_animation(
         return _get_list()
 
     def update_plot(frame: int = 0) -> Iterable[Artist]:
-        t: float = frame * dt / 1000.0
+        t: float = float(time_begin) + frame * dt / 1000.0
         log_at_t: Mapping[PlayerName, LogEntry] = sim_context.log.at_interp(t)
         for pname, box_handle in states.items():
             lights_colors: LightsColors = get_lights_colors_from_cmds(log_at_t[pname].commands, t=t)
-- 
2.43.0


From 3807aace83cfdf2ae30d4822ebacb5ebcbd3a259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 49/56] fix: shapes made of several points, lines, or
 geometries can be plotted

---
 src/dg_commons/maps/shapely_viz.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/dg_commons/maps/shapely_viz.py b/src/dg_commons/maps/shapely_viz.py
index 9a5d672..4573cd6 100644
--- a/src/dg_commons/maps/shapely_viz.py
+++ b/src/dg_commons/maps/shapely_viz.py
@@ -50,7 +50,7 @@ class ShapelyViz:
         elif isinstance(shape, (Polygon, MultiPolygon)):
             self._plot_polys(shape, **style_kwargs)
         elif isinstance(shape, GeometryCollection):
-            for poly in shape:
+            for poly in shape.geoms:
                 self.add_shape(poly, **style_kwargs)
         else:
             raise NotImplementedError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
@@ -64,18 +64,14 @@ class ShapelyViz:
         if shape.is_empty:
             logger.info("Given shape is empty, returning.")
             return
-        # todo
-        x, y = [], []
         if isinstance(shape, MultiPoint):
-            for point in shape:
-                x.append(point.x)
-                y.append(point.y)
+            points = list(shape.geoms)
         elif isinstance(shape, Point):
-            x, y = map(list, shape.xy)
+            points = [shape]
         else:
             raise TypeError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
-        circle = mpatches.Circle(xy=(x, y), **style_kwargs)
-        self.ax.add_patch(circle)
+        for point in points:
+            self.ax.add_patch(mpatches.Circle(xy=(point.x, point.y), **style_kwargs))
 
     def _plot_lines(self, shape: Union[LineString, MultiLineString, LinearRing], **style_kwargs: Dict):
         """Internal method for plotting given non-empty, LineString, MultiLineString, or LinearRing `shape` object.
@@ -91,7 +87,7 @@ class ShapelyViz:
             x, y = map(list, shape.xy)
             self.ax.plot(x, y, **style_kwargs)
         elif isinstance(shape, MultiLineString):
-            for line in shape:
+            for line in shape.geoms:
                 x, y = map(list, line.xy)
                 self.ax.plot(x, y, **style_kwargs)
         else:
-- 
2.43.0


From 48e2fb2720b04f54585ebc6a4d7e5dd541043ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 50/56] fix: all the parts of a polygon are plotted, and its
 holes are left out

---
 src/dg_commons/maps/shapely_viz.py | 44 ++++++------------------------
 1 file changed, 8 insertions(+), 36 deletions(-)

diff --git a/src/dg_commons/maps/shapely_viz.py b/src/dg_commons/maps/shapely_viz.py
index 4573cd6..7fb3b54 100644
--- a/src/dg_commons/maps/shapely_viz.py
+++ b/src/dg_commons/maps/shapely_viz.py
@@ -3,6 +3,7 @@ from typing import Union, Dict, Optional, Any
 import matplotlib.patches as mpatches
 from matplotlib import pyplot as plt
 from matplotlib.axes import Axes
+from matplotlib.path import Path
 from shapely.geometry import (
     LineString,
     MultiLineString,
@@ -14,6 +15,7 @@ from shapely.geometry import (
     Polygon,
 )
 from shapely.geometry.base import BaseGeometry
+from shapely.geometry.polygon import orient
 
 from dg_commons import logger
 
@@ -106,39 +108,9 @@ class ShapelyViz:
         if not isinstance(shape, (Polygon, MultiPolygon)):
             raise TypeError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
 
-        xs, ys = self._get_poly_coordinates(shape)
-        for idx, xy in enumerate(zip(xs, ys)):
-            xy_array = list(zip(*xy))
-            if idx == 0:
-                poly = mpatches.Polygon(xy_array, **style_kwargs)
-            else:
-                poly = mpatches.Polygon(xy_array, facecolor=self.ax.get_facecolor())
-            self.ax.add_patch(poly)
-
-    def _get_poly_coordinates(self, shape: Union[Polygon, MultiPolygon]):
-        """Internal method for translating shapely polygon coordinates to bokeh polygon plotting coordinates.
-        :param shape: Shape(ly) to plot. Polygon, MultiPolygon
-        :raises TypeError: When given `shape` is not a `Polygon` or `MultiPolygon` shapely geometry.
-        """
-        x, y = [], []
-        if isinstance(shape, MultiPolygon):
-            for poly in shape.geoms:
-                poly_x, poly_y = self._get_poly_coordinates(poly)
-                x += poly_x
-                y += poly_y
-            return x, y
-
-        elif isinstance(shape, Polygon):
-            extr_x, extr_y = map(list, shape.exterior.xy)
-            intr_x, intr_y = [], []
-            for i in shape.interiors:
-                _x, _y = map(list, i.xy)
-                intr_x.append(_x[:-1])
-                intr_y.append(_y[:-1])
-            combined_x, combined_y = [extr_x[:-1]], [extr_y[:-1]]
-            combined_x += intr_x
-            combined_y += intr_y
-            return combined_x, combined_y
-
-        else:
-            raise TypeError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
+        polys = shape.geoms if isinstance(shape, MultiPolygon) else [shape]
+        for poly in polys:
+            # exterior and interiors turn in opposite directions, such that the interiors are left out
+            poly = orient(poly)
+            path = Path.make_compound_path(*[Path(ring.coords, closed=True) for ring in (poly.exterior, *poly.interiors)])
+            self.ax.add_patch(mpatches.PathPatch(path, **style_kwargs))
-- 
2.43.0


From e335e36d38b028676a3247e61c2799545de7727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 51/56] fix: trajectories that agents log only later are drawn,
 too

---
 src/dg_commons/sim/simulator_animation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 1b88bb2..02e98d6 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -138,8 +138,8 @@ def create_animation(
                         ax=ax,
                         player_name=pname,
                         trajectories=list(trajectories),
-                        traj_lines=traj_lines[pname],
-                        traj_points=traj_points[pname],
+                        traj_lines=traj_lines.get(pname),
+                        traj_points=traj_points.get(pname),
                         colors=list(tcolors),
                     )
                 except:
-- 
2.43.0


From 050f66663c439843fd65eddbaaf8ddd53d7a957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 52/56] fix: logs are plotted into the given figure

---
 src/dg_commons/sim/log_visualisation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dg_commons/sim/log_visualisation.py b/src/dg_commons/sim/log_visualisation.py
index 2c14edd..c91523c 100644
--- a/src/dg_commons/sim/log_visualisation.py
+++ b/src/dg_commons/sim/log_visualisation.py
@@ -32,17 +32,17 @@ def plot_player_log(log: PlayerLog, fig: Figure = None):
     for i, field in enumerate(state_fields):
         field_value = [getattr(s, field.name) for s in log.states.values]
         ts = log.states.timestamps
-        fig.add_subplot(rows_number, 1, i + 1)
-        plt.plot(ts, field_value, label=field.name)
-        plt.grid()
-        plt.legend()
+        ax = fig.add_subplot(rows_number, 1, i + 1)
+        ax.plot(ts, field_value, label=field.name)
+        ax.grid()
+        ax.legend()
 
     for i, field in enumerate(cmds_fields):
         field_value = [getattr(c, field.name) for c in log.commands.values]
         ts = log.commands.timestamps
-        fig.add_subplot(rows_number, 1, n_states + i + 1)
-        plt.step(ts, field_value, label=field.name)
-        plt.grid()
-        plt.legend()
+        ax = fig.add_subplot(rows_number, 1, n_states + i + 1)
+        ax.step(ts, field_value, label=field.name)
+        ax.grid()
+        ax.legend()
 
     plt.draw()
-- 
2.43.0


From c6a84124a170a2a33e68192ee536f6f09992ee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:06 +0000
Subject: [PATCH 53/56] fix: plotted commands start when they are given, not
 when the previous ones are

---
 src/dg_commons/sim/log_visualisation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/log_visualisation.py b/src/dg_commons/sim/log_visualisation.py
index c91523c..7da0657 100644
--- a/src/dg_commons/sim/log_visualisation.py
+++ b/src/dg_commons/sim/log_visualisation.py
@@ -41,7 +41,8 @@ def plot_player_log(log: PlayerLog, fig: Figure = None):
         field_value = [getattr(c, field.name) for c in log.commands.values]
         ts = log.commands.timestamps
         ax = fig.add_subplot(rows_number, 1, n_states + i + 1)
-        ax.step(ts, field_value, label=field.name)
+        # commands are held until the next ones
+        ax.step(ts, field_value, where="post", label=field.name)
         ax.grid()
         ax.legend()
 
-- 
2.43.0


From e571a555f2ed15c2ce3c103ed1b171a6069732f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:06 +0000
Subject: [PATCH 54/56] fix: the log of a player does not hide the logs of the
 players before

---
 src/dg_commons/sim/log_visualisation.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/log_visualisation.py b/src/dg_commons/sim/log_visualisation.py
index 7da0657..210339f 100644
--- a/src/dg_commons/sim/log_visualisation.py
+++ b/src/dg_commons/sim/log_visualisation.py
@@ -2,6 +2,7 @@ from dataclasses import fields
 from typing import Set
 
 from matplotlib import pyplot as plt
+from matplotlib.axes import Axes
 from matplotlib.figure import Figure
 
 from dg_commons import PlayerName
@@ -32,7 +33,7 @@ def plot_player_log(log: PlayerLog, fig: Figure = None):
     for i, field in enumerate(state_fields):
         field_value = [getattr(s, field.name) for s in log.states.values]
         ts = log.states.timestamps
-        ax = fig.add_subplot(rows_number, 1, i + 1)
+        ax = _subplot(fig, rows_number, i)
         ax.plot(ts, field_value, label=field.name)
         ax.grid()
         ax.legend()
@@ -40,10 +41,19 @@ def plot_player_log(log: PlayerLog, fig: Figure = None):
     for i, field in enumerate(cmds_fields):
         field_value = [getattr(c, field.name) for c in log.commands.values]
         ts = log.commands.timestamps
-        ax = fig.add_subplot(rows_number, 1, n_states + i + 1)
+        ax = _subplot(fig, rows_number, n_states + i)
         # commands are held until the next ones
         ax.step(ts, field_value, where="post", label=field.name)
         ax.grid()
         ax.legend()
 
     plt.draw()
+
+
+def _subplot(fig: Figure, rows_number: int, row: int) -> Axes:
+    """The subplot at a row of the figure, all the players share it"""
+    for ax in fig.axes:
+        spec = ax.get_subplotspec()
+        if spec is not None and spec.get_geometry() == (rows_number, 1, row, row):
+            return ax
+    return fig.add_subplot(rows_number, 1, row + 1)
-- 
2.43.0


From f3e7c181b584b2948fca01fddc989f815839f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 55/56] fix: collisions of more than eight players can be
 plotted

---
 src/dg_commons/sim/collision_visualisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/collision_visualisation.py b/src/dg_commons/sim/collision_visualisation.py
index bb4179d..fd7c247 100644
--- a/src/dg_commons/sim/collision_visualisation.py
+++ b/src/dg_commons/sim/collision_visualisation.py
@@ -41,7 +41,7 @@ def plot_collision(collision_report: CollisionReport, sim_log: SimLog):
     colors = list(cmap.colors)
     col_before, col_after = "darkorange", "seagreen"
     for i, (player, p_report) in enumerate(collision_report.players.items()):
-        p_color = colors[i]
+        p_color = colors[i % len(colors)]
         # vehicle outline
         footprint = p_report.footprint
         plt.plot(*footprint.exterior.xy, color=p_color)
-- 
2.43.0


From 3bdc67dc5cbc00d773547b2739087dc69b0dbbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:08 +0000
Subject: [PATCH 56/56] fix: an animation can focus on a player whose state has
 no velocity

---
 src/dg_commons/sim/simulator_animation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 02e98d6..4f053d7 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -204,7 +204,9 @@ def adjust_axes_limits(
             slack = 35
             v_scaling = 1.5
             # we shift the center of the image forward according to the velocity vector of the player
-            velocity_v = v_scaling * np.array([state.vx * np.cos(state.psi), state.vx * np.sin(state.psi)])
+            # not all the states have a velocity (e.g. differential drives)
+            vx = getattr(state, "vx", 0.0)
+            velocity_v = v_scaling * np.array([vx * np.cos(state.psi), vx * np.sin(state.psi)])
             buffer = slack / 3
             velocity_v = np.clip(velocity_v, -slack + buffer, slack - buffer)
             x_c, y_c = state.x + velocity_v[0], state.y + velocity_v[1]
-- 
2.43.0

