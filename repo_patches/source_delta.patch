From 73ecda747a2f0c2940a6c7b41b726b3ca7a7d310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 01/44] fix: lever arm of the second agent starts at its own
 closest circle

---
 crowddynamics/core/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/distance.py b/crowddynamics/core/distance.py
index 681e120..1b6c634 100644
--- a/crowddynamics/core/distance.py
+++ b/crowddynamics/core/distance.py
@@ -100,7 +100,7 @@ def distance_three_circles(x0, r0, x1, r1):
                 j_min = j
 
     r_moment0 = x0[i_min] + r0[i_min] * normal - x0[0]
-    r_moment1 = x0[j_min] - r1[j_min] * normal - x1[0]
+    r_moment1 = x1[j_min] - r1[j_min] * normal - x1[0]
 
     return h_min, normal, r_moment0, r_moment1
 
-- 
2.43.0


From 3085f776f8c1e6c465590894df408a449e077c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 02/44] fix: euler integrator rotates every three-circle agent
 array

---
 crowddynamics/core/integrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/integrator.py b/crowddynamics/core/integrator.py
index efec3f1..bbf1664 100644
--- a/crowddynamics/core/integrator.py
+++ b/crowddynamics/core/integrator.py
@@ -155,7 +155,7 @@ def euler_integrator(agents, dt_min, dt_max):
     """
     dt = adaptive_timestep(agents, dt_min, dt_max)
     translational_euler(agents, dt)
-    if agents.dtype is agent_type_three_circle:
+    if is_model(agents, 'three_circle'):
         rotational_euler(agents, dt)
         shoulders(agents)
     return dt
-- 
2.43.0


From c7432429587e2f3f38ccd38086934da04f7721ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:27 +0000
Subject: [PATCH 03/44] fix: three-circle social force uses the earliest
 contact ahead and its own offset

---
 crowddynamics/core/motion/power_law.py | 27 ++++++--------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/crowddynamics/core/motion/power_law.py b/crowddynamics/core/motion/power_law.py
index a189068..f7231f3 100644
--- a/crowddynamics/core/motion/power_law.py
+++ b/crowddynamics/core/motion/power_law.py
@@ -146,7 +146,7 @@ def gradient_three_circle(x_rel, v_rel, r_off, a, b, d):
         numpy.ndarray:
 
     """
-    return (v_rel - (a * (x_rel + 2 * r_off) + b * v_rel) / d) / a
+    return (v_rel - (a * (x_rel + r_off) + b * v_rel) / d) / a
 
 
 @numba.jit(Tuple((f8, f8[:]))(f8[:], f8[:], f8),
@@ -321,33 +321,18 @@ def force_social_three_circle(agent, i, j):
                 continue
 
             tau_new = (b - d) / a
-            if np.isnan(tau) or 0 < tau_new < tau:
+            if tau_new > 0 and (np.isnan(tau) or tau_new < tau):
                 contact_i, contact_j = part_i, part_j
                 tau = tau_new
                 b_min = b
                 d_min = d
 
-    if np.isnan(tau) or tau <= 0:
+    if np.isnan(tau):
         return force_i, force_j
 
-    # Shoulder displacement vectors
-    r_off_i = np.zeros(2)
-    r_off_j = np.zeros(2)
-
-    # TODO: Fix signs
-    if contact_i == 1:
-        phi = agent[i]['orientation']
-        r_off_i += agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
-    elif contact_i == 2:
-        phi = agent[i]['orientation']
-        r_off_i -= agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
-
-    if contact_j == 1:
-        phi = agent[j]['orientation']
-        r_off_j += agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
-    elif contact_j == 2:
-        phi = agent[j]['orientation']
-        r_off_j -= agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+    # Displacement vectors from center of mass to the contact parts
+    r_off_i = x_i[contact_i] - x_i[0]
+    r_off_j = x_j[contact_j] - x_j[0]
 
     x_rel = agent[i]['position'] - agent[j]['position']
     r_off = r_off_i - r_off_j
-- 
2.43.0


From 1b4060186ac76ea21777063426500c15f4ec0268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 04/44] fix: agents heading straight at each other do not head
 away from each other

---
 crowddynamics/core/steering/collective_motion.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crowddynamics/core/steering/collective_motion.py b/crowddynamics/core/steering/collective_motion.py
index c8242c7..f6fcd6b 100644
--- a/crowddynamics/core/steering/collective_motion.py
+++ b/crowddynamics/core/steering/collective_motion.py
@@ -44,15 +44,14 @@ def herding_relationship(x1, x2, v1, v2, phi=np.pi / 2):
     c_i = dot(e_rel, normalize(v1))
     c_j = -dot(e_rel, normalize(v2))
 
-    # 1.0 = cos(0)
     cos_phi = np.cos(phi)
-    if cos_phi < c_i < 1.0:
-        if cos_phi < c_j < 1.0:
+    if cos_phi < c_i:
+        if cos_phi < c_j:
             return False, False
         else:
             return True, False
     else:
-        if cos_phi < c_j < 1.0:
+        if cos_phi < c_j:
             return False, True
         else:
             return True, True
-- 
2.43.0


From c8dfa097c0495c566bc5496e13fc877696cf3c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 05/44] fix: zero nearest neighbours means that nobody is
 followed

---
 crowddynamics/core/steering/collective_motion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/steering/collective_motion.py b/crowddynamics/core/steering/collective_motion.py
index f6fcd6b..b352241 100644
--- a/crowddynamics/core/steering/collective_motion.py
+++ b/crowddynamics/core/steering/collective_motion.py
@@ -85,7 +85,8 @@ def find_nearest_neighbors(
     '''Distance to current nearest neighbours.'''
 
     distances_max = np.full(
-        size, fill_value=sight, dtype=np.float64)
+        size, fill_value=sight if size_nearest_other > 0 else 0.0,
+        dtype=np.float64)
     '''Distance to furthest neighbor.'''
 
     for i, j in iter_nearest_neighbors(
-- 
2.43.0


From ad640b67196d823229a6e454c65902a3f2f7661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 06/44] fix: continuous obstacle handling uses both components
 and checks the bounds first

---
 crowddynamics/core/steering/obstacle_handling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/core/steering/obstacle_handling.py b/crowddynamics/core/steering/obstacle_handling.py
index 8d462ff..d3418dc 100644
--- a/crowddynamics/core/steering/obstacle_handling.py
+++ b/crowddynamics/core/steering/obstacle_handling.py
@@ -85,12 +85,12 @@ def obstacle_handling_continuous(dmap_obs, dir_map_obs, direction_target,
 
     for k in range(len(indices)):
         i, j = indices[k, 0], indices[k, 1]
-        u2, v2 = direction_target[k, 1], direction_target[k, 1]
-        x = -dmap_obs[i, j]
-
         if not (0 <= i < n and 0 <= j < m):
             continue
 
+        u2, v2 = direction_target[k, 0], direction_target[k, 1]
+        x = -dmap_obs[i, j]
+
         if 0 < x < radius:
             # Decreasing function
             p = strength ** (x / radius)
-- 
2.43.0


From ded5bf026f82d9e6e5560ff554703bab73a90558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 07/44] fix: positions left of or below the mesh are outside of
 it

---
 crowddynamics/core/steering/quickest_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/steering/quickest_path.py b/crowddynamics/core/steering/quickest_path.py
index 2895773..45a76a4 100644
--- a/crowddynamics/core/steering/quickest_path.py
+++ b/crowddynamics/core/steering/quickest_path.py
@@ -41,7 +41,7 @@ def meshgrid(step: float, minx: float, miny: float,
     def indicer(position):
         """Converts positions to meshgrid indices"""
         shifted = np.asarray(position) - np.array((minx, miny))
-        return (shifted / step).astype(np.int64)
+        return np.floor(shifted / step).astype(np.int64)
 
     return MeshGrid(
         values=values, shape=shape, step=step, bounds=(minx, miny, maxx, maxy),
-- 
2.43.0


From 021683271d20977f77515bf2e8b3a2d73c1ddd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 08/44] fix: linestring lengths are accumulated before they are
 used as sampling weights

---
 crowddynamics/core/sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/sampling.py b/crowddynamics/core/sampling.py
index 83a47a9..a80983a 100644
--- a/crowddynamics/core/sampling.py
+++ b/crowddynamics/core/sampling.py
@@ -10,10 +10,12 @@ from crowddynamics.core.geom2D import polygon_area
 @numba.jit(f8[:](f8[:, :]), nopython=True, nogil=True, cache=True)
 def linestring_length_cumsum(vertices):
     n = len(vertices) - 1
+    length = 0.0
     cumsum = np.zeros(n)
     for i in range(n):
         diff = vertices[i] - vertices[i + 1]
-        cumsum[i] = np.hypot(diff[0], diff[1])
+        length += np.hypot(diff[0], diff[1])
+        cumsum[i] = length
     return cumsum
 
 
-- 
2.43.0


From 9c72065b86a88775eac1559753243d77cb98b289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 09/44] fix: an absolute scale of zero is not replaced by the
 default scale

---
 crowddynamics/core/rand.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/rand.py b/crowddynamics/core/rand.py
index fe83f20..ea3e02a 100644
--- a/crowddynamics/core/rand.py
+++ b/crowddynamics/core/rand.py
@@ -25,7 +25,10 @@ def truncnorm(start, end, loc=0.0, scale=1.0, abs_scale=None, size=1,
         - https://docs.scipy.org/doc/scipy/reference/generated/scipy.stats.truncnorm.html
         - https://en.wikipedia.org/wiki/Truncated_normal_distribution
     """
-    _scale = abs_scale / max(abs(start), abs(end)) if abs_scale else scale
+    if abs_scale is None:
+        _scale = scale
+    else:
+        _scale = abs_scale / max(abs(start), abs(end))
     tn = scipy.stats.truncnorm.rvs(
         start, end, loc=loc, scale=_scale, size=size, random_state=random_state
     )
-- 
2.43.0


From 8cc2aac31521ba35367f65d25a23b3dd5feabb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 10/44] fix: members of an agent group are built once when all
 of its traits are set together

---
 crowddynamics/simulation/agents.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 8ca55b7..7d352c8 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -588,10 +588,16 @@ class AgentGroup(HasTraits):
     members = List(
         Instance(AgentType),
         help='')
+    _members_source = (None, None, None)
 
     @observe('size', 'agent_type', 'attributes')
     def _observe_members(self, change):
         if self.size > 0 and self.attributes is not None and self.agent_type is not None:
+            # Setting several traits at once notifies once for each of them.
+            source = (self.size, self.agent_type, self.attributes)
+            if all(a is b for a, b in zip(source, self._members_source)):
+                return
+            self._members_source = source
             if isinstance(self.attributes, Collection):
                 self.members = [self.agent_type(**a) for a in self.attributes]
             elif isinstance(self.attributes, Generator):
-- 
2.43.0


From 680cf5033415e4d8ec4d5f0093d19dec986fb6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 11/44] fix: size of an agent group defaults to the size of its
 collection of attributes

---
 crowddynamics/simulation/agents.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 7d352c8..1b46ae6 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -592,6 +592,8 @@ class AgentGroup(HasTraits):
 
     @observe('size', 'agent_type', 'attributes')
     def _observe_members(self, change):
+        if self.size == 0 and isinstance(self.attributes, Collection):
+            self.size = len(self.attributes)
         if self.size > 0 and self.attributes is not None and self.agent_type is not None:
             # Setting several traits at once notifies once for each of them.
             source = (self.size, self.agent_type, self.attributes)
-- 
2.43.0


From d330625233596c6f0a50c1ec32791f6cb77ef436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 12/44] fix: an agent group without agent type does not build
 members of the base type

---
 crowddynamics/simulation/agents.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 1b46ae6..2673363 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -574,7 +574,8 @@ class AgentGroup(HasTraits):
 
     """
     agent_type = Type(
-        AgentType,
+        default_value=None,
+        klass=AgentType,
         allow_none=True,
         help='AgentType for generating agent from attributes.')
     size = Int(
-- 
2.43.0


From cdd959be942d4355459fa9755fc98974849f808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 13/44] fix: data files are found by their exact basename and
 index

---
 crowddynamics/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 986124b..e6be856 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -6,6 +6,7 @@ Data flow ::
 
 """
 import os
+import re
 from collections import Iterable, Mapping
 from io import StringIO
 import csv
@@ -55,11 +56,12 @@ def find_npy_files(directory, basename):
     Yields:
         (int, numpy.ndarray): Tuple containing (index, data)
     """
+    pattern = re.compile(re.escape(basename) + r'_(\d+)\.npy')
     for root, dirs, files in os.walk(directory):
         for file in files:
-            if file.startswith(basename) and file.endswith('.npy'):
-                index = int(file.lstrip(basename + '_').rstrip('.npy'))
-                yield index, os.path.join(root, file)
+            match = pattern.fullmatch(file)
+            if match:
+                yield int(match.group(1)), os.path.join(root, file)
 
 
 def load_npy(directory, basename):
-- 
2.43.0


From 7f947aec1c8493d1fb022705fb3f2e2040def001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 14/44] fix: buffered simulation data is not changed by later
 iterations

---
 crowddynamics/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index e6be856..576c97e 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -37,7 +37,7 @@ def save_npy(directory, basename):
     index = 0
     while True:
         data = yield  # numpy.ndarray
-        buffer.append(data)
+        buffer.append(np.copy(data))
 
         dump = yield  # bool
         if dump:
-- 
2.43.0


From c41125bb87768be51dd05bc61f5f365b1adee68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 15/44] fix: single geometries, collections and mappings of
 geometries load as they were saved

---
 crowddynamics/io.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 576c97e..6416d5d 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -148,24 +148,30 @@ def save_csv(directory, basename):
 
 def geometry_mapping(geom):
     from shapely.geometry import mapping
+    from shapely.geometry.base import BaseGeometry
 
-    if isinstance(geom, Iterable):
-        return [mapping(geo) for geo in geom]
+    if isinstance(geom, BaseGeometry):
+        return mapping(geom)
     elif isinstance(geom, Mapping):
         return {name: mapping(geo) for name, geo in geom.items()}
+    elif isinstance(geom, Iterable):
+        return [mapping(geo) for geo in geom]
     else:
-        return mapping(geom) if geom else geom
+        return geom
 
 
 def geometry_shape(geom):
     from shapely.geometry import shape
 
-    if isinstance(geom, Iterable):
-        return [shape(geo) for geo in geom]
-    elif isinstance(geom, Mapping):
+    if isinstance(geom, Mapping):
+        # GeoJSON object or mapping of names to GeoJSON objects
+        if isinstance(geom.get('type'), str):
+            return shape(geom)
         return {name: shape(geo) for name, geo in geom.items()}
+    elif isinstance(geom, Iterable):
+        return [shape(geo) for geo in geom]
     else:
-        return shape(geom) if geom else geom
+        return geom
 
 
 def save_geometry_json(filename, geometries):
-- 
2.43.0


From af912c227f1b656f5015e9fda81ce9cc9dc695b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 16/44] fix: saving geometries again replaces the file

---
 crowddynamics/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 6416d5d..ea7d14f 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -182,7 +182,7 @@ def save_geometry_json(filename, geometries):
         geometries (dict):
 
     """
-    with open(filename, 'a') as fp:
+    with open(filename, 'w') as fp:
         obj = {name: geometry_mapping(geom) for name, geom in
                geometries.items()}
         json.dump(obj, fp, indent=2, separators=(', ', ': '))
-- 
2.43.0


From 51130f0eef2191767756da6bd04dafcf9fd37466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 17/44] fix: parts of geometry collections are converted to
 arrays

---
 crowddynamics/core/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index b254067..43aa29d 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -42,7 +42,7 @@ def _geom_to_array(geom: BaseGeometry):
         yield np.array([(np.nan, GeomTypes.POLYGON_SHELL)])
         yield np.asarray(geom.exterior)
     elif isinstance(geom, BaseMultipartGeometry):
-        return chain.from_iterable(map(geom_to_array, geom))
+        yield from chain.from_iterable(map(_geom_to_array, geom))
     else:
         raise TypeError
 
-- 
2.43.0


From 4bb25d68c3808985f9a3a4908a44ad0a00cc1822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 18/44] fix: holes of polygons have line segments too

---
 crowddynamics/core/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index 43aa29d..4d8f6f2 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -89,7 +89,8 @@ def geom_to_linesegment(geom: BaseGeometry):
     elif isinstance(geom, LineString):
         return zip(geom.coords[:-1], geom.coords[1:])
     elif isinstance(geom, Polygon):
-        return zip(geom.exterior.coords[:-1], geom.exterior.coords[1:])
+        rings = chain((geom.exterior,), geom.interiors)
+        return chain.from_iterable(map(geom_to_linesegment, rings))
     elif isinstance(geom, BaseMultipartGeometry):
         return chain.from_iterable(map(geom_to_linesegment, geom))
     else:
-- 
2.43.0


From 27c074580729525cf8e7d0e416165bc9a40fdf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 19/44] fix: agents that enter the domain are not counted as
 inactive

---
 crowddynamics/simulation/logic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index f6dba2b..55e9bdb 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -351,10 +351,9 @@ class InsideDomain(LogicNode):
     def update(self):
         agents = self.simulation.agents.array
         new_state = self.domain_path.contains_points(agents['position'])
-        change = agents['active'] ^ new_state
         agents['active'] = new_state
 
-        self.simulation.data['inactive'] += np.sum(change)
+        self.simulation.data['inactive'] = np.sum(~new_state)
 
 
 class TargetReached(LogicNode):
-- 
2.43.0


From 4f2e2e344b5bf9f37d4e2dba4b7d86d5e2f70abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 20/44] fix: targets are reached by the positions of the agents

---
 crowddynamics/simulation/logic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index 55e9bdb..8917160 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -373,7 +373,7 @@ class TargetReached(LogicNode):
         # We can only measure polygon targets atm
         for i, target in enumerate(self.simulation.field.targets):
             if isinstance(target, Polygon):
-                name = self.prefix.format(i)
+                name = self.prefix.format(index=i)
                 self.names.append(name)
                 self.paths.append(Path(np.asarray(target.exterior)))
                 self.reached_by.append(np.zeros(size, dtype=np.bool_))
@@ -382,5 +382,6 @@ class TargetReached(LogicNode):
     def update(self):
         # TODO: update target reached
         for name, path, reached_by in zip(self.names, self.paths, self.reached_by):
-            reached_by |= path.contains_points(self.simulation.agents.array)
+            reached_by |= path.contains_points(
+                self.simulation.agents.array['position'])
             self.simulation.data[name] = np.sum(reached_by)
-- 
2.43.0


From 0a6ad826d60cd02b92d3f3ac361935b86feddfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 21/44] fix: classical density has one integer entry per cell
 of the grid

---
 crowddynamics/core/quantities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index d86bfe9..99c5e0c 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -24,10 +24,10 @@ def density_classical(points, cell_size):
     density of fluids which have :math:`> 10^{18}` particles per
     :math:`\mathrm{mm}^3`.
     """
-    indices = np.floor(points / cell_size)
+    indices = np.floor(points / cell_size).astype(np.int64)
     x, y = indices[:, 0], indices[:, 1]
     x_min, y_min = x.min(), y.min()
-    shape = x.max() - x_min, y.max() - y_min
+    shape = x.max() - x_min + 1, y.max() - y_min + 1
     count = np.zeros(shape, dtype=np.int64)
     for i, j in zip(x, y):
         count[i - x_min, j - y_min] += 1
-- 
2.43.0


From 948846eb9bd3e14a60ed06e83bb7853d9f60a099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 22/44] fix: voronoi density uses the area of the region of
 each point

---
 crowddynamics/core/quantities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 99c5e0c..cc601f5 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -291,7 +291,8 @@ def _core_2(points, cell_size, area, point_region):
     for k, (i, j) in enumerate(zip(x, y)):
         index = i - x_min, j - y_min
         density[index] += 1
-        area_sum[index] += area[point_region[k]]
+        # Areas are in the order of the points
+        area_sum[index] += area[k]
 
     n, m = density.shape
     for i in range(n):
-- 
2.43.0


From 0547eff46ebb695b18b3a4198a5e45fe89b243c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 23/44] fix: voronoi densities cover the grid of the points,
 also for negative coordinates

---
 crowddynamics/core/quantities.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index cc601f5..90abc7d 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -210,8 +210,8 @@ def density_voronoi_1(points, cell_size):
     new_regions, new_vertices = voronoi_finite_polygons_2d(vor)
 
     # Density matrix
-    (imin, imax), (jmin, jmax) = np.int64(bbox_points / cell_size)
-    density = np.zeros(shape=(imax - imin + 1, jmax - imin + 1))
+    (imin, imax), (jmin, jmax) = np.int64(np.floor(bbox_points / cell_size))
+    density = np.zeros(shape=(imax - imin + 1, jmax - jmin + 1))
 
     # Loop over Voronoi regions
     for region in new_regions:
@@ -220,9 +220,10 @@ def density_voronoi_1(points, cell_size):
         minx, miny, maxx, maxy = voronoi_cell.bounds
 
         # Loop over the cells contained by the bounding box of the Voronoi cell
-        # FIXME: index out of bounds
-        for i in range(int(minx / cell_size), int(maxx / cell_size) + 1):
-            for j in range(int(miny / cell_size), int(maxy / cell_size) + 1):
+        for i in range(int(np.floor(minx / cell_size)),
+                       int(np.floor(maxx / cell_size)) + 1):
+            for j in range(int(np.floor(miny / cell_size)),
+                           int(np.floor(maxy / cell_size)) + 1):
                 cell = rectangle(i * cell_size, (i + 1) * cell_size,
                                  j * cell_size, (j + 1) * cell_size)
                 intersection = voronoi_cell & cell
@@ -281,7 +282,7 @@ def _core_2(points, cell_size, area, point_region):
 
     """
     # FIXME
-    indices = (points / cell_size).astype(np.int64)
+    indices = np.floor(points / cell_size).astype(np.int64)
     x, y = indices[:, 0], indices[:, 1]
     x_min, y_min = x.min(), y.min()
     shape = x.max() - x_min + 1, y.max() - y_min + 1
-- 
2.43.0


From e19e5f9d959caa75f62aa1e00435648378863764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 24/44] fix: bounding box has one row per dimension of the
 points

---
 crowddynamics/core/quantities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 90abc7d..5877d76 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -45,8 +45,9 @@ def bounding_box(points):
         numpy.ndarray: Array of [[min, max], [min, max], ...] along the
             dimensions of points.
     """
-    out = np.empty((points.ndim, 2))
-    for i in range(points.ndim):
+    dimensions = points.shape[1]
+    out = np.empty((dimensions, 2))
+    for i in range(dimensions):
         x = points[:, i]
         out[i, 0] = x.min()
         out[i, 1] = x.max()
-- 
2.43.0


From ffd3861f003fa60387c30ad85740f90006411c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 25/44] fix: navigation maps of a field are computed again when
 its geometry changes

---
 crowddynamics/simulation/field.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index 3671ab1..1f4636e 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -3,7 +3,7 @@ from functools import lru_cache
 import numpy as np
 from shapely.geometry import Polygon
 from shapely.geometry.base import BaseGeometry
-from traitlets import Instance, List, validate
+from traitlets import Instance, List, observe, validate
 
 from crowddynamics.core.geometry import union
 from crowddynamics.core.sampling import polygon_sample
@@ -84,9 +84,15 @@ class Field(FieldBase):
         Instance(BaseGeometry),
         help='List of spawns')
 
-    # TODO: invalidate caches if field changes?
     # TODO: implement direction and distance map as lazy properties
 
+    @observe('domain', 'obstacles', 'targets')
+    def _clear_caches(self, change):
+        for method in (self.meshgrid, self.shortest_path_target,
+                       self.direction_map_obstacles,
+                       self.navigation_to_target):
+            method.cache_clear()
+
     @validate('domain')
     def _valid_domain(self, proposal):
         value = proposal['value']
-- 
2.43.0


From f5809b4a01ca584940cefc23beee7254837a0020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 26/44] fix: domain and obstacles of a field can be removed

---
 crowddynamics/simulation/field.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index 1f4636e..d3a74f1 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -96,6 +96,8 @@ class Field(FieldBase):
     @validate('domain')
     def _valid_domain(self, proposal):
         value = proposal['value']
+        if value is None:
+            return value
         if not value.is_valid:
             raise ValidationError('{} should not be invalid'.format(value))
         if value.is_empty:
@@ -105,6 +107,8 @@ class Field(FieldBase):
     @validate('obstacles')
     def _valid_obstacles(self, proposal):
         value = proposal['value']
+        if value is None:
+            return value
         if not value.is_valid:
             raise ValidationError('{} should not be invalid'.format(value))
         if value.is_empty:
-- 
2.43.0


From 748cfd2f2ad899c84be35a420aa54acf2594b9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 27/44] fix: tuples of strings have an option too

---
 crowddynamics/traits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index e7f84d0..c45f917 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -68,7 +68,7 @@ def trait_to_type(trait):
         elif isinstance(trait, Bool):
             return bool
         elif isinstance(trait, Unicode):
-            raise str
+            return str
         else:
             raise InvalidValue('Trait conversion is not supported for: '
                                '{}'.format(trait))
-- 
2.43.0


From 2d90dda7a5a7ce1105a94e7df7fabe09b1d168c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 28/44] fix: options of tuples have the default value of the
 trait

---
 crowddynamics/traits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index c45f917..253fea6 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -144,8 +144,9 @@ def trait_to_option(name, trait):
                                 default=str(trait.default_value),
                                 type=click.Choice(list(map(str, trait.values))))
         elif isinstance(trait, Tuple):
+            # Default value of container is created dynamically
             return click.Option(param_decls=('--' + name,),
-                                default=trait.default_value,
+                                default=trait.make_dynamic_default() or None,
                                 type=tuple(
                                     trait_to_type(t) for t in trait._traits))
         else:
-- 
2.43.0


From 0b22687b2e1ce4ed85b9dc314feaa2cb44ca11c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 29/44] fix: options of enums without default value do not have
 an invalid default

---
 crowddynamics/traits.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index 253fea6..d06416d 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -7,7 +7,7 @@ import click
 import numpy as np
 from traitlets import Tuple
 from traitlets.traitlets import TraitError, TraitType, Int, Float, Complex, \
-    Bool, HasTraits, Unicode, Enum, is_trait
+    Bool, HasTraits, Unicode, Enum, Undefined, is_trait
 from traittypes import Array
 
 from crowddynamics.core.vector2D import length
@@ -140,8 +140,10 @@ def trait_to_option(name, trait):
                                 type=str)
         elif isinstance(trait, Enum):
             # FIXME: trait.values should be strings
+            default = None if trait.default_value in (None, Undefined) else \
+                str(trait.default_value)
             return click.Option(param_decls=('--' + name,),
-                                default=str(trait.default_value),
+                                default=default,
                                 type=click.Choice(list(map(str, trait.values))))
         elif isinstance(trait, Tuple):
             # Default value of container is created dynamically
-- 
2.43.0


From 4e60aff6e9f5dd4a5987d4d3db52779751e4f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 30/44] fix: simulations are imported from the directory that
 was asked for

---
 crowddynamics/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index ecc7745..6b69728 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -27,7 +27,8 @@ def import_simulations(dir_path='.'):
     for path in os.listdir(dir_path):
         base, ext = os.path.splitext(path)
         if ext == '.py':
-            d.update(import_subclasses(path, MultiAgentSimulation))
+            d.update(import_subclasses(os.path.join(dir_path, path),
+                                       MultiAgentSimulation))
     return d
 
 
-- 
2.43.0


From 33642e051bc58625787ddf4075ca63c26a4c649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 31/44] fix: each command runs its own simulation with values
 of its options

---
 crowddynamics/cli.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 6b69728..ec95c5d 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -5,6 +5,7 @@ from collections import OrderedDict
 from pprint import pformat
 
 import click
+from traitlets.traitlets import Enum
 
 from crowddynamics import __version__
 from crowddynamics.logging import setup_logging, LOGLEVELS
@@ -71,21 +72,35 @@ def run(context, loglevel, num):
     context.obj = dict(num=num)
 
 
+def simulation_command(name, cls):
+    """Make command that runs the simulation with values of its options."""
+    traits = OrderedDict(class_own_traits(cls))
+    options = OrderedDict((trait_name, trait_to_option(trait_name, trait))
+                          for trait_name, trait in traits.items())
+
+    def callback(**values):
+        kwargs = {}
+        for trait_name, trait in traits.items():
+            value = values[options[trait_name].name]
+            if value is None:
+                continue
+            if isinstance(trait, Enum):
+                # Choices are values of the trait as strings
+                value = next(v for v in trait.values if str(v) == value)
+            kwargs[trait_name] = value
+        cls(**kwargs).run()
+
+    return click.Command(name, callback=callback,
+                         params=list(options.values()))
+
+
 def simulation_commands():
     """Make commands simulations imported from python files in current working 
     directory."""
     simulations = import_simulations(dir_path='.')
     for simulation_name, simulation_cls in simulations.items():
-        # New command
-        command = click.Command(
-            simulation_name, callback=lambda: simulation_cls().run())
-
         # Add the command into run group
-        run.add_command(command)
-
-        # Add options for setting up the simulation
-        for name, trait in class_own_traits(simulation_cls):
-            command.params.append(trait_to_option(name, trait))
+        run.add_command(simulation_command(simulation_name, simulation_cls))
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 145fadae4dbbcb4225916e118e1e96aeb81473b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 32/44] fix: deprecated functions can be called

---
 crowddynamics/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/exceptions.py b/crowddynamics/exceptions.py
index 3f25134..98f3f06 100644
--- a/crowddynamics/exceptions.py
+++ b/crowddynamics/exceptions.py
@@ -59,8 +59,8 @@ def deprecated(func):
         warnings.warn_explicit(
             "Call to deprecated function {}.".format(func.__name__),
             category=DeprecationWarning,
-            filename=func.func_code.co_filename,
-            lineno=func.func_code.co_firstlineno + 1
+            filename=func.__code__.co_filename,
+            lineno=func.__code__.co_firstlineno + 1
         )
         return func(*args, **kwargs)
     return new_func
-- 
2.43.0


From aba20ab94abda49d449ff068d11a7df18573538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 33/44] fix: configurations with some invalid values are
 rejected

---
 crowddynamics/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index 2cbdfe6..538b428 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -23,7 +23,8 @@ BODY_TYPES_CFG_SPEC = os.path.join(CONFIG_ROOT, 'body_types_spec.cfg')
 def load_config(infile, configspec=None):
     """Load configuration from INI file."""
     config = ConfigObj(infile=infile, configspec=configspec)
-    if configspec and not config.validate(Validator()):
+    # Validation returns dictionary if only some of the values are valid
+    if configspec and config.validate(Validator()) is not True:
         raise ValidationError
     return config
 
-- 
2.43.0


From 03f01a0cbb5f89b42a5356a07a909c69db4cb81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 34/44] fix: parameters without default value are refused

---
 crowddynamics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/utils.py b/crowddynamics/utils.py
index aaa6174..b5aa55d 100644
--- a/crowddynamics/utils.py
+++ b/crowddynamics/utils.py
@@ -63,7 +63,7 @@ def empty_to_none(value):
 
 
 def mkspec(parameter):
-    if isinstance(parameter.default, inspect.Parameter.empty):
+    if parameter.default is inspect.Parameter.empty:
         raise InvalidType('Default argument should not be empty.')
     return ArgSpec(name=parameter.name,
                    default=empty_to_none(parameter.default),
-- 
2.43.0


From 710f6c1c582753767458def5c62485648285b661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 35/44] fix: fields without obstacles can be navigated

---
 crowddynamics/core/steering/navigation.py    | 3 +++
 crowddynamics/core/steering/quickest_path.py | 4 ++++
 crowddynamics/simulation/field.py            | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/crowddynamics/core/steering/navigation.py b/crowddynamics/core/steering/navigation.py
index 7d81d77..e1ff2b2 100644
--- a/crowddynamics/core/steering/navigation.py
+++ b/crowddynamics/core/steering/navigation.py
@@ -47,6 +47,9 @@ def static_potential(domain, targets, obstacles,
 
     dir_map_targets, dmap_targets = shortest_path(mgrid, domain, targets,
                                                   obstacles, radius)
+    if obstacles is None:
+        return mgrid, dmap_targets, dir_map_targets
+
     dir_map_obs, dmap_obs = direction_map_obstacles(mgrid, obstacles)
 
     # Combines two direction maps in a way that agents do not run into a wall
diff --git a/crowddynamics/core/steering/quickest_path.py b/crowddynamics/core/steering/quickest_path.py
index 45a76a4..41e2cfc 100644
--- a/crowddynamics/core/steering/quickest_path.py
+++ b/crowddynamics/core/steering/quickest_path.py
@@ -183,6 +183,10 @@ def fill_missing(mask, x, y, u, v):
 
 def shortest_path(mgrid, domain, targets, obstacles, buffer_radius):
     """Vector field guiding towards targets."""
+    if obstacles is None:
+        dmap_targets = distance_map(mgrid, targets, None)
+        return direction_map(dmap_targets), dmap_targets
+
     obstacles_buffered = obstacles.buffer(buffer_radius).intersection(domain)
 
     dmap_targets = distance_map(mgrid, targets, obstacles_buffered)
diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index d3a74f1..d37f79f 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -168,6 +168,9 @@ class Field(FieldBase):
             raise CrowdDynamicsException('No targets are set.')
 
         dir_map_targets, dmap_targets = self.shortest_path_target(step, index, radius)
+        if self.obstacles is None:
+            return self.meshgrid(step), dmap_targets, dir_map_targets
+
         dir_map_obs, dmap_obs = self.direction_map_obstacles(step)
         dir_map = obstacle_handling(dmap_obs, dir_map_obs, dir_map_targets,
                                     radius, strength)
-- 
2.43.0


From b8961ebc6f65b9adf285bf05c53719f413047e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 36/44] fix: shoulders of three-circle agents follow every
 candidate position

---
 crowddynamics/simulation/agents.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 2673363..10adbce 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -318,6 +318,10 @@ class AgentType(HasTraits):
 
     array = __array__
 
+    def move_to(self, position):
+        """Move agent to new position."""
+        self.position = position
+
     def overlapping(self, others) -> bool:
         """Determines if agent is overlapping with any of the agent supplied
         in other argument.
@@ -408,6 +412,12 @@ class ThreeCircle(AgentType, States, BodyType, TranslationalMotion,
         return self.position + self.r_ts * rotate270(
             unit_vector(self.orientation))
 
+    def move_to(self, position):
+        """Move agent and its shoulders to new position."""
+        self.position = position
+        self.position_ls = self._default_position_ls()
+        self.position_rs = self._default_position_rs()
+
     def overlapping(self, others):
         return overlapping_three_circles(
             others,
@@ -660,8 +670,8 @@ class Agents(AgentsBase):
 
         while index < group.size and overlaps < overlaps_max:
             new_agent = group.members[index]
-            new_agent.position = position_gen() if callable(position_gen) \
-                else next(position_gen)
+            new_agent.move_to(position_gen() if callable(position_gen)
+                              else next(position_gen))
 
             # Overlapping check
             neighbours = self._neighbours.nearest(new_agent.position, radius=1)
-- 
2.43.0


From 21c229c4b97fc4796e7c5a8387a85e3b88f604ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 37/44] fix: agents that did not fit are removed from the array
 of agents

---
 crowddynamics/simulation/agents.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 10adbce..b2a3758 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -691,9 +691,8 @@ class Agents(AgentsBase):
             self.index += 1
             index += 1
 
-        # TODO: remove agents that didn't fit from self.array
-        if self.index + 1 < self.array.size:
-            pass
+        # Remove agents that didn't fit from self.array
+        self.array = self.array[:self.index]
 
         # Array should remain contiguous
         assert self.array.flags.c_contiguous
-- 
2.43.0


From a7557dd852e3aaed1016b84b4083afc89a05ddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:41 +0000
Subject: [PATCH 38/44] fix: the image of a distance map has the width and
 height of its grid

---
 crowddynamics/visualizations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/visualizations.py b/crowddynamics/visualizations.py
index 1dcbc94..59d6ef4 100644
--- a/crowddynamics/visualizations.py
+++ b/crowddynamics/visualizations.py
@@ -139,7 +139,7 @@ def add_distance_map(fig, mgrid, distance_map, **kwargs):
     """
     kwargs.setdefault('palette', 'Greys256')
     minx, miny, maxx, maxy = mgrid.bounds
-    fig.image([distance_map], minx, miny, maxx, maxy, **kwargs)
+    fig.image([distance_map], minx, miny, maxx - minx, maxy - miny, **kwargs)
 
 
 def add_direction_map(fig: Figure, mgrid, direction_map, freq=2, **kwargs):
-- 
2.43.0


From d5176b7112ad5c1bd6697557ef414d59fad40007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:41 +0000
Subject: [PATCH 39/44] fix: distance maps without masked values can be plotted

---
 crowddynamics/visualizations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/visualizations.py b/crowddynamics/visualizations.py
index 59d6ef4..af7fbb8 100644
--- a/crowddynamics/visualizations.py
+++ b/crowddynamics/visualizations.py
@@ -191,7 +191,7 @@ def plot_field(field, step=0.02, radius=0.3, strength=0.3, **kwargs):
         'closest', step, radius, strength)
 
     # TODO: masked values on distance map
-    add_distance_map(p, mgrid, distance_map.filled(1.0),
+    add_distance_map(p, mgrid, np.ma.filled(distance_map, 1.0),
                      legend='distance_map')
     add_direction_map(p, mgrid, direction_map, legend='direction_map')
 
-- 
2.43.0


From 7a110ed42a6881114771049d8cd88cbc0fc55eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:41 +0000
Subject: [PATCH 40/44] fix: fields without obstacles can be plotted

---
 crowddynamics/visualizations.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crowddynamics/visualizations.py b/crowddynamics/visualizations.py
index af7fbb8..7f56a88 100644
--- a/crowddynamics/visualizations.py
+++ b/crowddynamics/visualizations.py
@@ -123,7 +123,8 @@ def add_field(fig, field):
     for target in field.targets:
         add_geom(fig, target, alpha=0.5, line_dash='dashed', color='olive')
 
-    add_geom(fig, field.obstacles, alpha=0.8)
+    if field.obstacles is not None:
+        add_geom(fig, field.obstacles, alpha=0.8)
 
 
 def add_distance_map(fig, mgrid, distance_map, **kwargs):
@@ -214,10 +215,11 @@ def plot_field(field, step=0.02, radius=0.3, strength=0.3, **kwargs):
                  line_dash='dashed',
                  color='olive',)
 
-    add_geom(p, field.obstacles,
-             legend='obstacles',
-             line_width=3.0,
-             alpha=0.8, )
+    if field.obstacles is not None:
+        add_geom(p, field.obstacles,
+                 legend='obstacles',
+                 line_width=3.0,
+                 alpha=0.8, )
 
     p.legend.location = "top_left"
     p.legend.click_policy = "hide"
-- 
2.43.0


From 3e35f8c36ebba110dcbd701b92dcad3bc382380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:15 +0000
Subject: [PATCH 41/44] fix: importing simulation callables does not move the
 caller to another directory

---
 crowddynamics/config.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index 538b428..9e4786e 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -42,7 +42,7 @@ def import_simulation_callables(confpath):
         (str, typing.Callable[[...], MultiAgentSimulation]):
     """
     logger = logging.getLogger(__name__)
-    base, _ = os.path.split(confpath)
+    base, _ = os.path.split(os.path.abspath(confpath))
     config = load_config(confpath, configspec=CROWDDYNAMICS_CFG_SPEC)
     conf = config.get('simulations', [])
 
@@ -55,10 +55,12 @@ def import_simulation_callables(confpath):
                         spec = importlib.util.spec_from_file_location(name, path)
                         module = importlib.util.module_from_spec(spec)
                         spec.loader.exec_module(module)
-
-                        try:
-                            yield funcname, getattr(module, funcname)
-                        except AttributeError as e:
-                            logger.warning(e)
                 except ImportError as e:
                     logger.warning(e)
+                    continue
+                try:
+                    function = getattr(module, funcname)
+                except AttributeError as e:
+                    logger.warning(e)
+                    continue
+                yield funcname, function
-- 
2.43.0


From e84e0d86f361aa6d460dce3d8103612a2b06a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:13 +0000
Subject: [PATCH 42/44] fix: voronoi density covers the regions of outer points
 of thin crowds

---
 crowddynamics/core/quantities.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 5877d76..2eabdf5 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -206,17 +206,20 @@ def density_voronoi_1(points, cell_size):
     (xmin, xmax), (ymin, ymax) = bbox_points
     observation_area = rectangle(xmin, xmax, ymin, ymax)
 
-    # Voronoi tesselation
-    vor = Voronoi(points)
-    new_regions, new_vertices = voronoi_finite_polygons_2d(vor)
+    # Voronoi tesselation. Distant extra points bound the regions of the
+    # outermost points, well outside of the observation area.
+    size = max(xmax - xmin, ymax - ymin)
+    extra = [((xmin + xmax) / 2 + 10 * size * i, (ymin + ymax) / 2 + 10 * size * j)
+             for i in (-1, 1) for j in (-1, 1)]
+    vor = Voronoi(np.vstack((points, extra)))
 
     # Density matrix
     (imin, imax), (jmin, jmax) = np.int64(np.floor(bbox_points / cell_size))
     density = np.zeros(shape=(imax - imin + 1, jmax - jmin + 1))
 
     # Loop over Voronoi regions
-    for region in new_regions:
-        vertices = new_vertices[region]
+    for index in vor.point_region[:len(points)]:
+        vertices = vor.vertices[vor.regions[index]]
         voronoi_cell = Polygon(shell=vertices) & observation_area
         minx, miny, maxx, maxy = voronoi_cell.bounds
 
-- 
2.43.0


From eaba6ccfb2375b32bae89d26976550d3c874c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:32 +0000
Subject: [PATCH 43/44] fix: spawn samples stay in the spawn and clear of the
 obstacles

---
 crowddynamics/simulation/field.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index d37f79f..4c005bb 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -1,7 +1,7 @@
 from functools import lru_cache
 
 import numpy as np
-from shapely.geometry import Polygon
+from shapely.geometry import Point, Polygon
 from shapely.geometry.base import BaseGeometry
 from traitlets import Instance, List, observe, validate
 
@@ -131,7 +131,10 @@ class Field(FieldBase):
         """Generates positions for agents"""
         geom = spawn - obstacles.buffer(radius) if obstacles else spawn
         vertices = np.asarray(geom.convex_hull.exterior)
-        return polygon_sample(vertices)
+        # Samples from the convex hull can be outside of the geometry
+        for point in polygon_sample(vertices):
+            if geom.intersects(Point(point)):
+                yield point
 
     def sample_spawn(self, spawn_index: int, radius: float = 0.3):
         """Generator for sampling points inside spawn without overlapping with
-- 
2.43.0


From 01ea1e09cff9b150423302381867d394f5967b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:28 +0000
Subject: [PATCH 44/44] fix: drawing a polygon keeps its walls and what lies in
 its holes

---
 crowddynamics/core/geometry.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index 4d8f6f2..510995f 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -116,14 +116,19 @@ def draw_geom(geom: BaseGeometry,
             x, y = skimage.draw.line(r0, c0, r1, c1)
             grid[y, x] = value
     elif isinstance(geom, Polygon):
+        # Cells of the polygon itself. Values inside its holes are not changed.
+        cells = np.zeros(grid.shape, dtype=np.bool_)
         i = indicer(geom.exterior)
         x, y = skimage.draw.polygon(i[:, 0], i[:, 1])
-        grid[y, x] = value
-        x, y = skimage.draw.polygon_perimeter(i[:, 0], i[:, 1])
-        grid[y, x] = value
-        for j in map(indicer, geom.interiors):
+        cells[y, x] = True
+        interiors = list(map(indicer, geom.interiors))
+        for j in interiors:
             x, y = skimage.draw.polygon(j[:, 0], j[:, 1])
-            grid[y, x] = 0
+            cells[y, x] = False
+        for j in [i] + interiors:
+            x, y = skimage.draw.polygon_perimeter(j[:, 0], j[:, 1])
+            cells[y, x] = True
+        grid[cells] = value
     elif isinstance(geom, BaseMultipartGeometry):
         for geo in geom:
             draw_geom(geo, grid, indicer, value)
-- 
2.43.0

