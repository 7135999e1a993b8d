From 573e9c5f7d17d265d6796fe46624835e291df02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 01/25] fix: let Random and Pyramid neighbourhoods have
 different sizes

np.array() of rows of unequal length raises on current NumPy; keep a list of arrays.
---
 pyswarms/backend/topology/pyramid.py | 11 +++++------
 pyswarms/backend/topology/random.py  | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index d3d5b2a..4844e14 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -78,12 +78,11 @@ class Pyramid(Topology):
                     )
                     indices, index_pointer = pyramid.vertex_neighbor_vertices
                     # Insert all the neighbors for each particle in the idx array
-                    self.neighbor_idx = np.array(
-                        [
-                            index_pointer[indices[i] : indices[i + 1]]
-                            for i in range(swarm.n_particles)
-                        ]
-                    )
+                    # (the particles do not all have the same number of them)
+                    self.neighbor_idx = [
+                        index_pointer[indices[i] : indices[i + 1]]
+                        for i in range(swarm.n_particles)
+                    ]
 
                 idx_min = np.array(
                     [
diff --git a/pyswarms/backend/topology/random.py b/pyswarms/backend/topology/random.py
index 7835448..2a1abed 100644
--- a/pyswarms/backend/topology/random.py
+++ b/pyswarms/backend/topology/random.py
@@ -65,12 +65,11 @@ class Random(Topology):
             # Check if the topology is static or dynamic and assign neighbors
             if (self.static and self.neighbor_idx is None) or not self.static:
                 adj_matrix = self.__compute_neighbors(swarm, k)
-                self.neighbor_idx = np.array(
-                    [
-                        adj_matrix[i].nonzero()[0]
-                        for i in range(swarm.n_particles)
-                    ]
-                )
+                # The particles do not all have the same number of neighbors
+                self.neighbor_idx = [
+                    adj_matrix[i].nonzero()[0]
+                    for i in range(swarm.n_particles)
+                ]
             idx_min = np.array(
                 [
                     swarm.pbest_cost[self.neighbor_idx[i]].argmin()
-- 
2.43.0


From ac6a7b51dc9b0aa0eb709cf472893e74aa39a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 02/25] fix: keep Ring.neighbor_idx two-dimensional with a
 single static neighbour

Every call added an axis to a static topology's neighbor_idx when k is 1 (or
VonNeumann's r is 0), which failed after 64 iterations.
---
 pyswarms/backend/topology/ring.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/topology/ring.py b/pyswarms/backend/topology/ring.py
index 0f1ca90..f4b1152 100644
--- a/pyswarms/backend/topology/ring.py
+++ b/pyswarms/backend/topology/ring.py
@@ -65,14 +65,17 @@ class Ring(Topology):
             if (self.static and self.neighbor_idx is None) or not self.static:
                 # Obtain the nearest-neighbors for each particle
                 tree = cKDTree(swarm.position)
-                _, self.neighbor_idx = tree.query(swarm.position, p=p, k=k)
+                _, neighbor_idx = tree.query(swarm.position, p=p, k=k)
+                # A query for a single neighbor drops the last axis
+                self.neighbor_idx = neighbor_idx.reshape(
+                    swarm.n_particles, -1
+                )
 
             # Map the computed costs to the neighbour indices and take the
             # argmin. If k-neighbors is equal to 1, then the swarm acts
             # independently of each other.
             if k == 1:
                 # The minimum index is itself, no mapping needed.
-                self.neighbor_idx = self.neighbor_idx[:, np.newaxis]
                 best_neighbor = np.arange(swarm.n_particles)
             else:
                 idx_min = swarm.pbest_cost[self.neighbor_idx].argmin(axis=1)
-- 
2.43.0


From bdd077620b853587bad96a374ef65c1d63166ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 03/25] fix: return a cost and position that belong together on
 every optimize()

optimize() forgets the personal bests when it starts but kept the best cost of
the previous call, so a second call could return the old cost together with the
best position of the new one.
---
 pyswarms/discrete/binary.py          | 1 +
 pyswarms/single/general_optimizer.py | 1 +
 pyswarms/single/global_best.py       | 1 +
 pyswarms/single/local_best.py        | 1 +
 4 files changed, 4 insertions(+)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index ed20b8f..c1dd8ba 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -189,6 +189,7 @@ class BinaryPSO(DiscreteSwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.best_cost = np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index a46d3ed..08d7dbe 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -240,6 +240,7 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.best_cost = np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index 3392bfb..f7ae598 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -202,6 +202,7 @@ class GlobalBestPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.best_cost = np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/local_best.py b/pyswarms/single/local_best.py
index 146442d..fd0e532 100644
--- a/pyswarms/single/local_best.py
+++ b/pyswarms/single/local_best.py
@@ -226,6 +226,7 @@ class LocalBestPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.best_cost = np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
-- 
2.43.0


From a15295c156a767b00d43aee8ade9d3a3423617be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 04/25] fix: give Star a best position before any cost is
 finite

With infinite costs only (e.g. penalised infeasible particles) best_pos stayed
empty and the velocity update failed on its shape.
---
 pyswarms/backend/topology/star.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswarms/backend/topology/star.py b/pyswarms/backend/topology/star.py
index 0a166b4..637be49 100644
--- a/pyswarms/backend/topology/star.py
+++ b/pyswarms/backend/topology/star.py
@@ -63,7 +63,10 @@ class Star(Topology):
                 self.neighbor_idx = np.tile(
                     np.arange(swarm.n_particles), (swarm.n_particles, 1)
                 )
-            if np.min(swarm.pbest_cost) < swarm.best_cost:
+            if (
+                np.min(swarm.pbest_cost) < swarm.best_cost
+                or swarm.best_pos.size == 0
+            ):
                 # Get the particle position with the lowest pbest_cost
                 # and assign it to be the best_pos
                 best_pos = swarm.pbest_pos[np.argmin(swarm.pbest_cost)]
-- 
2.43.0


From f931e2bb7a93ae2be257441857d53cc4666d458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 05/25] fix: accept an integer init_pos in compute_position()

Adding the velocity in place to an integer array raises a casting error.
---
 pyswarms/backend/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/operators.py b/pyswarms/backend/operators.py
index 71041e0..6c352e9 100644
--- a/pyswarms/backend/operators.py
+++ b/pyswarms/backend/operators.py
@@ -194,8 +194,8 @@ def compute_position(swarm, bounds, bh):
         New position-matrix
     """
     try:
-        temp_position = swarm.position.copy()
-        temp_position += swarm.velocity
+        # Not in place: init_pos may be an array of integers
+        temp_position = swarm.position + swarm.velocity
 
         if bounds is not None:
             temp_position = bh(temp_position, bounds)
-- 
2.43.0


From 2119c08ca72799bd996f0578b534e7c274d40a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 06/25] fix: accept bounds given as lists in every boundary
 strategy

The bounds are documented as arrays or lists, but reflective, shrink and
intermediate index them with arrays.
---
 pyswarms/backend/handlers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 61680f5..2b11fd5 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -131,6 +131,8 @@ class BoundaryHandler(HandlerMixin):
             the adjusted positions of the swarm
         """
         try:
+            # The bounds may be lists
+            bounds = tuple(np.asarray(bound) for bound in bounds)
             new_position = self.strategies[self.strategy](
                 position, bounds, **kwargs
             )
-- 
2.43.0


From df77000cb22289da5a38cc910ef81647e02516f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 07/25] fix: let the optimizers use the random options strategy

They pass no end_opts, which the strategy required although it has a default
for the options missing from it.
---
 pyswarms/backend/handlers.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 2b11fd5..ac09e22 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -717,10 +717,7 @@ class OptionsHandler(HandlerMixin):
         """
         
         start = start_opts[opt]
-        if opt in kwargs["end_opts"]:
-            end = kwargs["end_opts"][opt]
-        else:
-            end = start + 1
+        end = kwargs.get("end_opts", {}).get(opt, start + 1)
         return start + (end - start) * np.random.rand()
 
     def nonlin_mod(self, start_opts, opt, **kwargs):
-- 
2.43.0


From b29236ffdc0374d91eb3401c934a25ab66c2c7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 08/25] fix: keep shrunk positions inside the bounds

x + (bound - x) / v * v can round to just outside of the bound.
---
 pyswarms/backend/handlers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index ac09e22..dd9b5d8 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -281,6 +281,8 @@ class BoundaryHandler(HandlerMixin):
                     velocity[greater_than_bound[0]].T,
                 ).T
             )
+            # Rounding can leave a particle an ulp outside of the bounds
+            new_pos = np.clip(new_pos, lb, ub)
             self.memory = new_pos
         return new_pos
 
-- 
2.43.0


From 540aa1ab2651096349584c90b378a6efe34f3c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 09/25] fix: clamp the velocities of the zero and adjust
 strategies

zero ignored the clamp and adjust ignored it on its first call.
---
 pyswarms/backend/handlers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index dd9b5d8..4031805 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -492,8 +492,8 @@ class VelocityHandler(HandlerMixin):
             else:
                 new_vel = kwargs["position"] - self.memory
                 self.memory = kwargs["position"]
-                if clamp is not None:
-                    new_vel = self.__apply_clamp(new_vel, clamp)
+            if clamp is not None:
+                new_vel = self.__apply_clamp(new_vel, clamp)
         except KeyError:
             self.rep.logger.exception("Keyword 'position' missing")
             raise
@@ -541,6 +541,8 @@ class VelocityHandler(HandlerMixin):
                 kwargs["position"], kwargs["bounds"]
             )
             new_vel = velocity
+            if clamp is not None:
+                new_vel = self.__apply_clamp(new_vel, clamp)
             new_vel[lower_than_bound[0]] = np.zeros(velocity.shape[1])
             new_vel[greater_than_bound[0]] = np.zeros(velocity.shape[1])
         except KeyError:
-- 
2.43.0


From 148961e6f69e08d93d504e104d55e23a594440c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 10/25] fix: invert the velocity of an out-of-bounds particle
 once

A particle below one bound and above another got its velocity multiplied by
-z twice.
---
 pyswarms/backend/handlers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 4031805..0f28166 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -522,10 +522,11 @@ class VelocityHandler(HandlerMixin):
                 kwargs["position"], kwargs["bounds"]
             )
             new_vel = velocity
-            new_vel[lower_than_bound[0]] = (-z) * new_vel[lower_than_bound[0]]
-            new_vel[greater_than_bound[0]] = (-z) * new_vel[
-                greater_than_bound[0]
-            ]
+            # A particle can be below one bound and above another
+            out_of_bounds = np.union1d(
+                lower_than_bound[0], greater_than_bound[0]
+            )
+            new_vel[out_of_bounds] = (-z) * new_vel[out_of_bounds]
             if clamp is not None:
                 new_vel = self.__apply_clamp(new_vel, clamp)
         except KeyError:
-- 
2.43.0


From 0d26cdd0b0063ae0c322384c4981daa842c5de6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 11/25] fix: give every swarm its own default options

The default dictionary was shared by all swarms.
---
 pyswarms/backend/generators.py | 6 ++++--
 pyswarms/backend/swarms.py     | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyswarms/backend/generators.py b/pyswarms/backend/generators.py
index 4a8ab11..65de69c 100644
--- a/pyswarms/backend/generators.py
+++ b/pyswarms/backend/generators.py
@@ -189,7 +189,7 @@ def create_swarm(
     dimensions,
     discrete=False,
     binary=False,
-    options={},
+    options=None,
     bounds=None,
     center=1.0,
     init_pos=None,
@@ -242,4 +242,6 @@ def create_swarm(
         )
 
     velocity = generate_velocity(n_particles, dimensions, clamp=clamp)
-    return Swarm(position, velocity, options=options)
+    return Swarm(
+        position, velocity, options={} if options is None else options
+    )
diff --git a/pyswarms/backend/swarms.py b/pyswarms/backend/swarms.py
index f3817cb..26a9527 100644
--- a/pyswarms/backend/swarms.py
+++ b/pyswarms/backend/swarms.py
@@ -87,7 +87,7 @@ class Swarm(object):
     # With defaults
     n_particles = attrib(type=int, validator=instance_of(int))
     dimensions = attrib(type=int, validator=instance_of(int))
-    options = attrib(type=dict, default={}, validator=instance_of(dict))
+    options = attrib(type=dict, factory=dict, validator=instance_of(dict))
     pbest_pos = attrib(type=np.ndarray, validator=instance_of(np.ndarray))
     best_pos = attrib(
         type=np.ndarray,
-- 
2.43.0


From 8746ab49425d21a2274729e783fa2c477c27e94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 12/25] fix: reject an init_pos of the wrong shape

The generators document a ValueError for it but passed it on.
---
 pyswarms/backend/generators.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyswarms/backend/generators.py b/pyswarms/backend/generators.py
index 65de69c..cadf685 100644
--- a/pyswarms/backend/generators.py
+++ b/pyswarms/backend/generators.py
@@ -58,6 +58,11 @@ def generate_swarm(
         When the argument passed to bounds is not an iterable.
     """
     try:
+        if init_pos is not None and np.shape(init_pos) != (
+            n_particles,
+            dimensions,
+        ):
+            raise ValueError("User-defined init_pos has the wrong shape.")
         if (init_pos is not None) and (bounds is None):
             pos = init_pos
         elif (init_pos is not None) and (bounds is not None):
@@ -124,6 +129,11 @@ def generate_discrete_swarm(
         When the argument passed to n_particles or dimensions is incorrect.
     """
     try:
+        if init_pos is not None and np.shape(init_pos) != (
+            n_particles,
+            dimensions,
+        ):
+            raise ValueError("User-defined init_pos has the wrong shape.")
         if (init_pos is not None) and binary:
             if not len(np.unique(init_pos)) <= 2:
                 raise ValueError("User-defined init_pos is not binary!")
-- 
2.43.0


From 3a9236e95e048f52992b84e672c84f145064716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:41 +0000
Subject: [PATCH 13/25] fix: draw the bits of a binary swarm independently

The random matrix of the position update was a single row shared by all the
particles.
---
 pyswarms/discrete/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index c1dd8ba..7825dfc 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -263,7 +263,7 @@ class BinaryPSO(DiscreteSwarmOptimizer):
             a Swarm class
         """
         return (
-            np.random.random_sample(size=swarm.dimensions)
+            np.random.random_sample(size=swarm.velocity.shape)
             < self._sigmoid(swarm.velocity)
         ) * 1
 
-- 
2.43.0


From 225972d211df893b473f09d3bfb2667b000a7afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:17 +0000
Subject: [PATCH 14/25] fix: show the 3D axes of plot_surface()

Axes3D() no longer adds itself to the figure, which stayed empty.
---
 pyswarms/utils/plotters/plotters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyswarms/utils/plotters/plotters.py b/pyswarms/utils/plotters/plotters.py
index 4bfd959..a8bf069 100644
--- a/pyswarms/utils/plotters/plotters.py
+++ b/pyswarms/utils/plotters/plotters.py
@@ -347,6 +347,7 @@ def plot_surface(
 
         # Initialize 3D-axis
         ax = Axes3D(fig)
+        fig.add_axes(ax)
 
         n_iters = len(pos_history)
 
-- 
2.43.0


From 36195409296b39a24f54f52aff8b7c468ed8b255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 15/25] fix: forget the best position together with the best
 cost

A second optimize() whose costs are all infinite kept the best position of the
previous call and failed to copy the cost.
---
 pyswarms/discrete/binary.py          | 2 +-
 pyswarms/single/general_optimizer.py | 2 +-
 pyswarms/single/global_best.py       | 2 +-
 pyswarms/single/local_best.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index 7825dfc..c907cf2 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -189,7 +189,7 @@ class BinaryPSO(DiscreteSwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
-        self.swarm.best_cost = np.inf
+        self.swarm.best_pos, self.swarm.best_cost = np.array([]), np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index 08d7dbe..1910069 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -240,7 +240,7 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
-        self.swarm.best_cost = np.inf
+        self.swarm.best_pos, self.swarm.best_cost = np.array([]), np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index f7ae598..6cbd09d 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -202,7 +202,7 @@ class GlobalBestPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
-        self.swarm.best_cost = np.inf
+        self.swarm.best_pos, self.swarm.best_cost = np.array([]), np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/local_best.py b/pyswarms/single/local_best.py
index fd0e532..bec2e51 100644
--- a/pyswarms/single/local_best.py
+++ b/pyswarms/single/local_best.py
@@ -226,7 +226,7 @@ class LocalBestPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
-        self.swarm.best_cost = np.inf
+        self.swarm.best_pos, self.swarm.best_cost = np.array([]), np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
-- 
2.43.0


From d84649587cbd798ad97af3ea30da8b9373f2d792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 16/25] fix: let reflective terminate for positions far outside
 of the bounds

Reflecting one boundary at a time takes time proportional to the distance and
never ends once adding a bound does not change the position.
---
 pyswarms/backend/handlers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 0f28166..fe1053e 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -197,10 +197,15 @@ class BoundaryHandler(HandlerMixin):
             \end{gather*}
         """
         lb, ub = bounds
+        new_pos = position
+        # Two reflections shift a position by twice the range. Take the far
+        # ones together: large positions are not changed by adding a bound
+        bound_d = 2 * (ub - lb)
+        far = np.abs(position - lb) > 2 * bound_d
+        new_pos[far] = (lb + np.mod(position - lb, bound_d))[far]
         lower_than_bound, greater_than_bound = self._out_of_bounds(
-            position, bounds
+            new_pos, bounds
         )
-        new_pos = position
         while lower_than_bound[0].size != 0 or greater_than_bound[0].size != 0:
             if lower_than_bound[0].size > 0:
                 new_pos[lower_than_bound] = (
-- 
2.43.0


From 328e7cf40dd80c64bc53d914cab4e3a5f63e3887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 17/25] fix: keep every particle in its own Ring neighbourhood

With more than k particles at one position the query could leave out the
particle itself, so the best personal best was in nobody's neighbourhood: the
reported best cost got worse and did not belong to the returned position.
---
 pyswarms/backend/topology/ring.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyswarms/backend/topology/ring.py b/pyswarms/backend/topology/ring.py
index f4b1152..98182ff 100644
--- a/pyswarms/backend/topology/ring.py
+++ b/pyswarms/backend/topology/ring.py
@@ -70,6 +70,13 @@ class Ring(Topology):
                 self.neighbor_idx = neighbor_idx.reshape(
                     swarm.n_particles, -1
                 )
+                # With more than k particles at the same position, a particle
+                # may not have been found among its own nearest neighbors
+                itself = np.arange(swarm.n_particles)
+                absent = ~np.any(
+                    self.neighbor_idx == itself[:, np.newaxis], axis=1
+                )
+                self.neighbor_idx[absent, -1] = itself[absent]
 
             # Map the computed costs to the neighbour indices and take the
             # argmin. If k-neighbors is equal to 1, then the swarm acts
-- 
2.43.0


From 625652f63c5cdeb63176bd25b03f186b5793f905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 18/25] fix: connect a Pyramid swarm of dimensions + 1
 particles

They form a single simplex, which Qhull cannot triangulate with joggled input.
---
 pyswarms/backend/topology/pyramid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index 4844e14..714ac5e 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -61,8 +61,8 @@ class Pyramid(Topology):
             Best cost
         """
         try:
-            # If there are less than (swarm.dimensions + 1) particles they are all connected
-            if swarm.n_particles < swarm.dimensions + 1:
+            # If there are not more than (swarm.dimensions + 1) particles they are all connected
+            if swarm.n_particles <= swarm.dimensions + 1:
                 self.neighbor_idx = np.tile(
                     np.arange(swarm.n_particles), (swarm.n_particles, 1)
                 )
-- 
2.43.0


From 507b2d7664b498a6d0411030ee28e672f14c6c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 19/25] fix: reject a binary init_pos that is not made of zeros
 and ones

---
 pyswarms/backend/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/generators.py b/pyswarms/backend/generators.py
index cadf685..151bc42 100644
--- a/pyswarms/backend/generators.py
+++ b/pyswarms/backend/generators.py
@@ -124,7 +124,7 @@ def generate_discrete_swarm(
     Raises
     ------
     ValueError
-        When init_pos during binary=True does not contain two unique values.
+        When init_pos during binary=True does not consist of zeros and ones.
     TypeError
         When the argument passed to n_particles or dimensions is incorrect.
     """
@@ -135,7 +135,7 @@ def generate_discrete_swarm(
         ):
             raise ValueError("User-defined init_pos has the wrong shape.")
         if (init_pos is not None) and binary:
-            if not len(np.unique(init_pos)) <= 2:
+            if not np.isin(init_pos, (0, 1)).all():
                 raise ValueError("User-defined init_pos is not binary!")
             # init_pos maybe ones
             pos = init_pos
-- 
2.43.0


From a019b8beb88a430fc30c280bb51adb17ee203d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:22 +0000
Subject: [PATCH 20/25] fix: start every run without personal bests

The personal best positions of the previous run attracted the particles that
had no finite cost yet.
---
 pyswarms/discrete/binary.py          | 1 +
 pyswarms/single/general_optimizer.py | 1 +
 pyswarms/single/global_best.py       | 1 +
 pyswarms/single/local_best.py        | 1 +
 4 files changed, 4 insertions(+)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index c907cf2..5c72c24 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -188,6 +188,7 @@ class BinaryPSO(DiscreteSwarmOptimizer):
         # Setup Pool of processes for parallel evaluation
         pool = None if n_processes is None else mp.Pool(n_processes)
 
+        self.swarm.pbest_pos = self.swarm.position
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
         self.swarm.best_pos, self.swarm.best_cost = np.array([]), np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index 1910069..9d56ecd 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -239,6 +239,7 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         # Setup Pool of processes for parallel evaluation
         pool = None if n_processes is None else mp.Pool(n_processes)
 
+        self.swarm.pbest_pos = self.swarm.position
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
         self.swarm.best_pos, self.swarm.best_cost = np.array([]), np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index 6cbd09d..7515c06 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -201,6 +201,7 @@ class GlobalBestPSO(SwarmOptimizer):
         # Setup Pool of processes for parallel evaluation
         pool = None if n_processes is None else mp.Pool(n_processes)
 
+        self.swarm.pbest_pos = self.swarm.position
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
         self.swarm.best_pos, self.swarm.best_cost = np.array([]), np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
diff --git a/pyswarms/single/local_best.py b/pyswarms/single/local_best.py
index bec2e51..5f72360 100644
--- a/pyswarms/single/local_best.py
+++ b/pyswarms/single/local_best.py
@@ -225,6 +225,7 @@ class LocalBestPSO(SwarmOptimizer):
         # Setup Pool of processes for parallel evaluation
         pool = None if n_processes is None else mp.Pool(n_processes)
 
+        self.swarm.pbest_pos = self.swarm.position
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
         self.swarm.best_pos, self.swarm.best_cost = np.array([]), np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
-- 
2.43.0


From 6ae09d08a869e906a522d3e10eb99ca583be1a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 21/25] fix: refuse bounds and clamps that do not fit a swarm
 of one dimension

---
 pyswarms/backend/generators.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyswarms/backend/generators.py b/pyswarms/backend/generators.py
index 151bc42..a99f405 100644
--- a/pyswarms/backend/generators.py
+++ b/pyswarms/backend/generators.py
@@ -66,9 +66,10 @@ def generate_swarm(
         if (init_pos is not None) and (bounds is None):
             pos = init_pos
         elif (init_pos is not None) and (bounds is not None):
-            if not (
-                np.all(bounds[0] <= init_pos) and np.all(init_pos <= bounds[1])
-            ):
+            lb, ub = (
+                np.broadcast_to(b, (n_particles, dimensions)) for b in bounds
+            )
+            if not (np.all(lb <= init_pos) and np.all(init_pos <= ub)):
                 raise ValueError("User-defined init_pos is out of bounds.")
             pos = init_pos
         elif (init_pos is None) and (bounds is None):
@@ -178,7 +179,10 @@ def generate_velocity(n_particles, dimensions, clamp=None):
         velocity matrix of shape (n_particles, dimensions)
     """
     try:
-        min_velocity, max_velocity = (0, 1) if clamp is None else clamp
+        min_velocity, max_velocity = (
+            np.broadcast_to(v, (n_particles, dimensions))
+            for v in ((0, 1) if clamp is None else clamp)
+        )
         velocity = (max_velocity - min_velocity) * np.random.random_sample(
             size=(n_particles, dimensions)
         ) + min_velocity
-- 
2.43.0


From 16540e381987275a5649250441a8500546b52dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:45 +0000
Subject: [PATCH 22/25] fix: reject a decorated cost function that returns no
 number

---
 pyswarms/utils/decorators/decorators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswarms/utils/decorators/decorators.py b/pyswarms/utils/decorators/decorators.py
index dcb2aec..523e581 100644
--- a/pyswarms/utils/decorators/decorators.py
+++ b/pyswarms/utils/decorators/decorators.py
@@ -1,6 +1,7 @@
 # Import modules
 import numpy as np
 from functools import wraps
+from numbers import Number
 
 
 def cost(cost_func):
@@ -46,7 +47,9 @@ def cost(cost_func):
         vector = np.array(
             [cost_func(particles[i], **kwargs) for i in range(n_particles)]
         )
-        if vector.shape != (n_particles,):
+        if vector.shape != (n_particles,) or not all(
+            isinstance(c, (Number, np.bool_)) for c in vector
+        ):
             msg = "Cost function must return int or float. You passed: {}"
             cost_return_type = type(cost_func(particles[0], **kwargs))
             raise ValueError(msg.format(cost_return_type))
-- 
2.43.0


From c3dbaf900bff00d296b0b3279007aaca007f0c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 23/25] fix: workers of a parallel run could be left behind for
 ever

Nothing waited for the pool, so that the last reference to it could be
dropped by its own task thread, which then waited for a worker that
waited for that thread; when the objective raised the pool was not even
closed.
---
 pyswarms/discrete/binary.py          | 14 +++++++++++---
 pyswarms/single/general_optimizer.py | 10 +++++++++-
 pyswarms/single/global_best.py       | 10 +++++++++-
 pyswarms/single/local_best.py        | 14 +++++++++++---
 4 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index 5c72c24..5e2a462 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -194,9 +194,16 @@ class BinaryPSO(DiscreteSwarmOptimizer):
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
-            self.swarm.current_cost = compute_objective_function(
-                self.swarm, objective_func, pool, **kwargs
-            )
+            try:
+                self.swarm.current_cost = compute_objective_function(
+                    self.swarm, objective_func, pool, **kwargs
+                )
+            except BaseException:
+                # Leave no worker behind: there will not be another iteration
+                if pool is not None:
+                    pool.terminate()
+                    pool.join()
+                raise
             self.swarm.pbest_pos, self.swarm.pbest_cost = compute_pbest(
                 self.swarm
             )
@@ -248,6 +255,7 @@ class BinaryPSO(DiscreteSwarmOptimizer):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
 
         return (final_best_cost, final_best_pos)
 
diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index 9d56ecd..f5ebbcf 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -246,7 +246,14 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
             # fmt: off
-            self.swarm.current_cost = compute_objective_function(self.swarm, objective_func, pool=pool, **kwargs)
+            try:
+                self.swarm.current_cost = compute_objective_function(self.swarm, objective_func, pool=pool, **kwargs)
+            except BaseException:
+                # Leave no worker behind: there will not be another iteration
+                if pool is not None:
+                    pool.terminate()
+                    pool.join()
+                raise
             self.swarm.pbest_pos, self.swarm.pbest_cost = compute_pbest(self.swarm)
             best_cost_yet_found = self.swarm.best_cost
             # fmt: on
@@ -303,4 +310,5 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
         return (final_best_cost, final_best_pos)
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index 7515c06..ec4f890 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -208,7 +208,14 @@ class GlobalBestPSO(SwarmOptimizer):
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
             # fmt: off
-            self.swarm.current_cost = compute_objective_function(self.swarm, objective_func, pool=pool, **kwargs)
+            try:
+                self.swarm.current_cost = compute_objective_function(self.swarm, objective_func, pool=pool, **kwargs)
+            except BaseException:
+                # Leave no worker behind: there will not be another iteration
+                if pool is not None:
+                    pool.terminate()
+                    pool.join()
+                raise
             self.swarm.pbest_pos, self.swarm.pbest_cost = compute_pbest(self.swarm)
             # Set best_cost_yet_found for ftol
             best_cost_yet_found = self.swarm.best_cost
@@ -263,4 +270,5 @@ class GlobalBestPSO(SwarmOptimizer):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
         return (final_best_cost, final_best_pos)
diff --git a/pyswarms/single/local_best.py b/pyswarms/single/local_best.py
index 5f72360..b668ec2 100644
--- a/pyswarms/single/local_best.py
+++ b/pyswarms/single/local_best.py
@@ -231,9 +231,16 @@ class LocalBestPSO(SwarmOptimizer):
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
-            self.swarm.current_cost = compute_objective_function(
-                self.swarm, objective_func, pool=pool, **kwargs
-            )
+            try:
+                self.swarm.current_cost = compute_objective_function(
+                    self.swarm, objective_func, pool=pool, **kwargs
+                )
+            except BaseException:
+                # Leave no worker behind: there will not be another iteration
+                if pool is not None:
+                    pool.terminate()
+                    pool.join()
+                raise
             self.swarm.pbest_pos, self.swarm.pbest_cost = compute_pbest(
                 self.swarm
             )
@@ -291,4 +298,5 @@ class LocalBestPSO(SwarmOptimizer):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
         return (final_best_cost, final_best_pos)
-- 
2.43.0


From 3f6972113a43771fee1e50bcf699fd596e099e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 24/25] fix: workers of a parallel plot could be left behind
 for ever

Nothing waited for the pool, so that the last reference to it could be
dropped by its own task thread, as in the optimizers.
---
 pyswarms/utils/plotters/formatters.py | 1 +
 pyswarms/utils/plotters/plotters.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pyswarms/utils/plotters/formatters.py b/pyswarms/utils/plotters/formatters.py
index 38a35e7..6c973a5 100644
--- a/pyswarms/utils/plotters/formatters.py
+++ b/pyswarms/utils/plotters/formatters.py
@@ -208,5 +208,6 @@ class Mesher(object):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
 
         return np.dstack((pos_history, fitness))
diff --git a/pyswarms/utils/plotters/plotters.py b/pyswarms/utils/plotters/plotters.py
index a8bf069..79837c7 100644
--- a/pyswarms/utils/plotters/plotters.py
+++ b/pyswarms/utils/plotters/plotters.py
@@ -428,6 +428,7 @@ def _mesh(mesher, n_processes=None):
     # Close Pool of Processes
     if n_processes is not None:
         pool.close()
+        pool.join()
 
     zz = z.reshape(xx.shape)
     return (xx, yy, zz)
-- 
2.43.0


From 128fb51b01adc19cd38d9ca214836db806a727b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 25/25] fix: StopIteration of a parallel objective was lost

---
 pyswarms/backend/operators.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyswarms/backend/operators.py b/pyswarms/backend/operators.py
index 6c352e9..8b18b7d 100644
--- a/pyswarms/backend/operators.py
+++ b/pyswarms/backend/operators.py
@@ -238,8 +238,9 @@ def compute_objective_function(swarm, objective_func, pool=None, **kwargs):
     if pool is None:
         return objective_func(swarm.position, **kwargs)
     else:
-        results = pool.map(
-            partial(objective_func, **kwargs),
-            np.array_split(swarm.position, pool._processes),
-        )
-        return np.concatenate(results)
+        # Not map(): a StopIteration of the objective would end it silently
+        tasks = [
+            pool.apply_async(partial(objective_func, **kwargs), (part,))
+            for part in np.array_split(swarm.position, pool._processes)
+        ]
+        return np.concatenate([task.get() for task in tasks])
-- 
2.43.0

