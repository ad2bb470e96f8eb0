From 071e5fd6f258e604dbfea9142ce87d2e622106e4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:34 +0000
Subject: [PATCH 01/17] fix: particles on the first row or column left the
 domain

The window looked at for an edge cell started at index -1 there, which
numpy takes from the far end: the edge was missed and the particle walked
to negative indices.
---
 dorado/lagrangian_walker.py | 5 +++--
 dorado/particle_track.py    | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 5dd6cce..d0e7d2e 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -398,8 +398,9 @@ def check_for_boundary(new_inds, current_inds, cell_type):
     # If so, then stop moving particle
     for i in range(0, len(new_inds)):
         # If particle borders an edge, cancel out any additional steps
-        if -1 in cell_type[current_inds[i][0]-1:current_inds[i][0]+2,
-                           current_inds[i][1]-1:current_inds[i][1]+2]:
+        # (a negative slice start would wrap around, and miss the edge)
+        if -1 in cell_type[max(current_inds[i][0]-1, 0):current_inds[i][0]+2,
+                           max(current_inds[i][1]-1, 0):current_inds[i][1]+2]:
             new_inds[i][0] = current_inds[i][0]
             new_inds[i][1] = current_inds[i][1]
 
diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 00ec552..76b6488 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -735,9 +735,9 @@ class Particles():
                 _iter_particles = []
 
                 # Only iterate if this particle isn't already at a boundary:
-                if -1 not in self.cell_type[all_xinds[ii][-1]-1:
+                if -1 not in self.cell_type[max(all_xinds[ii][-1]-1, 0):
                                             all_xinds[ii][-1]+2,
-                                            all_yinds[ii][-1]-1:
+                                            max(all_yinds[ii][-1]-1, 0):
                                             all_yinds[ii][-1]+2]:
                     # Loop until |target time - current time| <
                     #            |target time - estimated next time|
-- 
2.43.0


From 459530a16c2669882ef7d4d8af5b151ff95d1ebf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:34 +0000
Subject: [PATCH 02/17] fix: particles with no weighted neighbor moved to the
 northwest cell

With all weights zero (a domain border cell, or under steepest descent a
cell deeper than its neighbors) the draw always gave index 0. Such a
particle now stays where it is.
---
 dorado/lagrangian_walker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index d0e7d2e..d82d76b 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -427,6 +427,8 @@ def random_pick(probs):
     """
     probs[np.isnan(probs)] = 0  # any nans are assigned as 0
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
+    if cutoffs[-1] <= 0:
+        return 4  # nowhere to go, stay in place
     # randomly pick indices from cutoffs based on uniform distribution
     idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
 
@@ -458,6 +460,8 @@ def steep_descent(probs):
     probs[probs < max_val] = 0
     # any nans become ignored too
     probs[np.isnan(probs)] = 0
+    if not np.any(probs > 0):
+        return 4  # nowhere to go, stay in place
 
     # will pick either the index corresponding to the max value if there
     # is just 1, or it will randomly choose between values in the event
-- 
2.43.0


From 441139890c886902cc9bbcbb4f494daa69aca42d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:34 +0000
Subject: [PATCH 03/17] fix: dead ends routed particles into cells marked as
 land

The deepest-cell fallback ignored the cell types.
---
 dorado/lagrangian_walker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index d82d76b..3091344 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -209,7 +209,11 @@ def make_weight(Particles):
 
     # if it's a dead end with only nans and 0's, choose deepest cell
     zero_weights = tile_domain_array((np.nansum(weight, axis=2) <= 0))
-    deepest_cells = (depth_ind == tile_domain_array(np.max(depth_ind,axis=2)))
+    # (land is not a candidate, unless there is nothing else)
+    not_land = (ct_ind != 2)
+    not_land |= tile_domain_array(~np.any(not_land, axis=2))
+    depth_open = np.where(not_land, depth_ind, -np.inf)
+    deepest_cells = (depth_open == tile_domain_array(np.max(depth_open,axis=2)))
     choose_deep_cells = (zero_weights & deepest_cells)
     weight[choose_deep_cells] = 1.0
 
-- 
2.43.0


From f9c149c86154fc67b6d451b4b154022012196ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:34 +0000
Subject: [PATCH 04/17] fix: creating Particles changed the velocities in the
 user's params

A second Particles made from the same params took the 1e-8 floor written
into params.u / params.v for actual flow, and still water got weights.
---
 dorado/particle_track.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 76b6488..c97162b 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -256,8 +256,9 @@ class Particles():
         self.velocity = np.sqrt(self.u**2+self.v**2)
         # cannot have 0/nans - leads to infinite/nantravel times
         self.velocity[self.velocity < 1e-8] = 1e-8
-        self.u[np.abs(self.u) < 1e-8] = 1e-8
-        self.v[np.abs(self.v) < 1e-8] = 1e-8
+        # (not in place, these can be the arrays in params)
+        self.u = np.where(np.abs(self.u) < 1e-8, 1e-8, self.u)
+        self.v = np.where(np.abs(self.v) < 1e-8, 1e-8, self.v)
         # Compute velocity orientation at each cell
         self.velocity_angle = np.arctan2(-1.0*self.u, self.v)
 
-- 
2.43.0


From 24a2802048958be0bb24ebf29b4ee2b8b3b248ca Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:34 +0000
Subject: [PATCH 05/17] fix: 'roi_flag' was appended to the particle_variables
 list of params

A later Particles made from these params without roi_grid failed to
generate particles.
---
 dorado/particle_track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index c97162b..220a99a 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -430,7 +430,7 @@ class Particles():
 
         # Read optional variables from params
         if getattr(params, 'particle_variables', None) is not None:
-            self.particle_variables = params.particle_variables
+            self.particle_variables = list(params.particle_variables)
         else:
             self.particle_variables = []
 
-- 
2.43.0


From 7de6e059f012916eea23f77d2bbb226b838715e3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:34 +0000
Subject: [PATCH 06/17] fix: the max_iter warning only ever reported the last
 particle

The list was reset for each particle, and undefined with no particles.
---
 dorado/particle_track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 220a99a..ff56950 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -723,6 +723,9 @@ class Particles():
         else:
             # If we ARE aiming for a specific time
             # iterate each particle until we get there
+            # init list for too many particle iterations
+            _iter_particles = []
+
             # Loop through all particles
             for ii in list(range(self.Np_tracer)):
                 if len(all_times[ii]) > 1:
@@ -732,9 +735,6 @@ class Particles():
                     est_next_dt = 0.1
                 count = 1
 
-                # init list for too many particle iterations
-                _iter_particles = []
-
                 # Only iterate if this particle isn't already at a boundary:
                 if -1 not in self.cell_type[max(all_xinds[ii][-1]-1, 0):
                                             all_xinds[ii][-1]+2,
-- 
2.43.0


From da11100b75311849102ffa006acc893f4616c290 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:34 +0000
Subject: [PATCH 07/17] fix: particles past target_time moved on if their last
 step took no time

The first estimate of the time step lacked the lower limit the later ones
have.
---
 dorado/particle_track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index ff56950..4d98102 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -729,7 +729,8 @@ class Particles():
             # Loop through all particles
             for ii in list(range(self.Np_tracer)):
                 if len(all_times[ii]) > 1:
-                    est_next_dt = all_times[ii][-1] - all_times[ii][-2]
+                    est_next_dt = max(0.1, all_times[ii][-1] -
+                                      all_times[ii][-2])
                 else:
                     # Initialize a guess for the next iteration's timestep
                     est_next_dt = 0.1
-- 
2.43.0


From 35f2debb96f9ecdec45930bad3e08621cb8bc5cd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:34 +0000
Subject: [PATCH 08/17] fix: parallel_routing routed the same particles on
 every core

Forked processes share the random state of their parent.
---
 dorado/parallel_routing.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dorado/parallel_routing.py b/dorado/parallel_routing.py
index 38aee2a..16dc6a3 100644
--- a/dorado/parallel_routing.py
+++ b/dorado/parallel_routing.py
@@ -12,6 +12,7 @@ import sys
 import os
 import re
 import string
+import copy
 from multiprocessing import Pool
 
 
@@ -37,6 +38,10 @@ def run_iter(pobj):
             any optional variables, with details same as input previous_walk_data
 
     """
+    # each process needs its own random numbers
+    if getattr(pobj, 'seed', None) is not None:
+        np.random.seed(pobj.seed)
+
     pobj.particles.generate_particles(pobj.Np_tracer, pobj.seed_xloc,
                                       pobj.seed_yloc)
     # do iterations
@@ -138,7 +143,11 @@ def parallel_routing(particles, num_iter, Np_tracer, seed_xloc, seed_yloc,
     pobj.seed_yloc = seed_yloc
 
     # define list to pass to actual function that will be mapped to in parallel
-    p_list = [pobj] * num_cores
+    # (forked processes inherit the same random state, so seed them apart)
+    p_list = []
+    for seed in np.random.randint(0, 2**31 - 1, size=(num_cores, 4)):
+        p_list.append(copy.copy(pobj))
+        p_list[-1].seed = seed
 
     # create the parallel pool and run the process
     p = Pool(processes=num_cores)
-- 
2.43.0


From 37542f6ab548a93ced81bcdf0f915bdd7cc3fe4c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:34 +0000
Subject: [PATCH 09/17] fix: flux_proportional_seeding failed for a column of
 discharges

---
 dorado/particle_track.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 4d98102..cfa1e6c 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1387,8 +1387,9 @@ def flux_proportional_seeding(Q,
     N_remaining = N_total - N_int.sum()
 
     if N_remaining > 0:
-        add_idx = np.argsort(remainders)[-N_remaining:]
-        N_int[add_idx] += 1
+        # (flat, as Q can be a column)
+        add_idx = np.argsort(remainders, axis=None)[-N_remaining:]
+        N_int.flat[add_idx] += 1
 
     # Final check
     assert N_int.sum() == N_total, "Particle rounding failed!"
-- 
2.43.0


From 545ac10269162de565c192339a8c56e3ba22123b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:34 +0000
Subject: [PATCH 10/17] fix: plotting routines failed with, or without, extra
 particle variables

get_state() returns 4 values if walk_data has optional variables, else 3;
plot_exposure_time() needed the former and all others the latter.
---
 dorado/routines.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index 1de0eaa..ae2b71e 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -84,10 +84,10 @@ def steady_plots(particle, num_iter,
         walk_data = particle.run_iteration()
         if save_output:
             # Get current location
-            xi, yi, ti = get_state(walk_data)
+            xi, yi, ti = get_state(walk_data)[:3]
             if i == 0:
                 # Initialize figure
-                x0, y0, t0 = get_state(walk_data, 0)
+                x0, y0, t0 = get_state(walk_data, 0)[:3]
                 fig = plt.figure(dpi=200)
                 ax = fig.add_subplot(111)
                 im = ax.imshow(particle.depth)
@@ -259,9 +259,9 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
 
         walk_data = particle.run_iteration(target_time=target_times[i])
 
-        xi, yi, ti = get_state(walk_data)
+        xi, yi, ti = get_state(walk_data)[:3]
         if i == 0:
-            x0, y0, t0 = get_state(walk_data, 0)
+            x0, y0, t0 = get_state(walk_data, 0)[:3]
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = fig.add_subplot(111)
@@ -346,10 +346,10 @@ def time_plots(particle, num_iter, folder_name=None, verbose=None):
         walk_data = particle.run_iteration()
 
         # collect latest travel times
-        xi, yi, temptimes = get_state(walk_data)
+        xi, yi, temptimes = get_state(walk_data)[:3]
 
         if i == 0:
-            x0, y0, t0 = get_state(walk_data, 0)
+            x0, y0, t0 = get_state(walk_data, 0)[:3]
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = plt.gca()
@@ -614,7 +614,7 @@ def plot_exposure_time(walk_data,
     # Initialize arrays to record exposure time of each particle
     Np_tracer = len(walk_data['xinds'])  # Number of particles
     # Record final travel times
-    x, y, end_time, optional_state = get_state(walk_data)
+    x, y, end_time = get_state(walk_data)[:3]
 
     # Handle the timedelta
     if timedelta == 1:
@@ -818,7 +818,7 @@ def plot_exposure_time_thresholds(walk_data,
     """
 
     Np_tracer = len(walk_data['xinds'])
-    x, y, end_time = get_state(walk_data)
+    x, y, end_time = get_state(walk_data)[:3]
 
     if timedelta == 1:
         timeunit = '[s]'
@@ -1087,9 +1087,9 @@ def plot_state(grid, walk_data, iteration=-1, target_time=None, c='b'):
 
     """
     if target_time is None:
-        x, y, t = get_state(walk_data, int(iteration))
+        x, y, t = get_state(walk_data, int(iteration))[:3]
     else:
-        x, y, t = get_time_state(walk_data, target_time)
+        x, y, t = get_time_state(walk_data, target_time)[:3]
     ax = plt.gca()
     ax.imshow(grid)
     plt.scatter(y, x, c=c)
-- 
2.43.0


From f8510b6e0a1c3bbc6ea7e35b9850c09c0286bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:38:35 +0000
Subject: [PATCH 11/17] fix: random_pick_seed failed when given an array of
 probabilities

---
 dorado/lagrangian_walker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 3091344..ae6cf6a 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -30,7 +30,7 @@ def random_pick_seed(choices, probs=None):
 
     """
     # randomly pick tracer drop cell to use given a list of potential spots
-    if not probs:
+    if probs is None:
         probs = np.array([1 for i in list(range(len(choices)))])
     # find the corresp. index value from input 'choices' list of indices
     cutoffs = np.cumsum(probs)
-- 
2.43.0


From a9e1b26b71475e3a6d826040624690eab5d814c6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:39:22 +0000
Subject: [PATCH 12/17] fix: plot_exposure_time_thresholds failed if a
 threshold was not reached

An IndexError when less than 90% of the particles left the region.
---
 dorado/routines.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index ae2b71e..798d2df 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -872,18 +872,14 @@ def plot_exposure_time_thresholds(walk_data,
     ax1.set_ylim([0, 1])
 
     # Percentile markers
-    E50_idx = np.searchsorted(smooth_CDF, 0.50)
-    E75_idx = np.searchsorted(smooth_CDF, 0.75)
-    E90_idx = np.searchsorted(smooth_CDF, 0.90)
-
-    E50_time = int(smooth_time_vect[E50_idx] / timedelta)
-    E75_time = int(smooth_time_vect[E75_idx] / timedelta)
-    E90_time = int(smooth_time_vect[E90_idx] / timedelta)
-
     handle_verbose_deprecation(verbose)
-    logger.info(f'E50: {E50_time} {timeunit}')
-    logger.info(f'E75: {E75_time} {timeunit}')
-    logger.info(f'E90: {E90_time} {timeunit}')
+    for name, level in (('E50', 0.50), ('E75', 0.75), ('E90', 0.90)):
+        idx = np.searchsorted(smooth_CDF, level)
+        if idx < len(smooth_CDF):
+            etime = int(smooth_time_vect[idx] / timedelta)
+            logger.info(f'{name}: {etime} {timeunit}')
+        else:
+            logger.info(f'{name}: not reached (max F={smooth_CDF[-1]:.3f})')
 
     for yval in [0.5, 0.75, 0.90]:
         ax1.axhline(y=yval, color='gray', linestyle='--', linewidth=0.75)
-- 
2.43.0


From 6b0282e18a21ea8d6c1ade204079acd34fd50249 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:39:22 +0000
Subject: [PATCH 13/17] fix: walk data with a float32 variable could not be
 saved

The values of extra particle variables have the type of their grid, which
json does not know.
---
 dorado/routines.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index 798d2df..e4d9e83 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -110,7 +110,7 @@ def steady_plots(particle, num_iter,
     if save_output:
         # save data as json text file - technically human readable
         fpath = folder_name+os.sep+'data'+os.sep+'data.txt'
-        json.dump(walk_data, open(fpath, 'w'))
+        json.dump(walk_data, open(fpath, 'w'), default=float)
 
         # example code to load the dictionary back from the output json file
         # data = json.load(open('data.txt'))
@@ -286,7 +286,7 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
 
     # save data as a json text file - technically human readable
     fpath = folder_name+os.sep+'data'+os.sep+'data.txt'
-    json.dump(walk_data, open(fpath, 'w'))
+    json.dump(walk_data, open(fpath, 'w'), default=float)
 
     # example code for loading the dict back from the output json file:
     # data = json.load(open('data.txt'))
@@ -379,7 +379,7 @@ def time_plots(particle, num_iter, folder_name=None, verbose=None):
 
     # save data as a json text file - technically human readable
     fpath = folder_name+os.sep+'data'+os.sep+'data.txt'
-    json.dump(walk_data, open(fpath, 'w'))
+    json.dump(walk_data, open(fpath, 'w'), default=float)
 
     # example code for loading the dict back from the output json file:
     # data = json.load(open('data.txt'))
-- 
2.43.0


From 94f47aa1f7bdd3121e1871c5aef74eb301c1f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:39:22 +0000
Subject: [PATCH 14/17] fix: previous walk data without the extra variables
 could not be continued

The lists of these variables held fewer particles than the others.
---
 dorado/particle_track.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index cfa1e6c..00f3f78 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -589,7 +589,9 @@ class Particles():
             for var, new_var_list in optional_start_vars.items():
                 if var in self.walk_data:
                     internal_var = self.walk_data[var]
-                    optional_start_vars[var] = internal_var + new_var_list
+                else:  # values unknown, but stay aligned with the particles
+                    internal_var = [[None]*len(x) for x in internal_xinds]
+                optional_start_vars[var] = internal_var + new_var_list
 
         if previous_walk_data is not None:
             # If the generator has been run before, or if new
@@ -609,7 +611,9 @@ class Particles():
             for var, new_var_list in optional_start_vars.items():
                 if var in previous_walk_data:
                     prev_var = previous_walk_data[var]
-                    optional_start_vars[var] = prev_var + new_var_list
+                else:  # values unknown, but stay aligned with the particles
+                    prev_var = [[None]*len(x) for x in prev_xinds]
+                optional_start_vars[var] = prev_var + new_var_list
 
         # determine the new total number of particles we have now
         self.Np_tracer = len(start_xindices)
-- 
2.43.0


From e8327256f6688ca4abb694e9ab69130d1f9d1980 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:39:22 +0000
Subject: [PATCH 15/17] fix: setup_logging ignored a custom handler once
 logging was set up

---
 dorado/logging_config.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dorado/logging_config.py b/dorado/logging_config.py
index 37df7c6..ad0572c 100644
--- a/dorado/logging_config.py
+++ b/dorado/logging_config.py
@@ -46,7 +46,11 @@ def setup_logging(level="WARNING", handler=None):
             f"Invalid logging level: {level}. Must be one of DEBUG, INFO, WARNING, ERROR, CRITICAL"
         )
     logger.setLevel(numeric_level)
-    if not logger.handlers:
+    if handler is not None:
+        add_handler = handler not in logger.handlers
+    else:
+        add_handler = not logger.handlers
+    if add_handler:
         h = handler or logging.StreamHandler()
         h.setFormatter(
             logging.Formatter("%(name)s - %(levelname)s - %(message)s")
-- 
2.43.0


From b6a39e0ecee1993d3b5c237f9ea8188344cab181 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:43:44 +0000
Subject: [PATCH 16/17] fix: unstruct2grid crop removed all-NaN rows and
 columns inside the grid

---
 dorado/particle_track.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 00f3f78..daaeedd 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1289,6 +1289,11 @@ def unstruct2grid(coordinates,
         path = matplotlib.path.Path(boundary)
         outside = ~path.contains_points(gridXY_array)
 
+    # Function to find what is left without the border (keeps any gaps inside)
+    def inside_span(not_empty):
+        return (np.logical_or.accumulate(not_empty) &
+                np.logical_or.accumulate(not_empty[::-1])[::-1])
+
     # Create Interpolation function
     if k_nearest_neighbors == 1:  # Only use nearest neighbor
         index_qFun = interpolate.NearestNDInterpolator(inputXY,
@@ -1306,8 +1311,8 @@ def unstruct2grid(coordinates,
             gridded_data = np.flipud(gridded_data)
             if boundary is not None and crop is True:
                 mask = ~np.isnan(gridded_data) # Delete all-nan border
-                gridded_data = gridded_data[np.ix_(mask.any(1),
-                                                   mask.any(0))]
+                gridded_data = gridded_data[np.ix_(inside_span(mask.any(1)),
+                                                   inside_span(mask.any(0)))]
             return gridded_data
     else:
         # Inverse-distance interpolation
@@ -1332,8 +1337,8 @@ def unstruct2grid(coordinates,
             gridded_data = np.flipud(gridded_data)
             if boundary is not None and crop is True:
                 mask = ~np.isnan(gridded_data) # Delete all-nan border
-                gridded_data = gridded_data[np.ix_(mask.any(1),
-                                                   mask.any(0))]
+                gridded_data = gridded_data[np.ix_(inside_span(mask.any(1)),
+                                                   inside_span(mask.any(0)))]
             return gridded_data
 
     # Finally, call the interpolation function to create array:
-- 
2.43.0


From f96bbbb9b5dd34a7e7c427717f784b121aadf08d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:33:50 +0000
Subject: [PATCH 17/17] fix: plot_spatial returned no axes

---
 dorado/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dorado/spatial.py b/dorado/spatial.py
index cd5d69b..5c6987d 100644
--- a/dorado/spatial.py
+++ b/dorado/spatial.py
@@ -342,6 +342,7 @@ def plot_spatial(exposure_maps,
         ax.tick_params(axis='both', which='both', labelsize=8)
         ax.set_xticks([])
         ax.set_yticks([])
+        axes.append(ax)
 
     cax = fig.add_axes([0.149, 0.13, 0.7525, 0.04])
     cbar = fig.colorbar(plt.cm.ScalarMappable(norm=norm, cmap=cmap),
-- 
2.43.0

