From 065bfbbcd635e18a1d34de3f39d3865dd6ad0ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 01/30] fix: report of an initial control component given as
 integer

With Settings.j0 set (needed for j_fixed) and log > 1 the run stopped with a
TypeError (int + str) while printing the table of analysis parameters.
---
 src/trusspy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 01f41a2..31142d4 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -238,7 +238,7 @@ Dutzler Andreas, Graz University of Technology, 2023
             )
             print(
                 "|Initial control component            |     `j0`|",
-                "LPF|" if self.Settings.j0 == None else self.Settings.j0 + "|",
+                "LPF|" if self.Settings.j0 is None else str(self.Settings.j0) + "|",
             )
             print(
                 "|Locked control component             |`j_fixed`|",
-- 
2.43.0


From f971fad5d49f71a9cee31bfb5601a7aebc9aa995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 02/30] fix: keep fractional element properties when the first
 ones given are integers

The property tables took the integer type of the first element's lists, so a
later assign_material/assign_geometry/assign_geometries with fractional values
was silently truncated (an area of 0.5 became 0).
---
 src/trusspy/handlers/handler_element.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 273dd38..ce97a1b 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -85,8 +85,10 @@ class ElementHandler:
             self.elem_type = np.array([E.elem_type])
             self.mat_type = np.array([E.mat_type])
             self.conns = np.array([E.conn])
-            self.material_properties = np.array([E.material_properties])
-            self.geometric_properties = np.array([E.geometric_properties])
+            self.material_properties = np.array([E.material_properties], dtype=float)
+            self.geometric_properties = np.array(
+                [E.geometric_properties], dtype=float
+            )
         else:
             self.labels = np.append(self.labels, E.label)
             self.conns = np.vstack((self.conns, E.conn))
-- 
2.43.0


From 39857fd13a3e4d888945ebc45585849475c9919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 03/30] fix: del_element also deletes the element and material
 type

The type rows of a deleted element stayed, so all later elements got the
material type of their predecessor.
---
 src/trusspy/handlers/handler_element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index ce97a1b..e747463 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -105,6 +105,8 @@ class ElementHandler:
         idx = np.where(self.labels == label)[0]
         self.labels = np.delete(self.labels, idx, axis=0)
         self.conns = np.delete(self.conns, idx, axis=0)
+        self.elem_type = np.delete(self.elem_type, idx, axis=0)
+        self.mat_type = np.delete(self.mat_type, idx, axis=0)
         self.material_properties = np.delete(self.material_properties, idx, axis=0)
         self.geometric_properties = np.delete(self.geometric_properties, idx, axis=0)
 
-- 
2.43.0


From 30dca964183076cd8451bb38e25911f0ed46e739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 04/30] fix: a definition call that fails leaves the handlers
 unchanged

add_* and del_* updated their parallel arrays one after the other, so a call
that failed half way (unusable data, out of memory) left a label without data
and the repeated, corrected call produced a torn model.
---
 src/trusspy/handlers/handler_boundary.py | 16 +++++---
 src/trusspy/handlers/handler_element.py  | 49 ++++++++++++++----------
 src/trusspy/handlers/handler_extforce.py | 16 +++++---
 src/trusspy/handlers/handler_node.py     | 16 +++++---
 4 files changed, 59 insertions(+), 38 deletions(-)

diff --git a/src/trusspy/handlers/handler_boundary.py b/src/trusspy/handlers/handler_boundary.py
index 9f27858..714f559 100644
--- a/src/trusspy/handlers/handler_boundary.py
+++ b/src/trusspy/handlers/handler_boundary.py
@@ -40,17 +40,21 @@ class BoundaryHandler:
             B = BoundaryU(B, *args, **kwargs)
 
         if self.Unodes is None:
-            self.Unodes = np.array([B.node])
-            self.Uvalues = np.array(B.values)
+            Unodes = np.array([B.node])
+            Uvalues = np.array(B.values)
         else:
-            self.Unodes = np.append(self.Unodes, B.node)
-            self.Uvalues = np.vstack((self.Uvalues, B.values))
+            Unodes = np.append(self.Unodes, B.node)
+            Uvalues = np.vstack((self.Uvalues, B.values))
+
+        # update only after everything succeeded
+        self.Unodes, self.Uvalues = Unodes, Uvalues
 
     def del_bound_U(self, label):
         """delete boundary U by label"""
         idx = np.where(self.Unodes == label)[0]
-        self.Unodes = np.delete(self.Unodes, idx, axis=0)
-        self.Uvalues = np.delete(self.Uvalues, idx, axis=0)
+        Unodes = np.delete(self.Unodes, idx, axis=0)
+        Uvalues = np.delete(self.Uvalues, idx, axis=0)
+        self.Unodes, self.Uvalues = Unodes, Uvalues
 
     def add_bounds_U(self, BB):
         """add list of displacement boundaries"""
diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index e747463..1753e29 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -81,34 +81,43 @@ class ElementHandler:
             E = Element(E, *args, **kwargs)
 
         if self.labels is None:
-            self.labels = np.array([E.label])
-            self.elem_type = np.array([E.elem_type])
-            self.mat_type = np.array([E.mat_type])
-            self.conns = np.array([E.conn])
-            self.material_properties = np.array([E.material_properties], dtype=float)
-            self.geometric_properties = np.array(
-                [E.geometric_properties], dtype=float
-            )
+            labels = np.array([E.label])
+            elem_type = np.array([E.elem_type])
+            mat_type = np.array([E.mat_type])
+            conns = np.array([E.conn])
+            material_properties = np.array([E.material_properties], dtype=float)
+            geometric_properties = np.array([E.geometric_properties], dtype=float)
         else:
-            self.labels = np.append(self.labels, E.label)
-            self.conns = np.vstack((self.conns, E.conn))
-            self.elem_type = np.append(self.elem_type, E.elem_type)
-            self.mat_type = np.append(self.mat_type, E.mat_type)
-            self.material_properties = np.vstack(
+            labels = np.append(self.labels, E.label)
+            conns = np.vstack((self.conns, E.conn))
+            elem_type = np.append(self.elem_type, E.elem_type)
+            mat_type = np.append(self.mat_type, E.mat_type)
+            material_properties = np.vstack(
                 (self.material_properties, E.material_properties)
             )
-            self.geometric_properties = np.vstack(
+            geometric_properties = np.vstack(
                 (self.geometric_properties, E.geometric_properties)
             )
 
+        # update only after everything succeeded
+        self.labels, self.conns = labels, conns
+        self.elem_type, self.mat_type = elem_type, mat_type
+        self.material_properties = material_properties
+        self.geometric_properties = geometric_properties
+
     def del_element(self, label):
         idx = np.where(self.labels == label)[0]
-        self.labels = np.delete(self.labels, idx, axis=0)
-        self.conns = np.delete(self.conns, idx, axis=0)
-        self.elem_type = np.delete(self.elem_type, idx, axis=0)
-        self.mat_type = np.delete(self.mat_type, idx, axis=0)
-        self.material_properties = np.delete(self.material_properties, idx, axis=0)
-        self.geometric_properties = np.delete(self.geometric_properties, idx, axis=0)
+        labels = np.delete(self.labels, idx, axis=0)
+        conns = np.delete(self.conns, idx, axis=0)
+        elem_type = np.delete(self.elem_type, idx, axis=0)
+        mat_type = np.delete(self.mat_type, idx, axis=0)
+        material_properties = np.delete(self.material_properties, idx, axis=0)
+        geometric_properties = np.delete(self.geometric_properties, idx, axis=0)
+
+        self.labels, self.conns = labels, conns
+        self.elem_type, self.mat_type = elem_type, mat_type
+        self.material_properties = material_properties
+        self.geometric_properties = geometric_properties
 
     def add_elements(self, EE):
         "add several elements from element list to ElementManager"
diff --git a/src/trusspy/handlers/handler_extforce.py b/src/trusspy/handlers/handler_extforce.py
index 7e703ab..c906b85 100644
--- a/src/trusspy/handlers/handler_extforce.py
+++ b/src/trusspy/handlers/handler_extforce.py
@@ -28,16 +28,20 @@ class ExternalForceHandler:
             F = ExternalForce(F, *args, **kwargs)
 
         if self.nodes is None:
-            self.nodes = np.array([F.node])
-            self.forces = np.array([F.force])
+            nodes = np.array([F.node])
+            forces = np.array([F.force])
         else:
-            self.nodes = np.append(self.nodes, F.node)
-            self.forces = np.vstack((self.forces, F.force))
+            nodes = np.append(self.nodes, F.node)
+            forces = np.vstack((self.forces, F.force))
+
+        # update only after everything succeeded
+        self.nodes, self.forces = nodes, forces
 
     def del_force(self, label):
         idx = np.where(self.nodes == label)[0]
-        self.nodes = np.delete(self.nodes, idx, axis=0)
-        self.forces = np.delete(self.forces, idx, axis=0)
+        nodes = np.delete(self.nodes, idx, axis=0)
+        forces = np.delete(self.forces, idx, axis=0)
+        self.nodes, self.forces = nodes, forces
 
     def add_forces(self, FF):
         for F in FF:
diff --git a/src/trusspy/handlers/handler_node.py b/src/trusspy/handlers/handler_node.py
index eb8a6e0..8860e00 100644
--- a/src/trusspy/handlers/handler_node.py
+++ b/src/trusspy/handlers/handler_node.py
@@ -29,16 +29,20 @@ class NodeHandler:
             N = Node(N, *args, **kwargs)
 
         if self.labels is None:
-            self.labels = np.array([N.label])
-            self.coords = np.array([N.coord])
+            labels = np.array([N.label])
+            coords = np.array([N.coord])
         else:
-            self.labels = np.append(self.labels, N.label)
-            self.coords = np.vstack((self.coords, N.coord))
+            labels = np.append(self.labels, N.label)
+            coords = np.vstack((self.coords, N.coord))
+
+        # update only after everything succeeded
+        self.labels, self.coords = labels, coords
 
     def del_node(self, label):
         idx = np.where(self.labels == label)[0]
-        self.labels = np.delete(self.labels, idx, axis=0)
-        self.coords = np.delete(self.coords, idx, axis=0)
+        labels = np.delete(self.labels, idx, axis=0)
+        coords = np.delete(self.coords, idx, axis=0)
+        self.labels, self.coords = labels, coords
 
     def add_nodes(self, NN):
         for N in NN:
-- 
2.43.0


From 1f29f0a3a2a598bc1a4bbe76d24a4de0a3300f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 05/30] fix: delete the only displacement boundary

The table with a single boundary was one-dimensional, so deleting it removed
one component instead of the row and the next add_bound_U failed.
---
 src/trusspy/handlers/handler_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/handlers/handler_boundary.py b/src/trusspy/handlers/handler_boundary.py
index 714f559..9332688 100644
--- a/src/trusspy/handlers/handler_boundary.py
+++ b/src/trusspy/handlers/handler_boundary.py
@@ -41,7 +41,7 @@ class BoundaryHandler:
 
         if self.Unodes is None:
             Unodes = np.array([B.node])
-            Uvalues = np.array(B.values)
+            Uvalues = np.array([B.values])
         else:
             Unodes = np.append(self.Unodes, B.node)
             Uvalues = np.vstack((self.Uvalues, B.values))
-- 
2.43.0


From dee8bf0153b23da60ec127d05c84c9d56e120663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 06/30] fix: supports and loads can be added (and nodes
 deleted) after a build

build() adds default supports and zero loads for nodes without own ones. They
stayed as if the user had defined them: adding a load or support to such a node
after a build, or deleting the node, made the next build fail.
---
 src/trusspy/handlers/handler_boundary.py | 13 +++++++++++++
 src/trusspy/handlers/handler_extforce.py | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/trusspy/handlers/handler_boundary.py b/src/trusspy/handlers/handler_boundary.py
index 9332688..dbc0b7d 100644
--- a/src/trusspy/handlers/handler_boundary.py
+++ b/src/trusspy/handlers/handler_boundary.py
@@ -22,6 +22,9 @@ class BoundaryHandler:
         # 0=inactive (locked) DOF
         self.Uvalues = None
 
+        # nodes with a default (free) boundary, see `fix_bounds_U()`
+        self.Udefaults = set()
+
         # NOT IMPLEMENTED
         # Element based thermal boundary condition
         self.Telements = None
@@ -39,6 +42,10 @@ class BoundaryHandler:
         if "BoundaryU" not in str(type(B)):
             B = BoundaryU(B, *args, **kwargs)
 
+        # a user-defined boundary replaces the default one of the last build
+        if B.node in self.Udefaults:
+            self.del_bound_U(B.node)
+
         if self.Unodes is None:
             Unodes = np.array([B.node])
             Uvalues = np.array([B.values])
@@ -55,6 +62,7 @@ class BoundaryHandler:
         Unodes = np.delete(self.Unodes, idx, axis=0)
         Uvalues = np.delete(self.Uvalues, idx, axis=0)
         self.Unodes, self.Uvalues = Unodes, Uvalues
+        self.Udefaults.discard(label)
 
     def add_bounds_U(self, BB):
         """add list of displacement boundaries"""
@@ -62,6 +70,10 @@ class BoundaryHandler:
             self.add_bound_U(B)
 
     def fix_bounds_U(self, nodelist):
+        # remove default boundaries of nodes which don't exist anymore
+        for n in self.Udefaults.difference(nodelist):
+            self.del_bound_U(n)
+
         # check for undefined DOF --> set them all to free
 
         # are nodelist entries in Unodes?
@@ -70,6 +82,7 @@ class BoundaryHandler:
         for n in fix_nodes:
             B = BoundaryU(n, (1, 1, 1))
             self.add_bound_U(B)
+            self.Udefaults.add(n)
         indices = np.argsort(self.Unodes)
         self.Unodes = self.Unodes.take(indices)
         self.Uvalues = self.Uvalues.take(indices, axis=0)
diff --git a/src/trusspy/handlers/handler_extforce.py b/src/trusspy/handlers/handler_extforce.py
index c906b85..5f945d9 100644
--- a/src/trusspy/handlers/handler_extforce.py
+++ b/src/trusspy/handlers/handler_extforce.py
@@ -17,6 +17,9 @@ class ExternalForceHandler:
         self.nodes = None
         self.forces = None
 
+        # nodes with a default (zero) force, see `fix_forces()`
+        self.defaults = set()
+
     def __enter__(self):
         return self
 
@@ -27,6 +30,10 @@ class ExternalForceHandler:
         if "ExternalForce" not in str(type(F)):
             F = ExternalForce(F, *args, **kwargs)
 
+        # a user-defined force replaces the default one of the last build
+        if F.node in self.defaults:
+            self.del_force(F.node)
+
         if self.nodes is None:
             nodes = np.array([F.node])
             forces = np.array([F.force])
@@ -42,12 +49,17 @@ class ExternalForceHandler:
         nodes = np.delete(self.nodes, idx, axis=0)
         forces = np.delete(self.forces, idx, axis=0)
         self.nodes, self.forces = nodes, forces
+        self.defaults.discard(label)
 
     def add_forces(self, FF):
         for F in FF:
             self.add_force(F)
 
     def fix_forces(self, nodelist):
+        # remove default forces of nodes which don't exist anymore
+        for n in self.defaults.difference(nodelist):
+            self.del_force(n)
+
         # check for missing external forces --> set them all to zero
 
         # are nodelist entries in force-nodes?
@@ -57,6 +69,7 @@ class ExternalForceHandler:
         for n in fix_nodes:
             F = ExternalForce(n, np.zeros(comp))
             self.add_force(F)
+            self.defaults.add(n)
         indices = np.argsort(self.nodes)
         self.nodes = self.nodes.take(indices)
         self.forces = self.forces.take(indices, axis=0)
-- 
2.43.0


From 0b39724d0d326eaa4092e7c154bbc8e8ddbd71e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 07/30] fix: frame order of movies with more than 999
 increments

File names were sorted as text, so fig_1000.png came before fig_101.png.
---
 src/trusspy/tools/movie_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trusspy/tools/movie_generator.py b/src/trusspy/tools/movie_generator.py
index a7e56a5..a1a6522 100644
--- a/src/trusspy/tools/movie_generator.py
+++ b/src/trusspy/tools/movie_generator.py
@@ -20,7 +20,8 @@ def png_to_gif(workdir=r"figures/", png_subdir=r"png/", gif_subdir=r"gif/", **kw
         rmtree(gif_dir)
     os.mkdir(gif_dir)
 
-    for file_name in sorted(os.listdir(png_dir)):
+    # fig_999.png comes before fig_1000.png
+    for file_name in sorted(os.listdir(png_dir), key=lambda name: (len(name), name)):
         if file_name.endswith(".png"):
             file_path = os.path.join(png_dir, file_name)
             images.append(imageio.imread(file_path))
-- 
2.43.0


From 0607cdcd7a39ed8af39ae1ef911e93a11dd4dc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 08/30] fix: use the linearized solution of an increment if it
 is already converged

If the first linearized Newton iteration met both tolerances the recycle loop
was skipped, but the solution vector stayed at the begin of the increment: all
following increments were recorded without any progress, with displacements
and LPF that don't belong together and without updated state variables.
---
 src/trusspy/solvers/tpsolver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 0f7c669..ed79465 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -405,6 +405,13 @@ def pathfollow(
             if abs(v1) > dxtol:
                 nr_success_pre = False
 
+            if nr_success_pre:
+                # the linearized solution is the solution of this increment:
+                # take it and update state variables
+                x = x_pre
+                analysis.dVmax = dxmax
+                f(x, x0, j, xmax_pre, g, dgdx, analysis, True)
+
         # -----------------------------------------------------------------
         # END PRE-IDENTIFY j
         # -----------------------------------------------------------------
-- 
2.43.0


From 31bc68681478bdd8046267d5ba1bf550a44e26a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 09/30] fix: don't record a failed increment as a result

When an increment failed (ERROR 1 and ERROR 2) its last, invalid trial solution
was appended to the results, which are documented as the collection of all
converged solutions, and the next step was started from it.
---
 src/trusspy/model.py            | 2 +-
 src/trusspy/solvers/tpsolver.py | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 31142d4..9e8f83f 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -397,7 +397,7 @@ Dutzler Andreas, Graz University of Technology, 2023
             self.Results.R[-1].U0 = np.copy(self.Results.R[-1].U)
 
             # append last lpf value
-            self.Results.step_lpf_end.append(self.Results.R[-1].lpf)
+            self.Results.step_lpf_end.append(res_a[-1].lpf)
 
             # reset LPF for new step
             if step + 1 < self.Settings.nsteps:
diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index ed79465..3560ca0 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -548,8 +548,11 @@ def pathfollow(
             print("")
             print("* recycling increment")
 
+        # Stop due to error: a failed increment is not a valid solution
+        if stop:
+            break
+
         # save results to analysis object
-        # if not stop:
         analysis.Vred = x
         analysis.Ured = x[:-1]
         analysis.lpf = x[-1]
@@ -561,10 +564,6 @@ def pathfollow(
             print("")
             print("* final LPF: {0: 10.4g}".format(x[-1]))
 
-        # Stop due to error
-        if stop:
-            break
-
         # Maximum value reached
         if xlimit is not None:
             if abs(x[xlimit[0] - 1]) > xlimit[1]:
-- 
2.43.0


From df96a38c54d7cb0150e2c97e9c872175d3a03265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 10/30] fix: handle a non-finite or empty trial solution as a
 failed attempt

A singular stiffness or a diverged iteration gives nan in the trial solution.
The choice of the control component then raised "ValueError: cannot convert
float NaN to integer" out of run(), losing all increments of the step, instead
of reducing the stepwidth or stopping the job with the documented message.
---
 src/trusspy/solvers/tpsolver.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 3560ca0..3a45fd1 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -391,7 +391,9 @@ def pathfollow(
                 (Dx_pre / dxmax).T[Dxi_pre - 1]
             )
             i1, v1 = Dxi_pre[-1], Dxs_pre[-1]
-            j_pre = int(i1 * np.sign(v1))
+
+            # no usable linearized solution (e.g. singular stiffness)
+            pre_valid = np.isfinite(v1) and v1 != 0
             if verbose > 1:
                 print(
                     "| {0:2d}  |  {1:2d}  |  {2:2d}   |{3:1.3e}|{4:4d}|{5:8.1g}|    |        |    |        |".format(
@@ -400,7 +402,8 @@ def pathfollow(
                 )
 
             # set the found solution to j
-            j = j_pre
+            if pre_valid:
+                j = int(i1 * np.sign(v1))
 
             if abs(v1) > dxtol:
                 nr_success_pre = False
@@ -438,7 +441,7 @@ def pathfollow(
 
             # NEWTON-RHAPSON ITERATIONS (nonlinear solution process)
             args = x0, j, xmax, g, dgdx, analysis, False
-            if z == 0 and j_pre and not j_fixed:
+            if z == 0 and j_pre and not j_fixed and pre_valid:
                 x = x0 + Dx_pre / abs(Dxs_pre[-1])
 
             x, nr_success, n, f_norm, x_norm = newton(
@@ -473,7 +476,8 @@ def pathfollow(
                 )
 
             # set new control comp. if not fixed by the user
-            if not j_fixed:
+            # (keep it if there is no usable solution, e.g. singular stiffness)
+            if not j_fixed and np.isfinite(v1) and v1 != 0:
                 j = int(i1 * np.sign(v1))
 
             # save current dxmax as dVmax to analysis object
-- 
2.43.0


From d5e4c8ff5455716807443c5a51cdddb4920d6a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 11/30] fix: keep the adapted stepwidth inside minfac and
 maxfac

The documented interval minfac*dxmax0 <= dxmax <= maxfac*dxmax0 was only tested
before a change, so one change could leave it (by up to 1+increase or reduce).
---
 src/trusspy/solvers/tpsolver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 3a45fd1..0ab1a8e 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -154,7 +154,7 @@ def dxmax_control(
                     print(
                         "* reduce NR-step size by factor: {:10.3g}".format(1 / reduce)
                     )
-                dxmax = dxmax / reduce
+                dxmax = np.maximum(dxmax / reduce, dxmax0 * minfac)
                 dx_changed = True
                 b = 0  # reset counter to increase width again
 
@@ -179,7 +179,9 @@ def dxmax_control(
                     #   nfev = 8, n = 4
                     #   1+(8-n)/8 = 1.5
                     #   total_increase = increase*1.5
-                    dxmax = dxmax * (1 + (nfev - n) / nfev * increase)
+                    dxmax = np.minimum(
+                        dxmax * (1 + (nfev - n) / nfev * increase), dxmax0 * maxfac
+                    )
                     dx_changed = True
                     if verbose > 1:
                         print(
-- 
2.43.0


From 2c00aa58e0c294571201ced150d5aa7b931f94f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 12/30] fix: restore stdout after a failed run and with several
 logged models

With logfile=True stdout stayed redirected for the whole process if run()
raised or was never called. With two logged models in use at the same time the
output went to the wrong log and stdout was never restored at all. A write
error at the end of the log was lost. Now only the model's own output is
redirected, while it is printed, and the log is closed after each phase.
---
 src/trusspy/model.py | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 9e8f83f..c42173e 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -6,8 +6,10 @@ year: 2023
 """
 
 import copy
+import os
 import sys
 import time
+from contextlib import contextmanager, redirect_stdout
 from subprocess import run as sp_run
 
 import numpy as np
@@ -89,9 +91,28 @@ class Model:
         self.logfile = logfile
         self.logfile_name = logfile_name
 
+        self.logfile_path = os.path.abspath(self.logfile_name + ".md")
+
+        with self._redirect_stdout(mode="w"):
+            self._print_header(log)
+
+        self.Nodes = NodeHandler()
+        self.Elements = ElementHandler()
+        self.Boundaries = BoundaryHandler()
+        self.ExtForces = ExternalForceHandler()
+        self.Settings = SettingsHandler()
+        self.Settings.log = log
+
+    @contextmanager
+    def _redirect_stdout(self, mode="a"):
+        "Redirect stdout to the logfile and restore it on exit, also after an error."
         if self.logfile:
-            sys.stdout = open(self.logfile_name + ".md", "w")
+            with open(self.logfile_path, mode) as stream, redirect_stdout(stream):
+                yield
+        else:
+            yield
 
+    def _print_header(self, log):
         if log > 1:
             if self.logfile:
                 print("```")
@@ -116,16 +137,13 @@ Dutzler Andreas, Graz University of Technology, 2023
         if self.logfile:
             print("```")
 
-        self.Nodes = NodeHandler()
-        self.Elements = ElementHandler()
-        self.Boundaries = BoundaryHandler()
-        self.ExtForces = ExternalForceHandler()
-        self.Settings = SettingsHandler()
-        self.Settings.log = log
-
     def build(self):
         "Build Model (r,U,K,...) with Model data and dimensions."
 
+        with self._redirect_stdout():
+            self._build()
+
+    def _build(self):
         self.Results = ResultHandler()
         self.Analysis = Analysis()
 
@@ -201,6 +219,10 @@ Dutzler Andreas, Graz University of Technology, 2023
     def run(self):
         """Run job."""
 
+        with self._redirect_stdout():
+            self._run()
+
+    def _run(self):
         if self.Settings.log > 1:
             print(r"\pagebreak")
             print(" ")
@@ -437,9 +459,6 @@ Dutzler Andreas, Graz University of Technology, 2023
                 '    total wall time "run":   {:10.3f} seconds\n'.format(time_dtime_run)
             )
 
-        if self.logfile:
-            sys.stdout = self.stdout
-
     def stiffness(self, Ured, analysis=None):
         """Method for evaluating the stiffness matrix. It re-shapes the stiffness matrix
         to ``K(nnodes,nnodes,ndim,ndim) --> K(nnodes*ndim,nnodes*nim)`` and returns a
-- 
2.43.0


From ec6c1c64d70ef8e222993984567cd70674dcd342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 13/30] fix: don't open a code block in the logfile which is
 never closed

For log < 2 the header isn't printed, but the closing fence was: the whole
log became a code block.
---
 src/trusspy/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index c42173e..7ae58e7 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -134,8 +134,8 @@ TrussPy - Truss Solver for Python
 Dutzler Andreas, Graz University of Technology, 2023
         """
             )
-        if self.logfile:
-            print("```")
+            if self.logfile:
+                print("```")
 
     def build(self):
         "Build Model (r,U,K,...) with Model data and dimensions."
-- 
2.43.0


From 26c6d1450d858f0c69e86b416dc65e60020131be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 14/30] fix: cpu and wall time were swapped in the report of
 the job duration

---
 src/trusspy/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 7ae58e7..16316e4 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -444,19 +444,19 @@ Dutzler Andreas, Graz University of Technology, 2023
             )
             print(
                 '    total  cpu time "build": {:10.3f} seconds'.format(
-                    time_dclock_build
+                    time_dtime_build
                 )
             )
             print(
                 '    total wall time "build": {:10.3f} seconds\n'.format(
-                    time_dtime_build
+                    time_dclock_build
                 )
             )
             print(
-                '    total  cpu time "run":   {:10.3f} seconds'.format(time_dclock_run)
+                '    total  cpu time "run":   {:10.3f} seconds'.format(time_dtime_run)
             )
             print(
-                '    total wall time "run":   {:10.3f} seconds\n'.format(time_dtime_run)
+                '    total wall time "run":   {:10.3f} seconds\n'.format(time_dclock_run)
             )
 
     def stiffness(self, Ured, analysis=None):
-- 
2.43.0


From e28b9e9f8238c6d2d3a93c746ceb059f76c0fd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 15/30] fix: a failing definition call with a list of items
 adds none of them

---
 src/trusspy/handlers/handler_boundary.py | 10 ++++++++--
 src/trusspy/handlers/handler_element.py  | 24 ++++++++++++++++++++++--
 src/trusspy/handlers/handler_extforce.py | 10 ++++++++--
 src/trusspy/handlers/handler_node.py     | 10 ++++++++--
 4 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/trusspy/handlers/handler_boundary.py b/src/trusspy/handlers/handler_boundary.py
index dbc0b7d..7dd9149 100644
--- a/src/trusspy/handlers/handler_boundary.py
+++ b/src/trusspy/handlers/handler_boundary.py
@@ -66,8 +66,14 @@ class BoundaryHandler:
 
     def add_bounds_U(self, BB):
         """add list of displacement boundaries"""
-        for B in BB:
-            self.add_bound_U(B)
+        old = self.Unodes, self.Uvalues, self.Udefaults.copy()
+        try:
+            for B in BB:
+                self.add_bound_U(B)
+        except BaseException:
+            # all or nothing
+            self.Unodes, self.Uvalues, self.Udefaults = old
+            raise
 
     def fix_bounds_U(self, nodelist):
         # remove default boundaries of nodes which don't exist anymore
diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 1753e29..535211d 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -121,8 +121,28 @@ class ElementHandler:
 
     def add_elements(self, EE):
         "add several elements from element list to ElementManager"
-        for E in EE:
-            self.add_element(E)
+        old = (
+            self.labels,
+            self.conns,
+            self.elem_type,
+            self.mat_type,
+            self.material_properties,
+            self.geometric_properties,
+        )
+        try:
+            for E in EE:
+                self.add_element(E)
+        except BaseException:
+            # all or nothing
+            (
+                self.labels,
+                self.conns,
+                self.elem_type,
+                self.mat_type,
+                self.material_properties,
+                self.geometric_properties,
+            ) = old
+            raise
 
     def get_nodes(self, label):
         "choose element label and return connected end node"
diff --git a/src/trusspy/handlers/handler_extforce.py b/src/trusspy/handlers/handler_extforce.py
index 5f945d9..a20561e 100644
--- a/src/trusspy/handlers/handler_extforce.py
+++ b/src/trusspy/handlers/handler_extforce.py
@@ -52,8 +52,14 @@ class ExternalForceHandler:
         self.defaults.discard(label)
 
     def add_forces(self, FF):
-        for F in FF:
-            self.add_force(F)
+        old = self.nodes, self.forces, self.defaults.copy()
+        try:
+            for F in FF:
+                self.add_force(F)
+        except BaseException:
+            # all or nothing
+            self.nodes, self.forces, self.defaults = old
+            raise
 
     def fix_forces(self, nodelist):
         # remove default forces of nodes which don't exist anymore
diff --git a/src/trusspy/handlers/handler_node.py b/src/trusspy/handlers/handler_node.py
index 8860e00..b3811f5 100644
--- a/src/trusspy/handlers/handler_node.py
+++ b/src/trusspy/handlers/handler_node.py
@@ -45,8 +45,14 @@ class NodeHandler:
         self.labels, self.coords = labels, coords
 
     def add_nodes(self, NN):
-        for N in NN:
-            self.add_node(N)
+        old = self.labels, self.coords
+        try:
+            for N in NN:
+                self.add_node(N)
+        except BaseException:
+            # all or nothing
+            self.labels, self.coords = old
+            raise
 
     def fix_nodes(self):
         indices = np.argsort(self.labels)
-- 
2.43.0


From d04d58373c7f23741c9c0c93c814907dda160353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 16/30] fix: an interrupted build leaves nodes, boundaries and
 forces unchanged

---
 src/trusspy/handlers/handler_boundary.py | 9 +++++++++
 src/trusspy/handlers/handler_extforce.py | 9 +++++++++
 src/trusspy/handlers/handler_node.py     | 5 +++--
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/handlers/handler_boundary.py b/src/trusspy/handlers/handler_boundary.py
index 7dd9149..fcc85db 100644
--- a/src/trusspy/handlers/handler_boundary.py
+++ b/src/trusspy/handlers/handler_boundary.py
@@ -76,6 +76,15 @@ class BoundaryHandler:
             raise
 
     def fix_bounds_U(self, nodelist):
+        old = self.Unodes, self.Uvalues, self.Udefaults.copy()
+        try:
+            self._fix_bounds_U(nodelist)
+        except BaseException:
+            # an interrupted build leaves the boundaries unchanged
+            self.Unodes, self.Uvalues, self.Udefaults = old
+            raise
+
+    def _fix_bounds_U(self, nodelist):
         # remove default boundaries of nodes which don't exist anymore
         for n in self.Udefaults.difference(nodelist):
             self.del_bound_U(n)
diff --git a/src/trusspy/handlers/handler_extforce.py b/src/trusspy/handlers/handler_extforce.py
index a20561e..7be8d84 100644
--- a/src/trusspy/handlers/handler_extforce.py
+++ b/src/trusspy/handlers/handler_extforce.py
@@ -62,6 +62,15 @@ class ExternalForceHandler:
             raise
 
     def fix_forces(self, nodelist):
+        old = self.nodes, self.forces, self.defaults.copy()
+        try:
+            self._fix_forces(nodelist)
+        except BaseException:
+            # an interrupted build leaves the forces unchanged
+            self.nodes, self.forces, self.defaults = old
+            raise
+
+    def _fix_forces(self, nodelist):
         # remove default forces of nodes which don't exist anymore
         for n in self.defaults.difference(nodelist):
             self.del_force(n)
diff --git a/src/trusspy/handlers/handler_node.py b/src/trusspy/handlers/handler_node.py
index b3811f5..bba07e1 100644
--- a/src/trusspy/handlers/handler_node.py
+++ b/src/trusspy/handlers/handler_node.py
@@ -56,5 +56,6 @@ class NodeHandler:
 
     def fix_nodes(self):
         indices = np.argsort(self.labels)
-        self.labels = self.labels.take(indices)
-        self.coords = self.coords.take(indices, axis=0)
+        labels = self.labels.take(indices)
+        coords = self.coords.take(indices, axis=0)
+        self.labels, self.coords = labels, coords
-- 
2.43.0


From 0931a229d4d1efc640d3b64e22b0a55efa6987ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 17/30] fix: build doesn't change the settings (state variables
 of a former model remained)

---
 src/trusspy/model.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 16316e4..c88122a 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -167,9 +167,10 @@ Dutzler Andreas, Graz University of Technology, 2023
         ):
             raise IOError("Node sorting failed.")
 
-        # init state variables for plasticity
+        # init state variables for plasticity (keep the settings as they are)
+        self.nstatev = self.Settings.nstatev
         if 2 in self.Elements.mat_type:
-            self.Settings.nstatev = 2
+            self.nstatev = 2
 
         # (n)ode (pro)perties
         #
@@ -203,7 +204,7 @@ Dutzler Andreas, Graz University of Technology, 2023
             self.ndim,
             self.nproDOF0,
             self.nproDOF1,
-            self.Settings.nstatev,
+            self.nstatev,
         )
 
         # init results, add empty increment
@@ -542,7 +543,7 @@ Dutzler Andreas, Graz University of Technology, 2023
                 U0nodes[n] = self.Analysis.U0[np.where(self.Nodes.labels == node)][0]
 
             # RESOLVE PROBLEM IN STATEV UPDATE
-            if self.Settings.nstatev > 0:
+            if self.nstatev > 0:
                 state_v = self.Analysis.state_v.copy()
             else:
                 state_v = None
@@ -575,7 +576,7 @@ Dutzler Andreas, Graz University of Technology, 2023
                 umat,
                 self.Analysis,
             )
-            if statev_write and self.Settings.nstatev > 0:
+            if statev_write and self.nstatev > 0:
                 self.Analysis.state_v = state_v
                 self.Analysis.lpf = lpf
                 self.Analysis.Vred = np.append(Ured, lpf)
-- 
2.43.0


From 31533631fbbb3e48b63d39123f27fc780e10ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 18/30] fix: plots and movies of models whose nodes are not
 labelled 1..n

---
 src/trusspy/tools/plot_utilities.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 7e82eed..d278269 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -15,12 +15,18 @@ from .helper_functions2 import plot_elems, plot_force, plot_hist, plot_nodes, pl
 from .movie_generator import png_to_gif
 
 
+def node_positions(self):
+    "connectivities with (one-based) node positions instead of node labels"
+    labels = list(self.Nodes.labels)
+    return [[1 + labels.index(n) for n in conn] for conn in self.Elements.conns]
+
+
 def p_nodes(self):
     plot_nodes(self.Nodes.coords + self.Results.U, color="C1")
 
 
 def p_elements(self):
-    plot_elems(self.Elements.conns, self.Nodes.coords + self.Results.U, color="C0")
+    plot_elems(node_positions(self), self.Nodes.coords + self.Results.U, color="C0")
 
 
 def p_extforces(self, step=1):
@@ -121,7 +127,7 @@ def p_model(
         size=nodesize,
     )
     fig, ax = plot_elems(
-        self.Elements.conns,
+        node_positions(self),
         self.Nodes.coords + self.Results.R[inc].U,
         fig,
         ax,
-- 
2.43.0


From f3260b9fceffb057ba50373a956cbdfcbdf3d44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 19/30] fix: a 3d plot of a model left an empty figure behind

---
 src/trusspy/tools/plot_utilities.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index d278269..add2947 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -48,8 +48,7 @@ def p_model(
     step=1,
 ):
     con = None
-    plt.figure()
-    fig, ax = None, None
+    fig, ax = plt.figure(), None
 
     if inc < 0:
         inc = len(self.Results.R) + inc
-- 
2.43.0


From 4cd615ff3463b01ab6abbccf90fe410c24e6a616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 20/30] fix: history plots over increments showed each
 increment one too late

---
 src/trusspy/tools/plot_utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index add2947..82114c0 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -237,8 +237,8 @@ def p_path(self, nodepath, increment=-1, Y="Displacement X", fig=None, ax=None):
 
 def p_history(self, nodes=[1, 1], X="Displacement X", Y="LPF", fig=None, ax=None):
     # loop over increments
-    xx = [0]
-    yy = [0]
+    xx = []
+    yy = []
     dir_dict = {"X": 0, "Y": 1, "Z": 2}
 
     x, y = np.nan, np.nan
@@ -266,9 +266,9 @@ def p_history(self, nodes=[1, 1], X="Displacement X", Y="LPF", fig=None, ax=None
         yy.append(y)
 
     if "Increments" in X:
-        xx = np.arange(1 + len(self.Results.R), dtype=int)
+        xx = np.arange(len(self.Results.R), dtype=int)
     if "Increments" in Y:
-        yy = np.arange(1 + len(self.Results.R))
+        yy = np.arange(len(self.Results.R))
 
     if fig is None:
         fig, ax = plt.subplots()
-- 
2.43.0


From dae7f11502cd3ca238fc8c29a3f3cb3d47558a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 21/30] fix: history and path plots in a given figure resized
 the current figure

---
 src/trusspy/tools/helper_functions2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/tools/helper_functions2.py b/src/trusspy/tools/helper_functions2.py
index 51d7917..330014a 100644
--- a/src/trusspy/tools/helper_functions2.py
+++ b/src/trusspy/tools/helper_functions2.py
@@ -48,7 +48,7 @@ def plot_hist(x, y, nl, xl, yl="LPF", fig=None, ax=None):
     ax.set_xlabel(xl)
     ax.set_ylabel(yl)
     ax.legend()
-    plt.gcf().set_size_inches(8, 6)
+    fig.set_size_inches(8, 6)
     return fig, ax
 
 
@@ -72,7 +72,7 @@ def plot_pth(x, y, inc, yl="LPF", fig=None, ax=None):
     ax.set_xticks(xtcks)
     ax.set_xticklabels(xtckl)
     ax.legend()
-    plt.gcf().set_size_inches(8, 6)
+    fig.set_size_inches(8, 6)
     return fig, ax
 
 
-- 
2.43.0


From cf4e683afa93bcf6668f5a822d15ade97ac25abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 22/30] fix: plt_nodes, plt_elements and plt_extforces failed
 in every call

---
 src/trusspy/tools/plot_utilities.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 82114c0..920dbc6 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -21,18 +21,25 @@ def node_positions(self):
     return [[1 + labels.index(n) for n in conn] for conn in self.Elements.conns]
 
 
-def p_nodes(self):
-    plot_nodes(self.Nodes.coords + self.Results.U, color="C1")
+def positions(self, config="undeformed"):
+    "coordinates of the nodes, undeformed or of the last increment"
+    if config == "undeformed":
+        return self.Nodes.coords
+    return self.Nodes.coords + self.Results.R[-1].U
 
 
-def p_elements(self):
-    plot_elems(node_positions(self), self.Nodes.coords + self.Results.U, color="C0")
+def p_nodes(self, config="undeformed"):
+    plot_nodes(positions(self, config), color="C1")
 
 
-def p_extforces(self, step=1):
+def p_elements(self, config="undeformed"):
+    plot_elems(node_positions(self), positions(self, config), color="C0")
+
+
+def p_extforces(self, config="undeformed", step=1):
     plot_force(
         self.ExtForces.forces[:, 3 * (step - 1) : 3 * step],
-        self.Nodes.coords + self.Results.U,
+        positions(self, config),
     )
 
 
-- 
2.43.0


From a106f922e563931b9ad895b264eec57eda1568d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:03 +0000
Subject: [PATCH 23/30] fix: elements refused properties given as arrays

---
 src/trusspy/core/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/core/element.py b/src/trusspy/core/element.py
index 37f144b..d406c1a 100644
--- a/src/trusspy/core/element.py
+++ b/src/trusspy/core/element.py
@@ -68,12 +68,12 @@ class Element:
         self.elem_type = elem_type
         self.mat_type = mat_type
 
-        if material_properties != [np.nan] and mprop is not None:
+        if mprop is not None and list(material_properties) != [np.nan]:
             raise TypeError(
                 'Wrong Material Properties. Use either "material_properties" or "mprop", not both.'
             )
 
-        if geometric_properties != [np.nan] and gprop is not None:
+        if gprop is not None and list(geometric_properties) != [np.nan]:
             raise TypeError(
                 'Wrong Geometric Properties. Use either "geometric_properties" or "gprop", not both.'
             )
-- 
2.43.0


From d883e08ff032014a4fb27736a60bcb38d2c5c75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 24/30] fix: assigning to elements refused labels given as an
 array

---
 src/trusspy/handlers/handler_element.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 535211d..c3d0cb0 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -28,7 +28,7 @@ class ElementHandler:
         pass
 
     def assign_material(self, labels, mprop, mtype=None):
-        if labels == "all":
+        if isinstance(labels, str) and labels == "all":
             labels = self.labels
 
         # reshape (extend) material properties
@@ -50,25 +50,25 @@ class ElementHandler:
                 self.mat_type[np.where(self.labels == label)] = [mtype]
 
     def assign_geometry(self, labels, gprop):
-        if labels == "all":
+        if isinstance(labels, str) and labels == "all":
             labels = self.labels
         for label in labels:
             self.geometric_properties[np.where(self.labels == label)] = [gprop]
 
     def assign_geometries(self, labels, gprops):
-        if labels == "all":
+        if isinstance(labels, str) and labels == "all":
             labels = self.labels
         for label, gprop in zip(labels, gprops):
             self.geometric_properties[np.where(self.labels == label)] = [gprop]
 
     def assign_etype(self, labels, elem_type):
-        if labels == "all":
+        if isinstance(labels, str) and labels == "all":
             labels = self.labels
         for label in labels:
             self.elem_type[np.where(self.labels == label)] = elem_type
 
     def assign_mtype(self, labels, mat_type):
-        if labels == "all":
+        if isinstance(labels, str) and labels == "all":
             labels = self.labels
         for label in labels:
             self.mat_type[np.where(self.labels == label)] = mat_type
-- 
2.43.0


From aba2de961429e6df211e6f39a8ef4a297b844a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 25/30] fix: plots and movies refused arrays of nodes,
 increments and limits

---
 src/trusspy/tools/helper_functions2.py | 2 +-
 src/trusspy/tools/plot_utilities.py    | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trusspy/tools/helper_functions2.py b/src/trusspy/tools/helper_functions2.py
index 330014a..f22bcb9 100644
--- a/src/trusspy/tools/helper_functions2.py
+++ b/src/trusspy/tools/helper_functions2.py
@@ -55,7 +55,7 @@ def plot_hist(x, y, nl, xl, yl="LPF", fig=None, ax=None):
 def plot_pth(x, y, inc, yl="LPF", fig=None, ax=None):
     if fig is None:
         fig, ax = plt.subplots()
-    if x == range(min(x), max(x) + 1):
+    if isinstance(x, range) and x == range(min(x), max(x) + 1):
         xx = np.linspace(min(x), max(x), 11, dtype=int)
         xdata = x
         xtcks = xx
diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 920dbc6..91766fc 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -71,7 +71,7 @@ def p_model(
         title = f"INCREMENT: {inc}"
 
     if contour == "stretch":
-        if cbar_limits == "auto":
+        if isinstance(cbar_limits, str) and cbar_limits == "auto":
             contour_lim = [
                 1 - max(abs(self.Results.R[inc].stretch[:, 0] - 1)),
                 1 + max(abs(self.Results.R[inc].stretch[:, 0] - 1)),
@@ -80,7 +80,7 @@ def p_model(
             contour_lim = cbar_limits
         con = contour, self.Results.R[inc].stretch[:, 0], contour_lim
     if contour == "force":
-        if cbar_limits == "auto":
+        if isinstance(cbar_limits, str) and cbar_limits == "auto":
             contour_lim = [
                 -max(abs(self.Results.R[inc].element_force[:, 0])),
                 max(abs(self.Results.R[inc].element_force[:, 0])),
@@ -89,7 +89,7 @@ def p_model(
             contour_lim = cbar_limits
         con = contour, self.Results.R[inc].element_force[:, 0], contour_lim
     if contour == "stress":
-        if cbar_limits == "auto":
+        if isinstance(cbar_limits, str) and cbar_limits == "auto":
             contour_lim = [
                 -max(abs(self.Results.R[inc].element_stress[:, 0])),
                 max(abs(self.Results.R[inc].element_stress[:, 0])),
@@ -196,7 +196,7 @@ def p_movie(
     incs="all",
     **kwargs,
 ):
-    if incs == "all":
+    if isinstance(incs, str) and incs == "all":
         incs = range(1, len(self.Results.R))
 
     if os.path.isdir("figures/"):
-- 
2.43.0


From 9593f8ac868b3c4714111efca7fc8e6afb2731ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:37 +0000
Subject: [PATCH 26/30] fix: making a movie closed the figures of other plots

---
 src/trusspy/tools/plot_utilities.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 91766fc..dee8f7d 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -205,9 +205,14 @@ def p_movie(
     os.mkdir("figures/png/")
 
     for i in incs:
-        self.plot_model(view, contour, lim_scale, force_scale, nodesize, cbar_limits, i)
-        plt.savefig("figures/png/fig_{:03d}.png".format(i), dpi=200)
-        plt.close("all")
+        fig, ax = self.plot_model(
+            view, contour, lim_scale, force_scale, nodesize, cbar_limits, i
+        )
+        try:
+            fig.savefig("figures/png/fig_{:03d}.png".format(i), dpi=200)
+        finally:
+            # keep the figures of other plots
+            plt.close(fig)
 
     png_to_gif(**kwargs)
 
-- 
2.43.0


From f5221cef9bd488b976fb58b1c9457561dd31785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:30 +0000
Subject: [PATCH 27/30] fix: the element stress at the beginning of an
 increment was never set

---
 src/trusspy/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index c88122a..937dad3 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -413,6 +413,8 @@ Dutzler Andreas, Graz University of Technology, 2023
                             1 + i, len(res_V[1:]), r_a.lpf
                         )
                     )
+                # element stress at the beginning of the increment
+                r_a.element_stress0 = np.copy(self.Results.R[-2].element_stress)
                 self.Results.R[-1] = r_a
                 self.Results.copy_increment()
 
-- 
2.43.0


From 115506ba22fae1552bd01894bc780d59639e75ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 28/30] fix: the reduced internal forces of the results
 remained zero

---
 src/trusspy/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 937dad3..b2e524c 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -415,6 +415,8 @@ Dutzler Andreas, Graz University of Technology, 2023
                     )
                 # element stress at the beginning of the increment
                 r_a.element_stress0 = np.copy(self.Results.R[-2].element_stress)
+                # reduced internal forces (active DOF)
+                r_a.rred = r_a.get_r(flat=True)[r_a.DOF1]
                 self.Results.R[-1] = r_a
                 self.Results.copy_increment()
 
-- 
2.43.0


From cea6922b4a3833792fdf96ed3c7cd2d4b1171a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:12 +0000
Subject: [PATCH 29/30] fix: after deleting all elements their number of
 properties was still required

---
 src/trusspy/handlers/handler_element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index c3d0cb0..b835bf3 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -80,7 +80,7 @@ class ElementHandler:
         if "Element" not in str(type(E)):
             E = Element(E, *args, **kwargs)
 
-        if self.labels is None:
+        if self.labels is None or len(self.labels) == 0:
             labels = np.array([E.label])
             elem_type = np.array([E.elem_type])
             mat_type = np.array([E.mat_type])
-- 
2.43.0


From 6968195074c8e34a70c6461331bfbec94f7203d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:12 +0000
Subject: [PATCH 30/30] fix: after deleting all forces their number of load
 steps was still required

---
 src/trusspy/handlers/handler_extforce.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/handlers/handler_extforce.py b/src/trusspy/handlers/handler_extforce.py
index 7be8d84..27ed035 100644
--- a/src/trusspy/handlers/handler_extforce.py
+++ b/src/trusspy/handlers/handler_extforce.py
@@ -34,15 +34,23 @@ class ExternalForceHandler:
         if F.node in self.defaults:
             self.del_force(F.node)
 
-        if self.nodes is None:
+        if self.nodes is not None and self.defaults.issuperset(self.nodes):
+            # without user-defined forces the number of load steps is free
+            restart = self.forces.shape[1] != len(F.force)
+        else:
+            restart = self.nodes is None
+
+        defaults = self.defaults
+        if restart:
             nodes = np.array([F.node])
             forces = np.array([F.force])
+            defaults = set()
         else:
             nodes = np.append(self.nodes, F.node)
             forces = np.vstack((self.forces, F.force))
 
         # update only after everything succeeded
-        self.nodes, self.forces = nodes, forces
+        self.nodes, self.forces, self.defaults = nodes, forces, defaults
 
     def del_force(self, label):
         idx = np.where(self.nodes == label)[0]
-- 
2.43.0

