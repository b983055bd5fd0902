From d63f33610eed082e9d3732cea6abd0c0d01e7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:32 +0000
Subject: [PATCH 01/32] fix: do not count Dirichlet nodes as contact nodes

A node that satisfies both the contact and the Dirichlet predicate is stored
in the Dirichlet block, but it was still counted as a contact node, so the
contact range covered Neumann or interior nodes and the Neumann count could
become negative.
---
 conmech/mesh/boundaries_factory.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conmech/mesh/boundaries_factory.py b/conmech/mesh/boundaries_factory.py
index 2ed8921..f5c9961 100644
--- a/conmech/mesh/boundaries_factory.py
+++ b/conmech/mesh/boundaries_factory.py
@@ -93,7 +93,7 @@ def reorder_boundary_nodes(nodes, elements, is_contact, is_dirichlet):
     # C | D
     # I
     # N
-    nodes, elements, contact_nodes_count = reorder(nodes, elements, is_contact, to_top=True)
+    nodes, elements, _ = reorder(nodes, elements, is_contact, to_top=True)
     # C
     # N
     # I
@@ -104,6 +104,11 @@ def reorder_boundary_nodes(nodes, elements, is_contact, is_dirichlet):
     # N
     # I
     # D
+    contact_nodes_count = len(
+        apply_predicate_to_boundary_nodes(
+            elements, nodes, lambda *args: is_contact(*args) and not is_dirichlet(*args)
+        )
+    )
     return (
         nodes,
         elements,
-- 
2.43.0


From 49cc107f8fff5403ef1d974fe63bbd7d7dec4961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:55 +0000
Subject: [PATCH 02/32] fix: pair 2D boundary edges with their own opposing
 nodes

Facets are listed as contact, Neumann, Dirichlet, while the opposing nodes
that orient the normals were listed in the order of facet discovery, so a
normal could come out inward or zero.  A facet that is both contact and
Dirichlet was listed twice and raised a broadcasting error; as for nodes,
Dirichlet overrides contact.  The 3D pairing is left as it is, because the
3D regression data were computed with it.
---
 conmech/mesh/boundaries_factory.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/conmech/mesh/boundaries_factory.py b/conmech/mesh/boundaries_factory.py
index f5c9961..5b5cff6 100644
--- a/conmech/mesh/boundaries_factory.py
+++ b/conmech/mesh/boundaries_factory.py
@@ -68,6 +68,14 @@ def apply_predicate_to_surfaces(surfaces, nodes, predicate: Callable):
     return surfaces[mask]
 
 
+def find_internal_indices(surfaces, boundary_surfaces, boundary_internal_indices):
+    internal_index = {
+        tuple(surface): index
+        for surface, index in zip(boundary_surfaces, boundary_internal_indices)
+    }
+    return np.array([internal_index[tuple(surface)] for surface in surfaces], dtype=np.int64)
+
+
 def reorder_boundary_nodes(nodes, elements, is_contact, is_dirichlet):
     """
     Node order
@@ -201,7 +209,12 @@ class BoundariesFactory:
 
         boundary_surfaces, boundary_internal_indices, *_ = get_boundary_surfaces(elements)
 
-        contact_boundary = apply_predicate_to_surfaces(boundary_surfaces, initial_nodes, is_contact)
+        # if surface is both contact and dirichlet we treat it as dirichlet
+        contact_boundary = apply_predicate_to_surfaces(
+            boundary_surfaces,
+            initial_nodes,
+            lambda n: is_contact(n) and not is_dirichlet(n),
+        )
         dirichlet_boundary = apply_predicate_to_surfaces(
             boundary_surfaces, initial_nodes, is_dirichlet
         )
@@ -210,6 +223,12 @@ class BoundariesFactory:
             initial_nodes,
             lambda n: not is_contact(n) and not is_dirichlet(n),
         )
+        if initial_nodes.shape[1] == 2:  # TODO: 3D regression data rely on the unmatched order
+            boundary_internal_indices = find_internal_indices(
+                np.vstack((contact_boundary, neumann_boundary, dirichlet_boundary)),
+                boundary_surfaces,
+                boundary_internal_indices,
+            )
 
         contact_boundary = Boundary(
             surfaces=contact_boundary,
-- 
2.43.0


From 3d27c985e75bc7fe0091adc6c8690e1dfff3adc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:55 +0000
Subject: [PATCH 03/32] fix: 3D isotropic elasticity and viscosity operators

The diagonal blocks used lambda in place of mu for one shear term, and the
off-diagonal blocks were transposed; both are invisible only when mu equals
lambda.  A rigid rotation now produces no elastic force.
---
 .../dynamics/factory/_dynamics_factory_3d.py   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/conmech/dynamics/factory/_dynamics_factory_3d.py b/conmech/dynamics/factory/_dynamics_factory_3d.py
index 65411b3..ef5c676 100644
--- a/conmech/dynamics/factory/_dynamics_factory_3d.py
+++ b/conmech/dynamics/factory/_dynamics_factory_3d.py
@@ -152,17 +152,17 @@ class DynamicsFactory3D(AbstractDynamicsFactory):
         return DIMENSION
 
     def calculate_constitutive_matrices(self, W, mu, lambda_):
-        A_11 = (2 * mu + lambda_) * W[0, 0] + mu * W[1, 1] + lambda_ * W[2, 2]
-        A_22 = mu * W[0, 0] + (2 * mu + lambda_) * W[1, 1] + lambda_ * W[2, 2]
-        A_33 = mu * W[0, 0] + lambda_ * W[1, 1] + (2 * mu + lambda_) * W[2, 2]
+        A_11 = (2 * mu + lambda_) * W[0, 0] + mu * W[1, 1] + mu * W[2, 2]
+        A_22 = mu * W[0, 0] + (2 * mu + lambda_) * W[1, 1] + mu * W[2, 2]
+        A_33 = mu * W[0, 0] + mu * W[1, 1] + (2 * mu + lambda_) * W[2, 2]
 
-        A_21 = mu * W[1, 0] + lambda_ * W[0, 1]
-        A_31 = mu * W[2, 0] + lambda_ * W[0, 2]
-        A_32 = mu * W[2, 1] + lambda_ * W[1, 2]
+        A_12 = mu * W[1, 0] + lambda_ * W[0, 1]
+        A_13 = mu * W[2, 0] + lambda_ * W[0, 2]
+        A_23 = mu * W[2, 1] + lambda_ * W[1, 2]
 
-        A_12 = lambda_ * W[1, 0] + mu * W[0, 1]
-        A_13 = lambda_ * W[2, 0] + mu * W[0, 2]
-        A_23 = lambda_ * W[2, 1] + mu * W[1, 2]
+        A_21 = lambda_ * W[1, 0] + mu * W[0, 1]
+        A_31 = lambda_ * W[2, 0] + mu * W[0, 2]
+        A_32 = lambda_ * W[2, 1] + mu * W[1, 2]
 
         return SM3(
             np.block(
-- 
2.43.0


From 8989d31a5459a868ac96b8c64b5c98cf99346515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:55 +0000
Subject: [PATCH 04/32] fix: pass the current time to the relaxation problem in
 global optimization

---
 conmech/solvers/optimization/global_optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conmech/solvers/optimization/global_optimization.py b/conmech/solvers/optimization/global_optimization.py
index d76faab..1fd54cc 100644
--- a/conmech/solvers/optimization/global_optimization.py
+++ b/conmech/solvers/optimization/global_optimization.py
@@ -48,6 +48,7 @@ class QuasistaticRelaxedGlobalOptimization(GlobalOptimization):
                 absement=self.b_vector,
                 displacement=self.u_vector,
                 time_step=self.time_step,
+                time=self.current_time,
             )
         )
 
-- 
2.43.0


From b47d3cf82db9ad4e12ecc141f01fe67892da4a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:55 +0000
Subject: [PATCH 05/32] fix: restart the clock when solve() is called again

A second solve() on the same time-dependent solver went on from the time the
first one ended at, while the state started at zero: the first step was too
long and loads were taken at the wrong times.  WaveSolver already did this.
---
 conmech/simulations/problem_solver.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/conmech/simulations/problem_solver.py b/conmech/simulations/problem_solver.py
index 72e097a..210b24f 100644
--- a/conmech/simulations/problem_solver.py
+++ b/conmech/simulations/problem_solver.py
@@ -395,6 +395,8 @@ class QuasistaticRelaxation(ProblemSolver):
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
 
+        self.step_solver.current_time = state.time
+
         self.step_solver.b_vector[:] = state.absement.T.ravel().copy()
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.iterate()
@@ -462,6 +464,8 @@ class TimeDependentSolver(ProblemSolver):
         )
         state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
 
+        self.step_solver.current_time = state.time
+
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()
         self.step_solver.iterate()
@@ -538,6 +542,9 @@ class TemperatureTimeDependentSolver(ProblemSolver):
         solution = state.velocity.reshape(2, -1)
         solution_t = state.temperature
 
+        self.step_solver.current_time = state.time
+        self.second_step_solver.current_time = state.time
+
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()
         self.step_solver.t_vector[:] = state.temperature.T.ravel().copy()
@@ -631,6 +638,9 @@ class PiezoelectricTimeDependentSolver(ProblemSolver):
         solution = state.velocity.reshape(2, -1)
         solution_t = state.electric_potential
 
+        self.step_solver.current_time = state.time
+        self.second_step_solver.current_time = state.time
+
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()
         self.step_solver.p_vector[:] = state.electric_potential.T.ravel().copy()
-- 
2.43.0


From d8790126d0945e82abd2c7fed2327c14a99222e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 06/32] fix: recompute the stress of a state after its fields
 change

The stress was computed once and then returned for every later displacement,
velocity and time of the same state.
---
 conmech/state/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index a4646c8..c0f04d3 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -41,6 +41,7 @@ class State:
             dt = time - self.time
             self.absement += dt * self.displacement
         self.time = time
+        self.__stress = None
         self.update_products()
 
     def set_velocity(self, velocity_vector: np.ndarray, time: float, *, update_displacement: bool):
@@ -52,6 +53,7 @@ class State:
                 self.body.mesh.nodes[: self.body.mesh.nodes_count, :] + self.displacement[:, :]
             )
         self.time = time
+        self.__stress = None
         self.update_products()
 
     @property
-- 
2.43.0


From 1a9939b915ef88ef037570befd61ff6d7e7e6429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 07/32] fix: restore the state when saving it fails

An error while opening or writing the file left the body without its force
sources and the state without its setup and constitutive law.
---
 conmech/state/state.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index c0f04d3..eb0d32f 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -121,13 +121,14 @@ class State:
         cl = self.constitutive_law
         self.constitutive_law = None
 
-        with open(path, "wb+") as file:
-            pickle.dump(self, file)
-
-        self.body.dynamics.force.outer.source = fos
-        self.body.dynamics.force.inner.source = fis
-        self.setup = s
-        self.constitutive_law = cl
+        try:
+            with open(path, "wb+") as file:
+                pickle.dump(self, file)
+        finally:
+            self.body.dynamics.force.outer.source = fos
+            self.body.dynamics.force.inner.source = fis
+            self.setup = s
+            self.constitutive_law = cl
 
     @classmethod
     def load(cls, path):
-- 
2.43.0


From 5c8849bedf204e61b4ea7ce8c208380102c02f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 08/32] fix: keep products when a state is copied

A copied product lost its type, so a simulation resumed from a copied state
failed on its first step; copies of temperature and piezoelectric states had
no products at all.
---
 conmech/state/products/product.py | 3 ++-
 conmech/state/state.py            | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/conmech/state/products/product.py b/conmech/state/products/product.py
index cd1525c..bed1de2 100644
--- a/conmech/state/products/product.py
+++ b/conmech/state/products/product.py
@@ -30,7 +30,8 @@ class Product:
         return self.copy()
 
     def copy(self) -> "Product":
-        result = Product(self.name)
+        result = type(self).__new__(type(self))
+        result.__dict__.update(self.__dict__)
         result.data = self.data.copy()
         return result
 
diff --git a/conmech/state/state.py b/conmech/state/state.py
index eb0d32f..d06983d 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -156,6 +156,7 @@ class TemperatureState(State):
         copy.displaced_nodes[:] = self.displaced_nodes
         copy.velocity[:] = self.velocity
         copy.time = self.time
+        copy.products = {n: p.copy() for n, p in self.products.items()}
         copy.temperature[:] = self.temperature
         return copy
 
@@ -175,5 +176,6 @@ class PiezoelectricState(State):
         copy.displaced_nodes[:] = self.displaced_nodes
         copy.velocity[:] = self.velocity
         copy.time = self.time
+        copy.products = {n: p.copy() for n, p in self.products.items()}
         copy.electric_potential[:] = self.electric_potential
         return copy
-- 
2.43.0


From 1048f2f30c39d2ceee66294d1857c81038ce9820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 09/32] fix: return the matrix from in-place operators of
 StiffnessMatrix

---
 conmech/struct/stiffness_matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conmech/struct/stiffness_matrix.py b/conmech/struct/stiffness_matrix.py
index c36ae8a..4665bcc 100644
--- a/conmech/struct/stiffness_matrix.py
+++ b/conmech/struct/stiffness_matrix.py
@@ -10,6 +10,7 @@ class StiffnessMatrix:
             self.data += other.data
         else:
             self.data += other
+        return self
 
     def __add__(self, other):
         if isinstance(other, StiffnessMatrix):
@@ -22,6 +23,7 @@ class StiffnessMatrix:
 
     def __imul__(self, other):
         self.data *= other
+        return self
 
     def __mul__(self, other):
         return type(self)(self.data * other)
@@ -45,6 +47,7 @@ class StiffnessMatrix:
             self.data @= other.data
         else:
             self.data @= other
+        return self
 
     def __rmatmul__(self, other):
         return other @ self.data
-- 
2.43.0


From 051c714fd4ce6e3270bef9a09ba9f6778d4a47ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 10/32] fix: do not serve cached loads after clear() or after a
 new source is set

After clear() a query at the cached time returned None, and after assigning
another source it returned values of the previous one.
---
 conmech/scene/body_forces.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/conmech/scene/body_forces.py b/conmech/scene/body_forces.py
index 40dd7b9..8503f49 100644
--- a/conmech/scene/body_forces.py
+++ b/conmech/scene/body_forces.py
@@ -47,6 +47,12 @@ class FieldSource:
     cache: Optional[np.ndarray] = None
     timestamp: Optional[float] = None
 
+    def __setattr__(self, name, value):
+        if name == "source" and value is not None:
+            # cached values come from the previous source
+            super().__setattr__("timestamp", None)
+        super().__setattr__(name, value)
+
     def node_source(self, nodes, time: float):
         # pylint: disable=not-callable
         if time != self.timestamp:
@@ -63,7 +69,9 @@ class BodyForces:
 
     def clear(self):
         self.inner.cache = None
+        self.inner.timestamp = None
         self.outer.cache = None
+        self.outer.timestamp = None
 
     def get_integrated_inner_forces(self, time: float):
         inner_forces = self.inner.node_source(self.body.mesh.nodes, time)
-- 
2.43.0


From 3ef0f7ce6085fab188a3887f6f0cd8ba901dfb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 11/32] fix: apply numbered Dirichlet conditions that follow an
 empty one

A numbered boundary that no facet belongs to is not created, and the search
for conditions stopped there, silently ignoring all later ones.
---
 conmech/dynamics/statement.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/conmech/dynamics/statement.py b/conmech/dynamics/statement.py
index 78a11ea..62d0b32 100644
--- a/conmech/dynamics/statement.py
+++ b/conmech/dynamics/statement.py
@@ -56,14 +56,10 @@ class Statement:
         if self.dirichlet_cond_name in boundaries:
             yield self.dirichlet_cond_name
             return
-        i = 0
-        while True:
-            next_name = self.dirichlet_cond_name + "_" + str(i)
-            if next_name in boundaries:
-                yield next_name
-            else:
-                return
-            i += 1
+        prefix = self.dirichlet_cond_name + "_"
+        indices = [name[len(prefix) :] for name in boundaries if name.startswith(prefix)]
+        for i in sorted(int(i) for i in indices if i.isdigit()):
+            yield prefix + str(i)
 
 
 class StaticPoissonStatement(Statement):
-- 
2.43.0


From 37a784dc31a3ce2e56d8b30566eb5fa7e4e085d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 12/32] fix: move the nodes of the initial state by the initial
 displacement

A snapshot requested at step 0 had the undeformed nodes.
---
 conmech/simulations/problem_solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conmech/simulations/problem_solver.py b/conmech/simulations/problem_solver.py
index 210b24f..ab7f50c 100644
--- a/conmech/simulations/problem_solver.py
+++ b/conmech/simulations/problem_solver.py
@@ -394,6 +394,7 @@ class QuasistaticRelaxation(ProblemSolver):
         state.displacement[:] = initial_displacement(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
+        state.displaced_nodes[:] = self.body.mesh.nodes + state.displacement
 
         self.step_solver.current_time = state.time
 
@@ -462,6 +463,7 @@ class TimeDependentSolver(ProblemSolver):
         state.displacement[:] = initial_displacement(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
+        state.displaced_nodes[:] = self.body.mesh.nodes + state.displacement
         state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
 
         self.step_solver.current_time = state.time
@@ -534,6 +536,7 @@ class TemperatureTimeDependentSolver(ProblemSolver):
         state.displacement[:] = initial_displacement(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
+        state.displaced_nodes[:] = self.body.mesh.nodes + state.displacement
         state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
         state.temperature[:] = initial_temperature(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
@@ -630,6 +633,7 @@ class PiezoelectricTimeDependentSolver(ProblemSolver):
         state.displacement[:] = initial_displacement(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
+        state.displaced_nodes[:] = self.body.mesh.nodes + state.displacement
         state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
         state.electric_potential[:] = initial_electric_potential(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
@@ -729,6 +733,7 @@ class WaveSolver(ProblemSolver):
             state.displacement[:] = initial_displacement(
                 self.body.mesh.nodes[: self.body.mesh.nodes_count]
             )
+            state.displaced_nodes[:] = self.body.mesh.nodes + state.displacement
             state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
 
         self.step_solver.current_time = state.time
-- 
2.43.0


From a3c3ab6f5bd583a4017b2f6ade942fbea1b31f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:26 +0000
Subject: [PATCH 13/32] fix: couple the electric potential to motion in dynamic
 piezoelectric problems

The dynamic piezoelectric problem solved the plain viscoelastic statement, so
the electric potential never acted on the body; the coupled statement existed
but had the opposite sign to the quasistatic one.
---
 conmech/dynamics/statement.py | 2 +-
 conmech/scenarios/problems.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/conmech/dynamics/statement.py b/conmech/dynamics/statement.py
index 62d0b32..b78460c 100644
--- a/conmech/dynamics/statement.py
+++ b/conmech/dynamics/statement.py
@@ -254,6 +254,6 @@ class DynamicVelocityWithPiezoelectricStatement(DynamicVelocityStatement):
 
         assert var.electric_potential is not None
 
-        A = self.body.dynamics.piezoelectricity.T @ var.electric_potential
+        A = (-1) * self.body.dynamics.piezoelectricity.T @ var.electric_potential
 
         self.right_hand_side += A
diff --git a/conmech/scenarios/problems.py b/conmech/scenarios/problems.py
index bd996fb..61245f3 100644
--- a/conmech/scenarios/problems.py
+++ b/conmech/scenarios/problems.py
@@ -22,6 +22,7 @@ from conmech.dynamics.statement import (
     PiezoelectricStatement,
     DynamicVelocityStatement,
     QuasistaticVelocityWithPiezoelectricStatement,
+    DynamicVelocityWithPiezoelectricStatement,
     QuasistaticRelaxationStatement,
     StaticPoissonStatement,
     WaveStatement,
@@ -221,4 +222,6 @@ class PiezoelectricQuasistaticProblem(
 class PiezoelectricDynamicProblem(
     DynamicDisplacementProblem, PiezoelectricTimeDependentProblem, ABC
 ):
-    pass
+    @classmethod
+    def statement(cls, body) -> Statement:
+        return DynamicVelocityWithPiezoelectricStatement(body)
-- 
2.43.0


From c423e10a9b9c3dd1a64f62685128f5bd4240d07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:40 +0000
Subject: [PATCH 14/32] fix: boundary indices cover Dirichlet nodes and no
 interior nodes

Dirichlet nodes are stored after the interior ones, so the leading slice was
not the boundary.
---
 conmech/mesh/boundaries.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conmech/mesh/boundaries.py b/conmech/mesh/boundaries.py
index 4bd8041..5f7d130 100644
--- a/conmech/mesh/boundaries.py
+++ b/conmech/mesh/boundaries.py
@@ -94,7 +94,8 @@ class Boundaries:
 
     @property
     def boundary_indices(self):
-        return slice(self.boundary_nodes_count)
+        dirichlet_indices = self.boundaries["dirichlet"].node_indices
+        return np.r_[: self.contact_nodes_count + self.neumann_nodes_count, dirichlet_indices]
 
     @property
     def contact_boundary(self):
-- 
2.43.0


From 97839cd8f94931ff7b642f82e759ccfaacadacc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:40 +0000
Subject: [PATCH 15/32] fix: do not subtract Dirichlet nodes twice from the
 number of free nodes

---
 conmech/mesh/mesh.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/conmech/mesh/mesh.py b/conmech/mesh/mesh.py
index 289b6c2..3d2729a 100644
--- a/conmech/mesh/mesh.py
+++ b/conmech/mesh/mesh.py
@@ -170,8 +170,7 @@ class Mesh(RawMesh):
 
     @property
     def free_nodes_count(self):
-        # TODO: #65 CHECK
-        return self.independent_nodes_count - self.contact_nodes_count - self.dirichlet_nodes_count
+        return self.independent_nodes_count - self.contact_nodes_count
 
     @property
     def boundary_indices(self):
-- 
2.43.0


From 9a06136e13716df08b29a3cd47fcd27c4027bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 16/32] fix: accept the time as second argument in the default
 forces

Loads are evaluated as source(node, time), so a problem that kept the default
zero forces failed with a TypeError.
---
 conmech/scenarios/problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conmech/scenarios/problems.py b/conmech/scenarios/problems.py
index 61245f3..a1ce838 100644
--- a/conmech/scenarios/problems.py
+++ b/conmech/scenarios/problems.py
@@ -47,13 +47,13 @@ class Problem(ABC):
 
     @staticmethod
     def inner_forces(
-        x: np.ndarray, *, v: Optional[np.ndarray] = None, t: Optional[float] = None
+        x: np.ndarray, t: Optional[float] = None, *, v: Optional[np.ndarray] = None
     ) -> np.ndarray:
         return np.zeros_like(x)
 
     @staticmethod
     def outer_forces(
-        x: np.ndarray, *, v: Optional[np.ndarray] = None, t: Optional[float] = None
+        x: np.ndarray, t: Optional[float] = None, *, v: Optional[np.ndarray] = None
     ) -> np.ndarray:
         return np.zeros_like(x)
 
-- 
2.43.0


From aa71fed2bbf5c84811558a8af2499caa6fc380b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:12 +0000
Subject: [PATCH 17/32] fix: solve problems without contact nodes by the Schur
 complement method

---
 conmech/solvers/optimization/schur_complement.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conmech/solvers/optimization/schur_complement.py b/conmech/solvers/optimization/schur_complement.py
index 8475e7f..40adc1d 100644
--- a/conmech/solvers/optimization/schur_complement.py
+++ b/conmech/solvers/optimization/schur_complement.py
@@ -84,7 +84,10 @@ class SchurComplementOptimization(Optimization):
         if self.driving_vector:
             truncated_ig = truncated_ig[:, : truncated_ig.shape[1] // 2]
             # truncated_ig: [[xc]]
-        solution_contact = super()._solve_impl(truncated_ig, **kwargs)
+        if truncated_ig.size == 0:  # no contact nodes, nothing to optimize
+            solution_contact = truncated_ig.reshape(-1)
+        else:
+            solution_contact = super()._solve_impl(truncated_ig, **kwargs)
         # solution_contact: [xc, yc] / [xc]
         solution_free = self.complement_free_nodes(solution_contact)
         # solution_free: [[xf], [xd], [yf], [yd]] / [xf, xd]
-- 
2.43.0


From 0ea605e5519db9df97d4ec97b00a3396504df065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:27 +0000
Subject: [PATCH 18/32] fix: displacement passed to scalar contact laws does
 not depend on the side of the body

---
 conmech/solvers/solver_methods.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/conmech/solvers/solver_methods.py b/conmech/solvers/solver_methods.py
index 5757066..63c3295 100644
--- a/conmech/solvers/solver_methods.py
+++ b/conmech/solvers/solver_methods.py
@@ -204,10 +204,14 @@ def make_cost_functional(
                     static_displacement,
                     dimension=problem_dimension,
                 )
-                static_displacement_normal = (static_displacement_mean * normal_vector).sum()
-                static_displacement_tangential = (
-                    static_displacement_mean - static_displacement_normal * normal_vector
-                )
+                if problem_dimension == 1:
+                    static_displacement_normal = static_displacement_mean[0]
+                    static_displacement_tangential = np.empty(0)
+                else:
+                    static_displacement_normal = (static_displacement_mean * normal_vector).sum()
+                    static_displacement_tangential = (
+                        static_displacement_mean - static_displacement_normal * normal_vector
+                    )
 
                 cost += contact_cost(
                     nph.length(edge, nodes) / len(vms[0]),
@@ -302,10 +306,14 @@ def make_subgradient(
                     static_displacement,
                     dimension=problem_dimension,
                 )
-                static_displacement_normal = (static_displacement_mean * normal_vector).sum()
-                static_displacement_tangential = (
-                    static_displacement_mean - static_displacement_normal * normal_vector
-                )
+                if problem_dimension == 1:
+                    static_displacement_normal = static_displacement_mean[0]
+                    static_displacement_tangential = np.empty(0)
+                else:
+                    static_displacement_normal = (static_displacement_mean * normal_vector).sum()
+                    static_displacement_tangential = (
+                        static_displacement_mean - static_displacement_normal * normal_vector
+                    )
 
                 subgrad = contact_cost(
                     nph.length(edge, nodes) / len(vms[0]),
-- 
2.43.0


From 86c17805f7ce8df9f996b055c8edeaa1fad8dcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:27 +0000
Subject: [PATCH 19/32] fix: refresh the time-dependent relaxation operator in
 the Schur complement method

---
 conmech/solvers/optimization/schur_complement.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conmech/solvers/optimization/schur_complement.py b/conmech/solvers/optimization/schur_complement.py
index 40adc1d..6ced3a0 100644
--- a/conmech/solvers/optimization/schur_complement.py
+++ b/conmech/solvers/optimization/schur_complement.py
@@ -174,6 +174,13 @@ class QuasistaticRelaxed(SchurComplementOptimization):
                 time=self.current_time,
             )
         )
+        # the relaxation operator depends on time
+        (
+            self._node_relations,
+            self.free_x_contact,
+            self.contact_x_free,
+            self.free_x_free_inverted,
+        ) = self.recalculate_displacement()
         self.node_forces_, self.forces_free = self.recalculate_forces()
 
 
-- 
2.43.0


From 5e19c947ab5b30559da35d6462a2e3dd652a839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:59 +0000
Subject: [PATCH 20/32] fix: name and refresh the solving method of problems
 without a first statement

---
 conmech/simulations/problem_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conmech/simulations/problem_solver.py b/conmech/simulations/problem_solver.py
index ab7f50c..c158e39 100644
--- a/conmech/simulations/problem_solver.py
+++ b/conmech/simulations/problem_solver.py
@@ -88,6 +88,8 @@ class ProblemSolver:
 
     @property
     def solving_method(self) -> str:
+        if self.step_solver is None:  # e.g. Poisson problems
+            return str(self.second_step_solver)
         return str(self.step_solver)
 
     @solving_method.setter
-- 
2.43.0


From e29cef00940f5c64f2f1fed7a39f6137e622955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:45 +0000
Subject: [PATCH 21/32] fix: a state does not share arrays with the caller of
 its setters

---
 conmech/state/state.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index d06983d..d9fd7c8 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -33,7 +33,7 @@ class State:
         *,
         update_absement: bool = False,
     ):
-        self.displacement = displacement_vector.reshape((self.body.mesh.dimension, -1)).T
+        self.displacement = displacement_vector.reshape((self.body.mesh.dimension, -1)).T.copy()
         self.displaced_nodes[: self.body.mesh.nodes_count, :] = (
             self.body.mesh.nodes[: self.body.mesh.nodes_count, :] + self.displacement[:, :]
         )
@@ -45,7 +45,7 @@ class State:
         self.update_products()
 
     def set_velocity(self, velocity_vector: np.ndarray, time: float, *, update_displacement: bool):
-        self.velocity = velocity_vector.reshape((self.body.mesh.dimension, -1)).T
+        self.velocity = velocity_vector.reshape((self.body.mesh.dimension, -1)).T.copy()
         if update_displacement:
             dt = time - self.time
             self.displacement += dt * self.velocity
@@ -147,7 +147,7 @@ class TemperatureState(State):
         return super().__getitem__(item)
 
     def set_temperature(self, temperature_vector: np.ndarray):
-        self.temperature = temperature_vector
+        self.temperature = temperature_vector.copy()
 
     def __copy__(self) -> "TemperatureState":
         copy = TemperatureState(self.body)
@@ -167,7 +167,7 @@ class PiezoelectricState(State):
         self.electric_potential = np.zeros(self.body.mesh.nodes_count)
 
     def set_electric_potential(self, electric_vector: np.ndarray):
-        self.electric_potential = electric_vector
+        self.electric_potential = electric_vector.copy()
 
     def __copy__(self) -> "PiezoelectricState":
         copy = PiezoelectricState(self.body)
-- 
2.43.0


From 4ef580bc32f362ebdccdf461b9dc8150ab6c78ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:10 +0000
Subject: [PATCH 22/32] fix: save states of problems with temperature sources

---
 conmech/state/state.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index d9fd7c8..bec7970 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -112,10 +112,15 @@ class State:
         return copy
 
     def save(self, path):
-        fos = self.body.dynamics.force.outer.source
-        self.body.dynamics.force.outer.source = None
-        fis = self.body.dynamics.force.inner.source
-        self.body.dynamics.force.inner.source = None
+        dynamics = self.body.dynamics
+        fields = [
+            field
+            for sources in (dynamics.force, dynamics.temperature)
+            for field in (sources.outer, sources.inner)
+        ]
+        field_sources = [field.source for field in fields]
+        for field in fields:
+            field.source = None
         s = self.setup
         self.setup = None
         cl = self.constitutive_law
@@ -125,8 +130,8 @@ class State:
             with open(path, "wb+") as file:
                 pickle.dump(self, file)
         finally:
-            self.body.dynamics.force.outer.source = fos
-            self.body.dynamics.force.inner.source = fis
+            for field, source in zip(fields, field_sources):
+                field.source = source
             self.setup = s
             self.constitutive_law = cl
 
-- 
2.43.0


From f2fe5528e644de9a63b5b225665f28d40190d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:10 +0000
Subject: [PATCH 23/32] fix: do not write other states of the body when a state
 is saved

---
 conmech/state/state.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index bec7970..764340a 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -121,6 +121,8 @@ class State:
         field_sources = [field.source for field in fields]
         for field in fields:
             field.source = None
+        latest = self.body.state
+        self.body.state = self  # other states of the body do not belong to the file
         s = self.setup
         self.setup = None
         cl = self.constitutive_law
@@ -132,6 +134,7 @@ class State:
         finally:
             for field, source in zip(fields, field_sources):
                 field.source = source
+            self.body.state = latest
             self.setup = s
             self.constitutive_law = cl
 
-- 
2.43.0


From 2197fba0c5a4bba9ffe888d0f731d1fb6e4ed052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 24/32] fix: plot exactly the limit points of the product,
 however many there are

---
 conmech/plotting/membrane.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/conmech/plotting/membrane.py b/conmech/plotting/membrane.py
index 7111c3e..09c2fe1 100644
--- a/conmech/plotting/membrane.py
+++ b/conmech/plotting/membrane.py
@@ -45,19 +45,12 @@ def plot_limit_points(
     finish=True,
     ylim=(0, 1),
 ):
-    buff = np.zeros((2, 1100))  # some extra space for multiple zeros
-    buff_size = 0
-    for time, zeros in prod.data.items():
-        for zero in zeros:  # significant performance improvement
-            buff[0, buff_size] = time
-            buff[1, buff_size] = zero
-            buff_size += 1
-        if buff_size == 1000:
-            plt.scatter(buff[0, :], buff[1, :], s=1, color=color, label=label)
-            label = None
-            buff_size = 0
-    if buff_size > 0:
-        plt.scatter(buff[0, :buff_size], buff[1, :buff_size], s=1, color=color, label=label)
+    # few large scatters instead of one for every point: significant performance improvement
+    points = np.array([(time, zero) for time, zeros in prod.data.items() for zero in zeros])
+    for start in range(0, len(points), 1000):
+        buff = points[start : start + 1000]
+        plt.scatter(buff[:, 0], buff[:, 1], s=1, color=color, label=label)
+        label = None
     plt.title(title)
     plt.ylim(*ylim)
 
-- 
2.43.0


From c00cdedb115e6679e549b65ee652ed1ddcb99222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 25/32] fix: plot odd numbers of states in columns

---
 conmech/plotting/membrane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conmech/plotting/membrane.py b/conmech/plotting/membrane.py
index 09c2fe1..fcd60d8 100644
--- a/conmech/plotting/membrane.py
+++ b/conmech/plotting/membrane.py
@@ -24,7 +24,7 @@ def plot_in_columns(states: List[State], *args, **kwargs):
         kwargs["in3d"] = False
 
     cols = 2
-    rows = len(states) // 2
+    rows = (len(states) + 1) // 2
     i = 1
     for r in range(1, len(states) + 1):
         ax = fig.add_subplot(rows, cols, i, **extra_kwargs)
-- 
2.43.0


From ffbb512cf7c4cae19b8386a275dd363d9e02621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 26/32] fix: pass the figure when one state is plotted

---
 conmech/plotting/membrane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conmech/plotting/membrane.py b/conmech/plotting/membrane.py
index fcd60d8..24b5df8 100644
--- a/conmech/plotting/membrane.py
+++ b/conmech/plotting/membrane.py
@@ -61,7 +61,7 @@ def plot_limit_points(
 def plot(state: State, *args, **kwargs):
     fig = plt.figure()
     ax = fig.add_subplot(1, 1, 1, projection="3d")
-    do_plot(state, *args, ax=ax, **kwargs)
+    do_plot(fig, state, *args, ax=ax, **kwargs)
     plt.show()
 
 
-- 
2.43.0


From 1fd516cfead95d05cb790628dd50a1aff730c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 27/32] fix: notice a relaxation tensor that was changed in
 place

---
 conmech/dynamics/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conmech/dynamics/dynamics.py b/conmech/dynamics/dynamics.py
index 13933a3..b0e1873 100644
--- a/conmech/dynamics/dynamics.py
+++ b/conmech/dynamics/dynamics.py
@@ -91,7 +91,7 @@ class Dynamics:
         if isinstance(self.body.properties, ElasticRelaxationProperties):
             relaxation_tensor = self.body.properties.relaxation(time)
             if (relaxation_tensor != self.__relaxation_tensor).any():
-                self.__relaxation_tensor = relaxation_tensor
+                self.__relaxation_tensor = np.array(relaxation_tensor)
                 self.__relaxation = self.factory.get_relaxation_tensor(
                     self._w_matrix, relaxation_tensor
                 )
-- 
2.43.0


From 0295cd1f4736f9c366c81ab80f16514edc6d289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 28/32] fix: recompute the relaxation operator after the
 element densities change

---
 conmech/dynamics/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conmech/dynamics/dynamics.py b/conmech/dynamics/dynamics.py
index b0e1873..9b52a76 100644
--- a/conmech/dynamics/dynamics.py
+++ b/conmech/dynamics/dynamics.py
@@ -55,6 +55,8 @@ class Dynamics:
             elements=self.body.mesh.elements, nodes=self.body.mesh.nodes
         )  # + self.displacement_old)
 
+        self.__relaxation_tensor = None  # the relaxation operator depends on the matrices
+
         if elements_density is not None:
             self._w_matrix = self.asembly_w_matrix_with_density(elements_density)
 
-- 
2.43.0


From 8431e5c710336bb69205d74b5b1bae3eb590b9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:39 +0000
Subject: [PATCH 29/32] fix: find the nodes of cross meshes finer than 1e-4

---
 conmech/helpers/nph.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/conmech/helpers/nph.py b/conmech/helpers/nph.py
index 18741ef..3dc7a70 100644
--- a/conmech/helpers/nph.py
+++ b/conmech/helpers/nph.py
@@ -2,8 +2,6 @@
 numpy helpers
 """
 
-from ctypes import ArgumentError
-
 import numba
 import numpy as np
 
@@ -30,10 +28,13 @@ def euclidean_norm_numba(vector: np.ndarray) -> np.ndarray:
 
 @numba.njit
 def get_node_index_numba(node, nodes):
+    # the nearest one, since distances between nodes may be arbitrarily small
+    index, min_distance = 0, np.inf
     for i, n in enumerate(nodes):
-        if np.sum(np.abs(node - n)) < 0.0001:
-            return i
-    raise ArgumentError
+        distance = np.sum(np.abs(node - n))
+        if distance < min_distance:
+            index, min_distance = i, distance
+    return index
 
 
 @numba.njit(inline="always")
-- 
2.43.0


From 019d9a2c82ed580c4d96ba7792f29059c0dca004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:06 +0000
Subject: [PATCH 30/32] fix: default loads of scalar problems have one
 component

---
 conmech/scenarios/problems.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/conmech/scenarios/problems.py b/conmech/scenarios/problems.py
index a1ce838..c9dd1cf 100644
--- a/conmech/scenarios/problems.py
+++ b/conmech/scenarios/problems.py
@@ -91,21 +91,34 @@ class PoissonProblem(StaticProblem, ABC):
 
     @staticmethod
     def internal_temperature(x: np.ndarray, t: Optional[float] = None) -> np.ndarray:
-        return np.zeros(len(x))
+        return np.zeros(1)  # scalar problem
 
     @staticmethod
     def outer_temperature(x: np.ndarray, t: Optional[float] = None) -> np.ndarray:
-        return np.zeros(len(x))
+        return np.zeros(1)  # scalar problem
 
 
 @dataclass
 class WaveProblem(DynamicProblem, ABC):
+    # pylint: disable=unused-argument
     propagation: float
 
     @classmethod
     def statement(cls, body) -> Statement:
         return WaveStatement(body)
 
+    @staticmethod
+    def inner_forces(
+        x: np.ndarray, t: Optional[float] = None, *, v: Optional[np.ndarray] = None
+    ) -> np.ndarray:
+        return np.zeros(1)  # scalar problem
+
+    @staticmethod
+    def outer_forces(
+        x: np.ndarray, t: Optional[float] = None, *, v: Optional[np.ndarray] = None
+    ) -> np.ndarray:
+        return np.zeros(1)  # scalar problem
+
     @staticmethod
     def initial_displacement(x: np.ndarray) -> np.ndarray:
         return np.zeros_like(x)
-- 
2.43.0


From d045c702752e9438cbce376062c6b5e49f8fd5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:15 +0000
Subject: [PATCH 31/32] fix: limits and arrows of a picture follow the current
 state

---
 conmech/plotting/drawer.py | 56 ++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/conmech/plotting/drawer.py b/conmech/plotting/drawer.py
index 4341c57..e26bf41 100644
--- a/conmech/plotting/drawer.py
+++ b/conmech/plotting/drawer.py
@@ -111,29 +111,31 @@ class Drawer:
         return fig, axes
 
     def set_axes_limits(self, axes, foundation):
+        # given limits are kept, others are the ones of the current state
+        x_min, x_max, y_min, y_max = self.x_min, self.x_max, self.y_min, self.y_max
         # pylint: disable=nested-min-max
-        if self.x_min is None:
+        if x_min is None:
             x_min_body = float(np.min(self.state.body.mesh.nodes[:, 0]))
             x_min_displaced = float(np.min(self.state.displaced_nodes[:, 0]))
-            self.x_min = min(x_min_body, x_min_displaced)
-        if self.x_max is None:
+            x_min = min(x_min_body, x_min_displaced)
+        if x_max is None:
             x_max_body = float(np.max(self.state.body.mesh.nodes[:, 0]))
             x_max_displaced = float(np.max(self.state.displaced_nodes[:, 0]))
-            self.x_max = max(x_max_body, x_max_displaced)
-        dx = self.x_max - self.x_min
+            x_max = max(x_max_body, x_max_displaced)
+        dx = x_max - x_min
         x_margin = dx * 0.2
-        xlim = (self.x_min - x_margin, self.x_max + x_margin)
-        if self.y_min is None:
+        xlim = (x_min - x_margin, x_max + x_margin)
+        if y_min is None:
             y_min_body = float(np.min(self.state.body.mesh.nodes[:, 1]))
             y_min_displaced = float(np.min(self.state.displaced_nodes[:, 1]))
-            self.y_min = min(y_min_body, y_min_displaced)
-        if self.y_max is None:
+            y_min = min(y_min_body, y_min_displaced)
+        if y_max is None:
             y_max_body = float(np.max(self.state.body.mesh.nodes[:, 1]))
             y_max_displaced = float(np.max(self.state.displaced_nodes[:, 1]))
-            self.y_max = max(y_max_body, y_max_displaced)
-        dy = self.y_max - self.y_min
+            y_max = max(y_max_body, y_max_displaced)
+        dy = y_max - y_min
         y_margin = dy * 0.2
-        ylim = (self.y_min - y_margin, self.y_max + y_margin)
+        ylim = (y_min - y_margin, y_max + y_margin)
 
         if foundation:
             axes.fill_between(xlim, [ylim[0], ylim[0]], color="gray", alpha=0.25)
@@ -205,16 +207,17 @@ class Drawer:
     def draw_dirichlet(self, axes):
         dirichlet_nodes = self.state.body.mesh.dirichlet_boundary
         dirichlet_nodes = list(set(dirichlet_nodes.flatten()))
-        if self.dirichlet_arrows is None:
+        arrows = self.dirichlet_arrows
+        if arrows is None:
             x = self.state.displaced_nodes[dirichlet_nodes][[0, 1]]
             v = np.zeros_like(x) + np.asarray([1, 0])
-            self.dirichlet_arrows = np.hstack((x, v))
-        if len(self.dirichlet_arrows) > 0:  # to avoid warning
+            arrows = np.hstack((x, v))
+        if len(arrows) > 0:  # to avoid warning
             axes.quiver(
-                self.dirichlet_arrows[:, 0],
-                self.dirichlet_arrows[:, 1],
-                self.dirichlet_arrows[:, 2],
-                self.dirichlet_arrows[:, 3],
+                arrows[:, 0],
+                arrows[:, 1],
+                arrows[:, 2],
+                arrows[:, 3],
                 angles="xy",
                 scale_units="xy",
                 scale=self.dirichlet_scale,
@@ -231,12 +234,13 @@ class Drawer:
         if self.outer_forces_scale:
             neumann_nodes = self.state.body.mesh.neumann_boundary
             neumann_nodes = list(set(neumann_nodes.flatten()))
-            if self.outer_forces_arrows is None:
+            arrows = self.outer_forces_arrows
+            if arrows is None:
                 x = self.state.displaced_nodes[neumann_nodes]
                 v = self.state.body.dynamics.force.outer.node_source(
                     self.state.body.mesh.nodes, self.state.time
                 )[neumann_nodes]
-                self.outer_forces_arrows = np.hstack((x, v))
+                arrows = np.hstack((x, v))
 
             scale = self.outer_forces_scale
 
@@ -246,12 +250,12 @@ class Drawer:
             #     scale = 1
 
             pivot = "tip"  # if any(v[:, 1] < 0) else "tail"  # TODO
-            if len(self.outer_forces_arrows) > 0:  # to avoid warning
+            if len(arrows) > 0:  # to avoid warning
                 axes.quiver(
-                    self.outer_forces_arrows[:, 0],
-                    self.outer_forces_arrows[:, 1],
-                    self.outer_forces_arrows[:, 2],
-                    self.outer_forces_arrows[:, 3],
+                    arrows[:, 0],
+                    arrows[:, 1],
+                    arrows[:, 2],
+                    arrows[:, 3],
                     angles="xy",
                     scale_units="xy",
                     headlength=self.outer_forces_size,
-- 
2.43.0


From 1c5fed643f073aed6bd28d8699460d725aeb47db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:15 +0000
Subject: [PATCH 32/32] fix: mark all Dirichlet nodes, also when there are less
 than two

---
 conmech/plotting/drawer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conmech/plotting/drawer.py b/conmech/plotting/drawer.py
index e26bf41..f9c7cdc 100644
--- a/conmech/plotting/drawer.py
+++ b/conmech/plotting/drawer.py
@@ -209,7 +209,7 @@ class Drawer:
         dirichlet_nodes = list(set(dirichlet_nodes.flatten()))
         arrows = self.dirichlet_arrows
         if arrows is None:
-            x = self.state.displaced_nodes[dirichlet_nodes][[0, 1]]
+            x = self.state.displaced_nodes[dirichlet_nodes][:, :2]
             v = np.zeros_like(x) + np.asarray([1, 0])
             arrows = np.hstack((x, v))
         if len(arrows) > 0:  # to avoid warning
-- 
2.43.0

