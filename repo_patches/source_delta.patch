From 11c3123711b8dba2605788dda0d24a4373226c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 01/21] fix: reset SparseMatrix capacity in destroy so it can
 be initialized again

---
 include/sparse_matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index d9a834c..01dda4b 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -69,6 +69,7 @@ namespace atg_scs {
                 m_blockData = nullptr;
 
                 m_width = m_height = 0;
+                m_capacityHeight = 0;
             }
 
             void expand(Matrix *matrix) {
-- 
2.43.0


From 6f5d59b1d224cca7f5ab1fc7efee6c7dd2515d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 02/21] fix: zero the entries of a freshly initialized
 SparseMatrix

---
 include/sparse_matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 01dda4b..7b41272 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -31,6 +31,7 @@ namespace atg_scs {
             void initialize(int width, int height) {
                 resize(width, height);
                 memset(m_blockData, 0xFFFFFF, sizeof(uint8_t) * T_Entries * m_height);
+                memset(m_data, 0, sizeof(double) * T_Stride * T_Entries * m_height);
             }
 
             void resize(int width, int height) {
-- 
2.43.0


From a505b488b248119d8d9c1a7dbda86ee605b25929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 03/21] fix: free zero-length SystemState arrays in destroy

---
 src/system_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system_state.cpp b/src/system_state.cpp
index d99a821..b35bd78 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -106,7 +106,7 @@ void atg_scs::SystemState::resize(int bodyCount, int constraintCount) {
 }
 
 void atg_scs::SystemState::destroy() {
-    if (n > 0) {
+    if (a_theta != nullptr) {
         freeArray(a_theta);
         freeArray(v_theta);
         freeArray(theta);
@@ -125,7 +125,7 @@ void atg_scs::SystemState::destroy() {
         freeArray(m);
     }
 
-    if (n_c > 0) {
+    if (indexMap != nullptr) {
         freeArray(indexMap);
 
         freeArray(r_x);
-- 
2.43.0


From 2bf6d0901530c8b5f1df827965782a128592479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 04/21] fix: copy only the entries the source SystemState has

---
 src/system_state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/system_state.cpp b/src/system_state.cpp
index b35bd78..bdfec52 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -43,7 +43,10 @@ atg_scs::SystemState::~SystemState() {
 void atg_scs::SystemState::copy(const SystemState *state) {
     resize(state->n, state->n_c);
 
-    if (state->n == 0) {
+    const int n = state->n;
+    const int n_c = state->n_c;
+
+    if (n == 0 && n_c == 0) {
         return;
     }
 
-- 
2.43.0


From 8e74e14fa574a60b996d7f905618a6a4c756f715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 05/21] fix: release the matrices of GenericRigidBodySystem in
 its destructor

---
 src/generic_rigid_body_system.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index ed3b956..a95f657 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -8,7 +8,23 @@ atg_scs::GenericRigidBodySystem::GenericRigidBodySystem() {
 }
 
 atg_scs::GenericRigidBodySystem::~GenericRigidBodySystem() {
-    /* void */
+    m_iv.J_sparse.destroy();
+    m_iv.J_dot_sparse.destroy();
+    m_iv.sreg0.destroy();
+    m_iv.M.destroy();
+    m_iv.M_inv.destroy();
+    m_iv.C.destroy();
+    m_iv.ks.destroy();
+    m_iv.kd.destroy();
+    m_iv.q_dot.destroy();
+    m_iv.reg0.destroy();
+    m_iv.reg1.destroy();
+    m_iv.reg2.destroy();
+    m_iv.right.destroy();
+    m_iv.F_ext.destroy();
+    m_iv.F_C.destroy();
+    m_iv.R.destroy();
+    m_iv.lambda.destroy();
 }
 
 void atg_scs::GenericRigidBodySystem::initialize(
-- 
2.43.0


From 9aef4f893f75c295db537061bcfa2991b7373579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 06/21] fix: report the reaction of each row and body in
 GenericRigidBodySystem

---
 src/generic_rigid_body_system.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index a95f657..17bdb50 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -96,9 +96,9 @@ void atg_scs::GenericRigidBodySystem::process(double dt, int steps) {
 
         for (int j = 0; j < constraint->getConstraintCount(); ++j, ++i_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
-                constraint->F_x[j][k] = m_state.r_x[i_f];
-                constraint->F_y[j][k] = m_state.r_y[i_f];
-                constraint->F_t[j][k] = m_state.r_t[i_f];
+                constraint->F_x[j][k] = m_state.r_x[i_f * 2 + k];
+                constraint->F_y[j][k] = m_state.r_y[i_f * 2 + k];
+                constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];
             }
         }
     }
-- 
2.43.0


From ebe00ac1ef42dc7dececfa8f6f751e2034cdf335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 07/21] fix: do not accelerate unregistered bodies

---
 src/generic_rigid_body_system.cpp       | 2 ++
 src/optimized_nsv_rigid_body_system.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index 17bdb50..846cd8e 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -234,6 +234,8 @@ void atg_scs::GenericRigidBodySystem::processConstraints(
         for (int j = 0; j < n_f; ++j, ++j_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
                 const int body = constraint->m_bodies[k]->index;
+                if (body == -1) continue;
+
                 m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                 m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                 m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
diff --git a/src/optimized_nsv_rigid_body_system.cpp b/src/optimized_nsv_rigid_body_system.cpp
index bdd1a1b..aca5a20 100644
--- a/src/optimized_nsv_rigid_body_system.cpp
+++ b/src/optimized_nsv_rigid_body_system.cpp
@@ -250,6 +250,8 @@ void atg_scs::OptimizedNsvRigidBodySystem::processConstraints(
         for (int j = 0; j < n_f; ++j, ++j_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
                 const int body = constraint->m_bodies[k]->index;
+                if (body == -1) continue;
+
                 m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                 m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                 m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
-- 
2.43.0


From ae3e1cad83e491191ccefab5f2288881f561b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 08/21] fix: do not apply spring forces to unregistered bodies

---
 src/spring.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/spring.cpp b/src/spring.cpp
index e820e46..d6cccca 100644
--- a/src/spring.cpp
+++ b/src/spring.cpp
@@ -62,21 +62,25 @@ void atg_scs::Spring::apply(SystemState *state) {
     const double v = dx * rel_v_x + dy * rel_v_y;
     const double x = l - m_restLength;
 
-    state->applyForce(
-        m_p1_x,
-        m_p1_y,
-        dx * x * m_ks + rel_v_x * m_kd,
-        dy * x * m_ks + rel_v_y * m_kd,
-        m_body1->index
-    );
-
-    state->applyForce(
-        m_p2_x,
-        m_p2_y,
-        -dx * x * m_ks - rel_v_x * m_kd,
-        -dy * x * m_ks - rel_v_y * m_kd,
-        m_body2->index
-    );
+    if (m_body1->index != -1) {
+        state->applyForce(
+            m_p1_x,
+            m_p1_y,
+            dx * x * m_ks + rel_v_x * m_kd,
+            dy * x * m_ks + rel_v_y * m_kd,
+            m_body1->index
+        );
+    }
+
+    if (m_body2->index != -1) {
+        state->applyForce(
+            m_p2_x,
+            m_p2_y,
+            -dx * x * m_ks - rel_v_x * m_kd,
+            -dy * x * m_ks - rel_v_y * m_kd,
+            m_body2->index
+        );
+    }
 }
 
 void atg_scs::Spring::getEnds(double *x_1, double *y_1, double *x_2, double *y_2) {
-- 
2.43.0


From 295bccfe1479432feaf3566fe4701d4e33d23820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 09/21] fix: measure convergence of the unlimited Gauss-Seidel
 solve by the change of the iterate

---
 src/gauss_seidel_sle_solver.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index 40f9f34..31abffa 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -25,8 +25,9 @@ bool atg_scs::GaussSeidelSleSolver::solve(
         Matrix *result)
 {
     const int n = right.getHeight();
-    
-    result->resize(1, n);
+    if (result->getWidth() != 1 || result->getHeight() != n) {
+        result->initialize(1, n);
+    }
 
     if (previous != nullptr && previous->getHeight() == n) {
         result->set(previous);
@@ -108,8 +109,8 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
         const double k_next_i =
             (1 / left.get(i, i)) * (right.get(0, i) - s0 - s1);
 
-        const double min_k = std::fmax(1E-3, k->get(0, i));
-        const double delta = (std::abs(k_next_i) - min_k) / min_k;
+        const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
+        const double delta = std::abs(k_next_i - k->get(0, i)) / min_k;
         maxDifference = (delta > maxDifference)
             ? delta
             : maxDifference;
-- 
2.43.0


From 8d782e384ee991da2221fd9dcc63a88f875306d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 10/21] fix: resize the Gaussian elimination result for an
 empty system

---
 src/gaussian_elimination_sle_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gaussian_elimination_sle_solver.cpp b/src/gaussian_elimination_sle_solver.cpp
index daf1422..daa9ac4 100644
--- a/src/gaussian_elimination_sle_solver.cpp
+++ b/src/gaussian_elimination_sle_solver.cpp
@@ -32,10 +32,10 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
 
     assert(right.getHeight() == m_M.getWidth());
 
-    if (n == 0 || m == 0) return true;
-
     result->resize(1, m);
 
+    if (n == 0 || m == 0) return true;
+
     Matrix &A = m_a;
     A.resize(n, m);
 
-- 
2.43.0


From a2e2bc38c7afb395f901f2fa5b80acab52c9d975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 11/21] fix: advance RK4 positions with the velocity of the
 previous stage

---
 src/rk4_ode_solver.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rk4_ode_solver.cpp b/src/rk4_ode_solver.cpp
index 7a4a0bf..ffcc176 100644
--- a/src/rk4_ode_solver.cpp
+++ b/src/rk4_ode_solver.cpp
@@ -26,36 +26,36 @@ bool atg_scs::Rk4OdeSolver::step(SystemState *state) {
         case RkStage::Stage_2:
         case RkStage::Stage_3:
             for (int i = 0; i < state->n; ++i) {
-                state->v_theta[i] =
-                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;
                 state->theta[i] =
                     m_initialState.theta[i] + m_dt * state->v_theta[i] / 2.0;
-                state->v_x[i] =
-                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;
-                state->v_y[i] =
-                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;
+                state->v_theta[i] =
+                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;
                 state->p_x[i] =
                     m_initialState.p_x[i] + m_dt * state->v_x[i] / 2.0;
                 state->p_y[i] =
                     m_initialState.p_y[i] + m_dt * state->v_y[i] / 2.0;
+                state->v_x[i] =
+                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;
+                state->v_y[i] =
+                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;
             }
 
             state->dt = m_dt / 2.0;
             break;
         case RkStage::Stage_4:
             for (int i = 0; i < state->n; ++i) {
-                state->v_theta[i] =
-                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];
                 state->theta[i] =
                     m_initialState.theta[i] + m_dt * state->v_theta[i];
-                state->v_x[i] =
-                    m_initialState.v_x[i] + m_dt * state->a_x[i];
-                state->v_y[i] =
-                    m_initialState.v_y[i] + m_dt * state->a_y[i];
+                state->v_theta[i] =
+                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];
                 state->p_x[i] =
                     m_initialState.p_x[i] + m_dt * state->v_x[i];
                 state->p_y[i] =
                     m_initialState.p_y[i] + m_dt * state->v_y[i];
+                state->v_x[i] =
+                    m_initialState.v_x[i] + m_dt * state->a_x[i];
+                state->v_y[i] =
+                    m_initialState.v_y[i] + m_dt * state->a_y[i];
             }
 
             state->dt = m_dt;
-- 
2.43.0


From ac6b503c2c462320fd4555c4b4c1dfe514bad112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 12/21] fix: report the weighted average of the RK4 stage
 reactions

---
 src/rk4_ode_solver.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/rk4_ode_solver.cpp b/src/rk4_ode_solver.cpp
index ffcc176..466009b 100644
--- a/src/rk4_ode_solver.cpp
+++ b/src/rk4_ode_solver.cpp
@@ -15,6 +15,12 @@ void atg_scs::Rk4OdeSolver::start(SystemState *initial, double dt) {
     m_initialState.copy(initial);
     m_accumulator.copy(initial);
 
+    for (int i = 0; i < initial->n_c * 2; ++i) {
+        m_accumulator.r_x[i] = 0.0;
+        m_accumulator.r_y[i] = 0.0;
+        m_accumulator.r_t[i] = 0.0;
+    }
+
     m_stage = RkStage::Stage_1;
 }
 
@@ -88,10 +94,10 @@ void atg_scs::Rk4OdeSolver::solve(SystemState *system) {
         m_accumulator.p_y[i] += (m_dt / 6.0) * system->v_y[i] * stageWeight;
     }
 
-    for (int i = 0; i < system->n_c; ++i) {
-        m_accumulator.r_x[i] += (m_dt / 6.0) * system->r_x[i] * stageWeight;
-        m_accumulator.r_y[i] += (m_dt / 6.0) * system->r_y[i] * stageWeight;
-        m_accumulator.r_t[i] += (m_dt / 6.0) * system->r_t[i] * stageWeight;
+    for (int i = 0; i < system->n_c * 2; ++i) {
+        m_accumulator.r_x[i] += system->r_x[i] * stageWeight / 6.0;
+        m_accumulator.r_y[i] += system->r_y[i] * stageWeight / 6.0;
+        m_accumulator.r_t[i] += system->r_t[i] * stageWeight / 6.0;
     }
 
     if (m_stage == RkStage::Stage_4) {
@@ -104,7 +110,7 @@ void atg_scs::Rk4OdeSolver::solve(SystemState *system) {
             system->p_y[i] = m_accumulator.p_y[i];
         }
 
-        for (int i = 0; i < system->n_c; ++i) {
+        for (int i = 0; i < system->n_c * 2; ++i) {
             system->r_x[i] = m_accumulator.r_x[i];
             system->r_y[i] = m_accumulator.r_y[i];
             system->r_t[i] = m_accumulator.r_t[i];
-- 
2.43.0


From e7060a0685d28841c6ea4b93867eb6394ad454f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 13/21] fix: clear the index of a removed body, constraint or
 force generator

---
 src/rigid_body_system.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rigid_body_system.cpp b/src/rigid_body_system.cpp
index b32c5f3..ddfd9d3 100644
--- a/src/rigid_body_system.cpp
+++ b/src/rigid_body_system.cpp
@@ -47,6 +47,7 @@ void atg_scs::RigidBodySystem::removeRigidBody(RigidBody *body) {
     m_rigidBodies[body->index] = m_rigidBodies.back();
     m_rigidBodies[body->index]->index = body->index;
     m_rigidBodies.resize(m_rigidBodies.size() - 1);
+    body->index = -1;
 }
 
 atg_scs::RigidBody *atg_scs::RigidBodySystem::getRigidBody(int i) {
@@ -63,6 +64,7 @@ void atg_scs::RigidBodySystem::removeConstraint(Constraint *constraint) {
     m_constraints[constraint->m_index] = m_constraints.back();
     m_constraints[constraint->m_index]->m_index = constraint->m_index;
     m_constraints.resize(m_constraints.size() - 1);
+    constraint->m_index = -1;
 }
 
 void atg_scs::RigidBodySystem::addForceGenerator(ForceGenerator *forceGenerator) {
@@ -74,6 +76,7 @@ void atg_scs::RigidBodySystem::removeForceGenerator(ForceGenerator *forceGenerat
     m_forceGenerators[forceGenerator->m_index] = m_forceGenerators.back();
     m_forceGenerators[forceGenerator->m_index]->m_index = forceGenerator->m_index;
     m_forceGenerators.resize(m_forceGenerators.size() - 1);
+    forceGenerator->m_index = -1;
 }
 
 int atg_scs::RigidBodySystem::getFullConstraintCount() const {
-- 
2.43.0


From 6dc2e3cbe0ee25e6478b2601babae1b61f38963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 14/21] fix: clear every body pointer of a new constraint

---
 src/constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constraint.cpp b/src/constraint.cpp
index e7549f3..765332a 100644
--- a/src/constraint.cpp
+++ b/src/constraint.cpp
@@ -12,7 +12,7 @@ atg_scs::Constraint::Constraint(int constraintCount, int bodyCount) {
 
     m_index = -1;
 
-    memset(m_bodies, 0, sizeof(int) * MaxBodyCount);
+    memset(m_bodies, 0, sizeof(RigidBody *) * MaxBodyCount);
 
     for (int i = 0; i < MaxConstraintCount; ++i) {
         for (int j = 0; j < MaxBodyCount; ++j) {
-- 
2.43.0


From 6430205790f55be8f5134d8a9fec1fbef8937bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 15/21] fix: store sparse block indices as int so that systems
 may have 255 or more bodies

---
 include/sparse_matrix.h | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 7b41272..7330f2a 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -30,7 +30,7 @@ namespace atg_scs {
 
             void initialize(int width, int height) {
                 resize(width, height);
-                memset(m_blockData, 0xFFFFFF, sizeof(uint8_t) * T_Entries * m_height);
+                memset(m_blockData, 0xFF, sizeof(int) * T_Entries * m_height);
                 memset(m_data, 0, sizeof(double) * T_Stride * T_Entries * m_height);
             }
 
@@ -45,7 +45,7 @@ namespace atg_scs {
 
                     m_data = new double[(size_t)T_Stride * T_Entries * m_capacityHeight];
                     m_matrix = new double *[m_capacityHeight];
-                    m_blockData = new uint8_t[(size_t)m_capacityHeight * T_Entries];
+                    m_blockData = new int[(size_t)m_capacityHeight * T_Entries];
                 }
 
                 m_height = height;
@@ -78,8 +78,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t block = m_blockData[i * T_Entries + j];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + j];
+                        if (block == -1) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
                                 matrix->set(block * T_Stride + k, i, m_matrix[i][j * T_Stride + k]);
@@ -94,8 +94,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t block = m_blockData[i * T_Entries + j];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + j];
+                        if (block == -1) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
                                 matrix->set(i, block * T_Stride + k, m_matrix[i][j * T_Stride + k]);
@@ -105,7 +105,7 @@ namespace atg_scs {
                 }
             }
 
-            inline void setBlock(int row, int entry, uint8_t index) {
+            inline void setBlock(int row, int entry, int index) {
                 assert(row >= 0 && row < m_height);
                 assert(entry >= 0 && entry < T_Entries);
                 assert(index < m_width);
@@ -133,7 +133,7 @@ namespace atg_scs {
                 assert(row >= 0 && row < m_height);
                 assert(col >= 0 && col < T_Entries);
 
-                m_blockData[row * T_Entries + col] = 0xFF;
+                m_blockData[row * T_Entries + col] = -1;
                 for (int i = 0; i < T_Stride; ++i) {
                     m_matrix[row][col * T_Stride + i] = 0;
                 }
@@ -148,11 +148,11 @@ namespace atg_scs {
                     for (int j = 0; j < b_T.m_height; ++j) {
                         double dot = 0;
                         for (int k = 0; k < T_Entries; ++k) {
-                            const uint8_t block0 = m_blockData[i * T_Entries + k];
-                            if (block0 == 0xFF) continue;
+                            const int block0 = m_blockData[i * T_Entries + k];
+                            if (block0 == -1) continue;
 
                             for (int l = 0; l < T_Entries; ++l) {
-                                const uint8_t block1 = b_T.m_blockData[j * T_Entries + l];
+                                const int block1 = b_T.m_blockData[j * T_Entries + l];
                                 if (block0 == block1) {
                                     for (int m = 0; m < T_Stride; ++m) {
                                         dot +=
@@ -181,8 +181,8 @@ namespace atg_scs {
                     double v = 0.0;
                     for (int k = 0; k < T_Entries; ++k) {
                         const int offset = k * T_Stride;
-                        const uint8_t block = m_blockData[i * T_Entries + k];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + k];
+                        if (block == -1) continue;
 
                         for (int l = 0; l < T_Stride; ++l) {
                             const int j = block * T_Stride + l;
@@ -205,8 +205,8 @@ namespace atg_scs {
                         double v = 0.0;
                         for (int k = 0; k < T_Entries; ++k) {
                             const int offset = k * T_Stride;
-                            const uint8_t block = m_blockData[i * T_Entries + k];
-                            if (block == 0xFF) continue;
+                            const int block = m_blockData[i * T_Entries + k];
+                            if (block == -1) continue;
 
                             for (int l = 0; l < T_Stride; ++l) {
                                 v += m_matrix[i][offset + l] * b.get(j, block * T_Stride + l);
@@ -226,8 +226,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t index = m_blockData[i * T_Entries + j];
-                        if (index == 0xFF) continue;
+                        const int index = m_blockData[i * T_Entries + j];
+                        if (index == -1) continue;
 
                         target->setBlock(i, j, index);
 
@@ -250,8 +250,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t index = m_blockData[i * T_Entries + j];
-                        if (index == 0xFF) continue;
+                        const int index = m_blockData[i * T_Entries + j];
+                        if (index == -1) continue;
 
                         target->setBlock(i, j, index);
 
@@ -272,7 +272,7 @@ namespace atg_scs {
         protected:
             double **m_matrix;
             double *m_data;
-            uint8_t *m_blockData;
+            int *m_blockData;
 
             int m_width;
             int m_height;
-- 
2.43.0


From c799ce5a68d03216a9088dab08e74e692723ce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 16/21] fix: honour the velocity bias of constraints in
 GenericRigidBodySystem

---
 include/generic_rigid_body_system.h | 1 +
 src/generic_rigid_body_system.cpp   | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/generic_rigid_body_system.h b/include/generic_rigid_body_system.h
index 035f73d..d8cb60a 100644
--- a/include/generic_rigid_body_system.h
+++ b/include/generic_rigid_body_system.h
@@ -31,6 +31,7 @@ namespace atg_scs {
                 Matrix M, M_inv;
                 Matrix C;
                 Matrix ks, kd;
+                Matrix v_bias;
                 Matrix q_dot;
 
                 Matrix reg0, reg1, reg2;
diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index 846cd8e..8cee770 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -16,6 +16,7 @@ atg_scs::GenericRigidBodySystem::~GenericRigidBodySystem() {
     m_iv.C.destroy();
     m_iv.ks.destroy();
     m_iv.kd.destroy();
+    m_iv.v_bias.destroy();
     m_iv.q_dot.destroy();
     m_iv.reg0.destroy();
     m_iv.reg1.destroy();
@@ -135,6 +136,7 @@ void atg_scs::GenericRigidBodySystem::processConstraints(
     m_iv.ks.initialize(1, m_f);
     m_iv.kd.initialize(1, m_f);
     m_iv.C.initialize(1, m_f);
+    m_iv.v_bias.initialize(1, m_f);
 
     Constraint::Output constraintOutput;
     for (int j = 0, j_f = 0; j < m; ++j) {
@@ -165,13 +167,14 @@ void atg_scs::GenericRigidBodySystem::processConstraints(
                 m_iv.ks.set(0, j_f, constraintOutput.ks[k]);
                 m_iv.kd.set(0, j_f, constraintOutput.kd[k]);
                 m_iv.C.set(0, j_f, constraintOutput.C[k]);
+                m_iv.v_bias.set(0, j_f, constraintOutput.v_bias[k]);
             }
         }
     }
 
     m_iv.J_sparse.multiply(m_iv.q_dot, &m_iv.reg0);
     for (int i = 0; i < m_f; ++i) {
-        m_iv.kd.set(0, i, m_iv.kd.get(0, i) * m_iv.reg0.get(0, i));
+        m_iv.kd.set(0, i, m_iv.kd.get(0, i) * (m_iv.reg0.get(0, i) + m_iv.v_bias.get(0, i)));
         m_iv.ks.set(0, i, m_iv.ks.get(0, i) * m_iv.C.get(0, i));
     }
 
-- 
2.43.0


From 690f2d0ad601b047197c034ccbd978161554365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 17/21] fix: make the rolling constraint a no-slip condition
 for every wheel radius and base rotation

---
 src/rolling_constraint.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rolling_constraint.cpp b/src/rolling_constraint.cpp
index 9b37019..9f2ae9c 100644
--- a/src/rolling_constraint.cpp
+++ b/src/rolling_constraint.cpp
@@ -60,7 +60,7 @@ void atg_scs::RollingConstraint::calculate(
 
     const double s = delta_x * dx + delta_y * dy;
 
-    const double C0 = -q6 - s * m_radius;
+    const double C0 = -(q6 - q3) * m_radius - s;
     const double C1 = m_radius - (perp_x * delta_x + perp_y * delta_y);
 
     const double d_origin_x_dq3 = -sin_q3 * m_local_x - cos_q3 * m_local_y;
@@ -100,9 +100,9 @@ void atg_scs::RollingConstraint::calculate(
         (d_delta_y_dq3_dot * dy + d_delta_y_dq3 * dy_dot) +
         (delta_y_dot * d_dy_dq3 + delta_y * d_dy_dq3_dot);
 
-    output->J[0][0] = -ds_dq1 * m_radius;
-    output->J[0][1] = -ds_dq2 * m_radius;
-    output->J[0][2] = -ds_dq3 * m_radius;
+    output->J[0][0] = -ds_dq1;
+    output->J[0][1] = -ds_dq2;
+    output->J[0][2] = m_radius - ds_dq3;
 
     // C1 = m_radius + dy * delta_x - dx * delta_y
     output->J[1][0] = dy * d_delta_x_dq1;
@@ -111,17 +111,17 @@ void atg_scs::RollingConstraint::calculate(
         (d_dy_dq3 * delta_x + dy * d_delta_x_dq3) -
         (d_dx_dq3 * delta_y + dx * d_delta_y_dq3);
 
-    output->J[0][3] = -1 * dx * m_radius;
-    output->J[0][4] = -1 * dy * m_radius;
-    output->J[0][5] = -1;
+    output->J[0][3] = -1 * dx;
+    output->J[0][4] = -1 * dy;
+    output->J[0][5] = -m_radius;
 
     output->J[1][3] = dy * d_delta_x_dq4;
     output->J[1][4] = -dx * d_delta_y_dq5;
     output->J[1][5] = 0;
 
-    output->J_dot[0][0] = -ds_dq1_dot * m_radius;
-    output->J_dot[0][1] = -ds_dq2_dot * m_radius;
-    output->J_dot[0][2] = -ds_dq3_dot * m_radius;
+    output->J_dot[0][0] = -ds_dq1_dot;
+    output->J_dot[0][1] = -ds_dq2_dot;
+    output->J_dot[0][2] = -ds_dq3_dot;
 
     output->J_dot[1][0] = dy_dot * d_delta_x_dq1;
     output->J_dot[1][1] = -dx_dot * d_delta_y_dq2;
@@ -131,8 +131,8 @@ void atg_scs::RollingConstraint::calculate(
         (d_dx_dq3_dot * delta_y + d_dx_dq3 * delta_y_dot) -
         (dx_dot * d_delta_y_dq3 + dx * d_delta_y_dq3_dot);
 
-    output->J_dot[0][3] = -1 * dx_dot * m_radius;
-    output->J_dot[0][4] = -1 * dy_dot * m_radius;
+    output->J_dot[0][3] = -1 * dx_dot;
+    output->J_dot[0][4] = -1 * dy_dot;
     output->J_dot[0][5] = 0;
 
     output->J_dot[1][3] = dy_dot * d_delta_x_dq4;
-- 
2.43.0


From 326b1be642d49444d4928fe25a4153051b1b17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 18/21] fix: conjugate gradient reports success on a residual
 that is not a number

---
 src/conjugate_gradient_sle_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conjugate_gradient_sle_solver.cpp b/src/conjugate_gradient_sle_solver.cpp
index 3e14dca..543f582 100644
--- a/src/conjugate_gradient_sle_solver.cpp
+++ b/src/conjugate_gradient_sle_solver.cpp
@@ -95,7 +95,7 @@ bool atg_scs::ConjugateGradientSleSolver::sufficientlySmall(
     for (int i = 0; i < x.getHeight(); ++i) {
         const double err = x.get(0, i);
         const double t = target.get(0, i);
-        if (std::abs(err) > std::fmax(std::abs(m_maxError * t), m_minError)) {
+        if (!(std::abs(err) <= std::fmax(std::abs(m_maxError * t), m_minError))) {
             return false;
         }
     }
-- 
2.43.0


From a086db79688a62381c05c58cf9121bcc73808d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 19/21] fix: Gauss-Seidel reports convergence on a change that
 is not a number

---
 src/gauss_seidel_sle_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index 31abffa..fb92c82 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -111,7 +111,7 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
 
         const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
         const double delta = std::abs(k_next_i - k->get(0, i)) / min_k;
-        maxDifference = (delta > maxDifference)
+        maxDifference = (delta > maxDifference || std::isnan(delta))
             ? delta
             : maxDifference;
 
@@ -150,7 +150,7 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
 
         const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
         const double delta = std::abs(x - k->get(0, i)) / min_k;
-        maxDifference = (delta > maxDifference)
+        maxDifference = (delta > maxDifference || std::isnan(delta))
             ? delta
             : maxDifference;
 
-- 
2.43.0


From 304dff7a94553ea8afea1424d4c11f903ac787e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:52 +0000
Subject: [PATCH 20/21] fix: read the elements of a column by row in dot and
 vectorMagnitudeSquared

After fastRowSwap the rows of a column are not in the order of the data
array, so indexing on from row 0 read other elements or past the end.
---
 src/matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 27de101..86eed2b 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -231,7 +231,7 @@ double atg_scs::Matrix::vectorMagnitudeSquared() const {
 
     double mag = 0;
     for (int i = 0; i < m_height; ++i) {
-        mag += m_matrix[0][i] * m_matrix[0][i];
+        mag += m_matrix[i][0] * m_matrix[i][0];
     }
 
     return mag;
@@ -244,7 +244,7 @@ double atg_scs::Matrix::dot(Matrix &b) const {
 
     double result = 0;
     for (int i = 0; i < m_height; ++i) {
-        result += m_matrix[0][i] * b.m_matrix[0][i];
+        result += m_matrix[i][0] * b.m_matrix[i][0];
     }
 
     return result;
-- 
2.43.0


From ac406389341a21c129717d73285a28ea24178535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:52 +0000
Subject: [PATCH 21/21] fix: set matrix data by row so that exchanged rows
 receive their values

---
 src/matrix.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 86eed2b..54b3aec 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -79,7 +79,11 @@ void atg_scs::Matrix::destroy() {
 }
 
 void atg_scs::Matrix::set(const double *data) {
-    memcpy(m_data, data, sizeof(double) * m_width * m_height);
+    for (int i = 0; i < m_height; ++i) {
+        for (int j = 0; j < m_width; ++j) {
+            m_matrix[i][j] = data[i * m_width + j];
+        }
+    }
 }
 
 void atg_scs::Matrix::set(Matrix *reference) {
-- 
2.43.0

