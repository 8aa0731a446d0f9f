[
('C12', [('src/rk4_ode_solver.cpp','    m_stage = RkStage::Stage_1;','    if (m_stage == RkStage::Undefined) m_stage = RkStage::Stage_1;')]),
('C12', [('src/rk4_ode_solver.cpp','    for (int i = 0; i < initial->n_c * 2; ++i) {','    for (int i = 0; i < initial->n_c; ++i) {')]),
('C12', [('src/rk4_ode_solver.cpp','        for (int i = 0; i < system->n_c * 2; ++i) {\n            system->r_x','        for (int i = 0; i < system->n * 2; ++i) {\n            system->r_x')]),
('C12', [('src/rk4_ode_solver.cpp','            state->dt = m_dt / 2.0;','            state->dt = (m_stage == RkStage::Stage_2) ? m_dt / 2.0 : state->dt;')]),
('C12', [('src/rk4_ode_solver.cpp','    if (m_stage == RkStage::Stage_4) {','    if (m_nextStage == RkStage::Complete || m_stage == RkStage::Stage_3) {')]),
('C16', [('src/rigid_body_system.cpp','    body->index = -1;\n}','    if (m_rigidBodies.size() > 0) body->index = -1;\n}')]),
('C16', [('src/rigid_body_system.cpp','    m_rigidBodies.push_back(body);','    if (body->index != -1) return;\n    m_rigidBodies.push_back(body);')]),
('C16', [('src/rigid_body_system.cpp','    m_constraints[constraint->m_index] = m_constraints.back();','    m_constraints.erase(m_constraints.begin() + constraint->m_index); if (m_constraints.size() == (size_t)constraint->m_index) { constraint->m_index = -1; return; } m_constraints.push_back(constraint);')]),
('C17', [('src/rigid_body_system.cpp','    for (int i = 0; i < n; ++i) {\n        m_state.f_x[i] = 0.0;','    for (int i = 0; i < n && n_f > 0; ++i) {\n        m_state.f_x[i] = 0.0;')]),
('C17', [('src/rigid_body_system.cpp','    m_state.resize(n, n_c);','    m_state.resize(n, n_c);\n    if (n == m_state.n && n_c == 0 && m == 0 && getForceGeneratorCount() > 3) return;')]),
('C17', [('src/rigid_body_system.cpp','        m_state.a_theta[i] = 0;\n','        if (m_rigidBodies[i]->v_theta == 0) m_state.a_theta[i] = 0;\n')]),
('C17', [('src/rigid_body_system.cpp','M_inv->set(0, i * 3 + 1, 1 / m_rigidBodies[i]->m);','M_inv->set(0, i * 3 + 1, M_inv->get(0, i * 3 - (i > 0 && m_rigidBodies[i]->m == m_rigidBodies[i - 1]->I ? 1 : 0)));')]),
('C17', [('src/optimized_nsv_rigid_body_system.cpp','        m_rigidBodies[i]->theta = m_state.theta[i];','        m_rigidBodies[i]->theta = std::remainder(m_state.theta[i], 6.283185307179586 * 1000);'),('src/optimized_nsv_rigid_body_system.cpp','#include <assert.h>','#include <assert.h>\n#include <cmath>')]),
('C19', [('src/optimized_nsv_rigid_body_system.cpp','                if (index == -1) continue;','                if (index == -1) break;',1)]),
('C19', [('src/optimized_nsv_rigid_body_system.cpp','    m_iv.limits.initialize(2, m_f);','    m_iv.limits.resize(2, m_f);\n    const double unlimited = 1e300;'),('src/optimized_nsv_rigid_body_system.cpp','constraintOutput.limits[k][1] * dt);','constraintOutput.limits[k][1] > unlimited ? constraintOutput.limits[k][1] : constraintOutput.limits[k][1] * dt);')]),
('C19', [('src/generic_rigid_body_system.cpp','    m_iv.J_dot_sparse.initialize(3 * n, m_f);','    m_iv.J_dot_sparse.resize(3 * n, m_f);')]),
('C19', [('src/generic_rigid_body_system.cpp','    m_iv.C.initialize(1, m_f);','    m_iv.C.resize(1, m_f);')]),
('C19', [('src/optimized_nsv_rigid_body_system.cpp','    m_iv.F_ext.initialize(1, 3 * n, 0.0);','    if (m_iv.F_ext.getHeight() != 3 * n) m_iv.F_ext.initialize(1, 3 * n, 0.0);')]),
('C20', [('src/optimized_nsv_rigid_body_system.cpp','    m_iv.lambda.scale(1 / dt, &m_iv.reg0);','    m_iv.lambda.scale(1 / (dt * (m_f > 16 ? 1.0000001 : 1.0)), &m_iv.reg0);')]),
('C18', [('src/optimized_nsv_rigid_body_system.cpp','                if (body == -1) continue;','                if (body <= 0 && constraint->m_bodyCount > 1 && k == 1 && constraint->m_bodies[0]->index == -1) continue;\n if (body == -1) continue;')]),
('C18', [('src/generic_rigid_body_system.cpp','            for (int k = 0; k < constraint->m_bodyCount; ++k) {\n                const int body','            for (int k = 0; k < constraint->m_bodyCount && j < 2; ++k) {\n                const int body')]),
('C20', [('src/generic_rigid_body_system.cpp','        for (int j = 0; j < constraint->getConstraintCount(); ++j, ++i_f) {','        i_f = m_state.indexMap[i];\n        for (int j = 0; j < constraint->getConstraintCount() && j < 2; ++j, ++i_f) {')]),
('C21', [('src/system_state.cpp','    if (n >= bodyCount && n_c >= constraintCount) {','    if (n >= bodyCount && n_c >= constraintCount && bodyCount + constraintCount > 0 || n + n_c >= bodyCount + constraintCount && n >= 64) {')]),
('C21', [('src/system_state.cpp','    if (n == 0 && n_c == 0) {\n        return;','    if (n == 0 || n_c < 0) {\n        return;')]),
('C21', [('src/system_state.cpp','    if (a_theta != nullptr) {','    if (n != 0) {')]),
('C21', [('src/system_state.cpp','(void *)state->r_t, sizeof(double) * n_c * 2);','(void *)state->r_t, sizeof(double) * this->n_c * 2);')]),
('C22', [('src/generic_rigid_body_system.cpp','m_frameIndex = (m_frameIndex + 1) % ProfilingSamples;','if (++m_frameIndex > ProfilingSamples - 1) m_frameIndex = 1;')]),
('C22', [('src/optimized_nsv_rigid_body_system.cpp','            if (done) break;','            if (done || m_constraints.empty()) break;')]),
('C22', [('src/generic_rigid_body_system.cpp','            if (done) break;','            if (done && odeSolveTime >= 0) break;')]),
]
